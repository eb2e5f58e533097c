"""The checks: which constructs are analysed for which property, and the rule each has to satisfy."""
from .common import *
from .c_samples import *
from .c_data import *
from .c_factory import *
from .c_iface import *
from .c_settings import *
from .c_networks import *
from .c_approx import *
from .c_random import *
from .c_losses import *
from .c_select import *
from .c_dist import *
from .c_hist import *
from .c_matrix import *
from .c_defs import *
from .c_chain import *

LEVEL = "other"


def tasks(prog, prop, tier):
    return TASKS[prop](prog, tier)


def finish(prog, rep, prop):
    if prop in FINISH:
        FINISH[prop](rep)
