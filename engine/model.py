"""Scenarios over the analysed package: symbolic construction of its objects and analysis of calls."""
import ast

from .interp import Interp, FSeq, View, Out
from .program import Program, ClassInfo, FuncInfo
from .terms import *
from .terms import as_term
from .values import *


class Scenario:
    def __init__(self, prog, vocab=None):
        self.prog = prog
        self.I = Interp(prog)
        if vocab:
            self.I.vocab.update(vocab)
        self.st = State()
        self.st.frames[0] = {}
        self.st.cur = 0

    def cls(self, name):
        c = self.prog.classes.get(name)
        if c is None:
            raise Missing(name)
        return c

    def sym(self, st, name, ann, mod, root=True):
        r = frozenset(["argument " + name]) if root else EMPTY
        return self.I.typed(st, ("param", name), name, ann, mod, r)

    def params(self, st, fn, skip=1, over=None, prefix="", root=True):
        """Symbolic arguments of a function, from its signature."""
        out = {}
        for (n, ann, d, kind) in fn.params()[skip:]:
            if kind in ("var", "varkw"):
                continue
            if over and n in over:
                out[n] = over[n](st) if callable(over[n]) else over[n]
            else:
                r = frozenset(["argument " + n]) if root else EMPTY
                out[n] = self.I.typed(st, ("param", prefix + n), n, ann, fn.mod, r)
        return out

    def new(self, cls, over=None, st=None, prefix="ctor.", root=True):
        st = (st or self.st).clone()
        init = cls.find_method("__init__")
        kw = self.params(st, init, 1, over, prefix, root) if init is not None else {}
        return self.I.instantiate(cls, [], kw, st, cls.node), kw

    def call(self, st, ref, name, over=None, prefix="", root=True, args=None):
        c = st.heap[ref.a]
        fn = c.cls.find_method(name)
        if fn is None:
            raise Missing("%s.%s" % (c.cls.name, name))
        st = st.clone()
        kw = args if args is not None else self.params(st, fn, 0 if fn.is_static else 1, over, prefix, root)
        a = [] if fn.is_static else [ref]
        return self.I.call_fn(fn, a, dict(kw), st, fn.node), kw


class Missing(Exception):
    pass
