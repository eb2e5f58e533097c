"""Helpers shared by the checks."""
import ast

from . import contracts
from .interp import FSeq, View
from .model import Scenario, Missing
from .program import ClassInfo, FuncInfo
from .report import Report
from .terms import *
from .terms import as_term
from .values import *

RULES = {}

# strategies that keep every particle
LOSSLESS = ("GeneralizedCliffordsSimulationStrategy", "GeneralizedCliffordsBSimulationStrategy",
            "CliffordsRSimulationStrategy", "ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface")


def strategies(prog):
    """Concrete sampling strategies of the package."""
    out = []
    for c in sorted(prog.classes.values(), key=lambda c: c.name):
        f = c.find_method("simulate")
        if f is None or f.is_abstract or c.abstract_names():
            continue
        if any(p[0] == "samples_number" for p in f.params()):
            out.append(c.name)
    return out


# ---------------------------------------------------------------------------------------- helpers

class Run:
    """Analysis of one public operation on a freshly constructed object."""

    def __init__(self, prog, cname, method, over=None, ctor=None, vocab=None, index=False):
        self.S = Scenario(prog, contracts.build(prog) if vocab is None else vocab)
        self.I = self.S.I
        self.I.watch_index = index
        # documented domain of the constructor arguments
        BOUNDS[("param", "ctor.hierarchy_level", "int")] = (P(0), None)
        BOUNDS[("len", ("param", "input_state", "seq"))] = (P(1), None)
        self.cls = self.S.cls(cname)
        self.cname, self.method = cname, method
        self.where = "%s.%s" % (cname, method)
        objs, self.ckw = self.S.new(self.cls, ctor)
        self.ctor_exc = [e for b in self.I.exc for e in b]
        self.I.exc = [[]]
        self.objs = objs
        self.results = []       # (ctor state, ref, state, value)
        self.exc = []
        self.ctor_events = self.I.events
        self.I.events = []
        for st, ref in objs:
            r, self.kw = self.S.call(st, ref, method, over)
            for x, v in r:
                self.results.append((st, ref, x, v))
            self.exc += [e for b in self.I.exc for e in b]
            self.I.exc = [[]]
        self.events = self.I.events
        fn = self.cls.find_method(method)
        self.fn = fn
        self.loc = "%s:%d" % (fn.mod.rel, fn.node.lineno)

    def param(self, name):
        return ("param", name)


def unreliable(st):
    return bool(st.flags)


def param_poly(I, st, kw, name):
    return I.to_poly(st, kw[name])


def is_modes(a):
    """Atoms that stand for the number of modes of the experiment."""
    if a[0] == "len":
        x = a[1]
        if isinstance(x, tuple) and x:
            if x[0] in ("param", "attr"):
                n = str(x[1] if x[0] == "param" else x[2]).split(".")[-1]
                return n.strip("_").endswith(("matrix", "input_state", "output_state", "initial_state"))
            if x[0] == "item" and is_matrix(x[1]):
                return True
    if a[0] in ("param", "attr"):
        n = str(a[1] if a[0] == "param" else a[2]).split(".")[-1]
        return n in ("number_of_modes", "number_of_observed_modes", "modes_number")
    return False


def is_matrix(x):
    return isinstance(x, tuple) and x and x[0] in ("param", "attr") and \
        str(x[1] if x[0] == "param" else x[2]).split(".")[-1].strip("_").endswith("matrix")


M = ("sym", "modes", "int")


class Exp:
    """A consistent experiment: all atoms that count its modes have one value in every interpretation."""

    def __init__(self, *ps, more=()):
        self.atoms = {M}
        for p in ps:
            self.see(p)
        self.atoms |= set(more)

    def see(self, p):
        for a in walk(p if isinstance(p, tuple) else P(p)):
            if isinstance(a[0], str) and is_modes(a):
                self.atoms.add(a)
        return self

    def facts(self, st):
        fs = list(st.facts.items()) if not isinstance(st, dict) else list(st.items())
        for c, v in fs:
            if c[0] in ("lt", "eq", "le"):
                self.see(c[1])
        return fs

    def over(self, seed):
        n = 1 + (seed * 7 + seed // 5) % 4
        return {a: n for a in self.atoms}


def feasible(fs, exp, tries=2500):
    """Some interpretation satisfies the facts (facts that are not arithmetic are taken as satisfiable)."""
    for s in range(tries):
        try:
            if facts_hold(fs, Model(s, exp.over(s))):
                return True
        except (Skip, ZeroDivisionError, OverflowError):
            continue
    return False


def alternatives(p, limit=64):
    """Split a polynomial over the alternatives of the joined sequences in it."""
    return [q for q, in joint_alternatives((p,), limit)]


def joint_alternatives(ps, limit=64):
    """Split polynomials over the alternatives in them, each alternative chosen alike in all."""
    todo, out = [tuple(P(p) for p in ps)], []
    while todo:
        qs = todo.pop()
        alt = next((a for q in qs for a in walk(q) if a and a[0] == "alt" and len(a) > 1), None)
        if alt is None or len(out) + len(todo) > limit:
            out.append(qs)
            continue
        for x in alt[1:]:
            todo.append(tuple(subst(q, {alt: x}) for q in qs))
    return out


def not_top(facts):
    """Atoms known to differ from the largest value they can take."""
    out = set()
    for c, v in facts:
        if c[0] == "eq" and v is False:
            for a in P(c[1]).atoms():
                hi = atom_bounds(a)[1]
                if hi is not None and int_atom(a) and (P(c[1]) == A(a) - hi or P(c[1]) == hi - A(a)):
                    out.add(a)
    return out


def upper(p, lower=()):
    """Replace parts by upper bounds: partial sums of non-negative sequences by their totals."""
    for _ in range(6):
        q = upper1(p, lower)
        if q == P(p):
            break
        p = q
    return P(p)


def upper1(p, lower=()):
    p = P(p)
    r = P(0)
    for mo, c in p.t.items():
        t = None
        if len(mo) == 1 and mo[0][1] == 1 and c > 0:
            a = mo[0][0]
            hi = atom_bounds(a)[1]
            if hi is not None:
                t = hi - 1 if a in lower else hi
            if a[0] == "Sum":
                b = as_term(a[2])
                if isinstance(b, tuple) and b[0] == "item" and isinstance(b[1], tuple) and b[1] and \
                        nonneg_seq(b[1]) and not mentions(b[1], lambda z: z == a[3]):
                    t = seq_sum(b[1])
        r = r + (t * c if t is not None else Poly({mo: c}))
    return r


def nonneg_seq(s):
    return s[0] == "lv" and s[5] is not None and s[5] >= 0 or \
        s[0] in ("sorted", "rev") and nonneg_seq(s[1]) or s[0] == "perm" and nonneg_seq(s[2])


def at_most(I, a, b, facts, exp):
    """True / False / None: a <= b in every consistent experiment."""
    worst = True
    lower = not_top(facts)
    for q in alternatives(a):
        u = upper(q, lower)
        d = P(b) - u
        ex = [v for c, x in facts for v in bounds_of_fact(c, x)]
        if I.lb_nonneg(d, ex):
            continue
        v = le_test(u, b, facts, exp.see(u).see(b), imprecise(u) or imprecise(b) or unbounded(u))
        if v is None:
            worst = None
        elif v is False and worst is True:
            worst = False
    return worst


def unbounded(p):
    return any(a[0] in ("brk", "it") and a[2] is None and a not in BOUNDS for a in P(p).atoms())


def bounds_of_fact(c, x):
    if c[0] == "lt":
        return [-c[1] - 1 if is_int(c[1]) else -c[1]] if x else [c[1]]
    if c[0] == "eq" and x:
        return [c[1], -c[1]]
    return []


def le_test(a, b, facts, exp, loose=False, tries=2500, want=40):
    got = 0
    for s in range(tries):
        m = Model(s, exp.over(s))
        try:
            if facts and not facts_hold(facts, m):
                continue
            v = m.val(P(a) - P(b))
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        got += 1
        if v > 0:
            return None if loose else False
        if got >= want:
            return True
    return True if got >= 3 else None


def same_all(a, b, facts, exp):
    r = True
    for q in alternatives(a):
        exp.see(q).see(b)
        v = same(q, b, facts, over=exp.over)
        if v is None:       # which alternative is taken is not known: one that is not modelled leaves the rest open
            r = None
        elif v is False and r is True:
            r = False
    return r


def guarded(v):
    """[(alternative, facts known to hold when it is taken)] of a joined value."""
    if not isinstance(v, Alt):
        return [(v, [])]
    out = []
    for x, g in zip(v.vs, v.g or [()] * len(v.vs)):
        out += [(x, list(k)) for k in g] or [(x, [])]
    return out


def try_facts(test, fs, more):
    """Decide with the facts of the path; if that fails, also with those under which the alternative is taken."""
    d = test(fs)
    return test(fs + list(more)) if d is not True and more else d


def short(x, n=260):
    s = show(x)
    return s if len(s) <= n else s[:n] + "..."


def path(st, n=5):
    out = []
    for c, v in list(st.facts.items())[-n:]:
        if c[0] in ("lt", "eq", "le"):
            out.append("%s%s %s 0" % ("" if v else "not ", short(c[1], 120), {"lt": "<", "eq": "==", "le": "<="}[c[0]]))
    return "when " + "; ".join(out) if out else "on every path"



TASKS = {}


# ---------------------------------------------------------------------------------------- whole-package walks

def concrete_classes(prog):
    """Instantiable classes of the package (not enumerations or plain records)."""
    return [c for c in sorted(prog.classes.values(), key=lambda c: c.name)
            if not c.is_enum and not c.is_dataclass and not c.abstract_names()
            and not any(f.is_abstract for f in c.methods.values())]


def public_methods(c):
    """Public operations of a class, inherited ones included."""
    out = {}
    for k in reversed(c.mro()):
        for n, f in k.methods.items():
            if not n.startswith("_"):
                out[n] = f
    return {n: f for n, f in out.items() if not f.is_abstract and not f.is_classmethod}


def all_setters(c):
    out = {}
    for k in reversed(c.mro()):
        for n, f in k.setters.items():
            if not n.startswith("_"):
                out[n] = f
    return {n: f for n, f in out.items() if not f.is_abstract}


def module_functions(prog):
    out = []
    for m in prog.mods.values():
        for n, v in m.scope.items():
            if isinstance(v, FuncInfo) and v.mod is m:
                out.append(v)
    return sorted(out, key=lambda f: (f.mod.name, f.name))


class FnRun:
    """Analysis of a module-level function on symbolic arguments."""

    def __init__(self, prog, mod, name, over=None, vocab=None, index=False):
        m = prog.mods.get(mod)
        fn = m.scope.get(name) if m else None
        if not isinstance(fn, FuncInfo):
            raise Missing("%s.%s" % (mod, name))
        self.S = Scenario(prog, vocab if vocab is not None else {})
        self.I = self.S.I
        self.I.watch_index = index
        self.fn = fn
        self.where = "%s" % name
        self.loc = "%s:%d" % (fn.mod.rel, fn.node.lineno)
        st = self.S.st.clone()
        self.kw = self.S.params(st, fn, 0, over)
        self.st0 = st.clone()
        self.results = self.I.call_fn(fn, [], dict(self.kw), st, fn.node)
        self.exc = [e for b in self.I.exc for e in b]
        self.events = self.I.events


def imprecise_term(t):
    return mentions(t, lambda a: a[0] in IMPRECISE)
