"""C20, C21: conversions, dimensions and distances follow their definitions."""
import itertools
import math

from .c_matrix import judged, each
from .ground import *
from .common import *

RULES["C20"] = (
    "The values returned by the conversions between mode occupations and mode assignments, by the effective scattering "
    "matrix calculator and by the dimension function are derived as formulas over their arguments (loop summaries: lists "
    "built by extending, entries counted at computed positions, repeated rows and columns) and compared with their "
    "definitions by identity testing in exact arithmetic, in interpretations with empty and bunched modes.")
RULES["C21"] = (
    "The distances between distributions, the error bound and the sample number estimate are derived as formulas (sums of "
    "absolute differences, logarithms as uninterpreted functions) and compared with their definitions by identity testing "
    "in exact arithmetic.")

OCC = [[1, 0, 2], [0, 3], [2, 1, 0, 1], [0, 0, 1], [1, 1], [4], [0, 2, 0, 1], [1, 2, 3]]
ASSIGN = [([0, 2, 2], 4), ([1, 1, 1], 3), ([3, 0, 3, 1], 4), ([0], 1), ([2, 1, 0], 3), ([0, 0, 3], 0), ([1, 2, 1], 0)]


def ints(xs):
    return [GC(x) for x in xs]


def first_terms(r):
    return [r.I.term(r.st0, v) for v in r.kw.values()]


def utility(prog, name):
    for f in module_functions(prog):
        if f.name == name:
            return FnRun(prog, f.mod.name, name)
    return None


def run_fn(prog, rep, name, rule, worlds, want):
    """worlds: list of lists of argument values; want(args) -> expected value."""
    r = utility(prog, name)
    if r is None:
        rep.dunno(rule, name, "no such function")
        return
    rep.engine(r.I)
    I = r.I
    ts = first_terms(r)

    def go(w):
        base = {}
        truth = {}
        for t, v in zip(ts, w):
            if isinstance(v, bool):
                truth[t] = v
                v = int(v)
            base[t] = conv(v)
        g = Ground(I, base)
        hit = False
        for st, v in r.results:
            if unreliable(st):
                return None
            if any(c[0] == "truth" and c[1] in truth and truth[c[1]] != b for c, b in st.facts.items()):
                continue
            if not consistent(g, st.facts):
                continue
            hit = True
            t = I.term(st, v)
            x = g.ev(t, {})
            y = conv(want(*w))
            if x != y:
                return False, "for the arguments %s the value is %s instead of %s" % (w, show_value(x), show_value(y))
        return True if hit else None
    judged(rep, rule, name, r.loc, each(go, worlds))


def conv(v):
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    return v if isinstance(v, GC) else GC(v)


def show_value(v):
    if isinstance(v, list):
        return "[" + ", ".join(show_value(x) for x in v) + "]"
    return str(v)


def occupation(a, m):
    m = m if m else max(a) + 1
    return [a.count(i) for i in range(m)]


def assignment(o):
    return [i for i, k in enumerate(o) for _ in range(k)]


def t_c20_assignment(prog, rep):
    run_fn(prog, rep, "mode_occupation_to_mode_assignment", "every particle is assigned to its mode", [[o] for o in OCC], assignment)


def t_c20_occupation(prog, rep):
    run_fn(prog, rep, "mode_assignment_to_mode_occupation", "every mode counts its particles", [list(a) for a in ASSIGN], occupation)


def t_c20_dimension(prog, rep):
    def dim(n, m, losses):
        f = lambda k: math.comb(k + m - 1, k)
        return sum(f(k) for k in range(n + 1)) if losses else f(n)
    run_fn(prog, rep, "bosonic_space_dimension", "dimension of the space",
           [[n, m, l] for n in range(5) for m in range(1, 5) for l in (False, True)], dim)


def t_c20_scattering(prog, rep, cname):
    r = Run(prog, cname, "calculate")
    rep.engine(r.I)
    I = r.I
    rule = "one row per output particle and one column per input particle"
    names = {n.split(".")[-1]: n for n in r.ckw}
    if not {"matrix", "input_state", "output_state"} <= set(names):
        rep.dunno(rule, r.where, "", r.loc)
        return
    ts = {n: None for n in names}
    pairs = [([1, 0, 2], [0, 2, 1]), ([2, 1], [0, 3]), ([1, 1], [2, 0]), ([0, 0], [0, 0]), ([1], [1]), ([0, 2, 1], [1, 1, 1]), ([3, 0], [1, 2])]

    def go(w):
        i, o = w
        m = len(i)
        u = [[GC(Fraction(3 + 5 * a + b * b, 7), Fraction(2 * a - b, 3)) for b in range(m)] for a in range(m)]
        vals = {"matrix": u, "input_state": ints(i), "output_state": ints(o)}
        base = {("param", "ctor." + n, "seq"): v for n, v in vals.items()}
        g = Ground(I, base)
        want = [[u[a][b] for b in assignment(i)] for a in assignment(o)]
        hit = False
        for cst, ref, st, v in r.results:
            if unreliable(st):
                return None
            if not consistent(g, st.facts):
                continue
            if any(c[0] == "none" and c[1] in base and b for c, b in st.facts.items()):
                continue
            hit = True
            x = g.ev(I.term(st, v), {})
            if x != want:
                return False, "for the input %s and output %s the matrix is built from other entries than U[output mode][input mode]" % (i, o)
        return True if hit else None
    judged(rep, rule, r.where, r.loc, each(go, pairs))


def c20(prog, tier):
    out = [("t_c20_assignment", ()), ("t_c20_occupation", ()), ("t_c20_dimension", ())]
    for c in concrete_classes(prog):
        if c.name == "EffectiveScatteringMatrixCalculator":
            out.append(("t_c20_scattering", (c.name,)))
    return out


TASKS["C20"] = c20


# ---------------------------------------------------------------------------------------- C21

class Approx(Ground):
    """Logarithms and roots to double precision."""

    def pw(self, b, e):
        if e.denominator != 1:
            b = gc(b)
            if b.im or b.re < 0:
                raise Skip
            return GC(Fraction(float(b.re) ** float(e)))
        return Ground.pw(self, b, e)

    def t_log(self, x, env):
        v = self.num(x[1], env)
        if v.im or v.re <= 0:
            raise Skip
        return GC(Fraction(math.log(v.re)))

    def t_exp(self, x, env):
        v = self.num(x[1], env)
        if v.im or abs(v.re) > 100:
            raise Skip
        return GC(Fraction(math.exp(v.re)))

    def t_int(self, x, env):
        return GC(int(self.num(x[1], env).real()))

    def t_floor(self, x, env):
        return GC(math.floor(self.num(x[1], env).real()))

    def t_ceil(self, x, env):
        return GC(math.ceil(self.num(x[1], env).real()))


def near_number(x, y):
    if not is_num(x) or not is_num(y):
        return False
    d = gc(x) - gc(y)
    return abs(d.re) + abs(d.im) <= Fraction(1, 10 ** 9) * (1 + abs(gc(y).re))


def run_number(prog, rep, name, rule, worlds, want, base_of=None):
    r = utility(prog, name)
    if r is None:
        rep.dunno(rule, name, "no such function")
        return
    rep.engine(r.I)
    I = r.I
    ts = first_terms(r)

    def go(w):
        g = Dicts(I, {t: v if isinstance(v, dict) else conv(v) for t, v in zip(ts, w)})
        hit = False
        for st, v in r.results:
            if unreliable(st):
                return None
            if not consistent(g, st.facts):
                continue
            hit = True
            x, y = g.ev(I.term(st, v), {}), want(*w)
            if not near_number(x, GC(Fraction(y))):
                return False, "for the arguments %s the value is %s instead of %s" % (
                    w, float(gc(x).re) if is_num(x) else x, float(y))
        return True if hit else None
    judged(rep, rule, name, r.loc, each(go, worlds))


class Dicts(Approx):
    """Dictionaries: their keys in the order of insertion, a union of key sets keeps each key once."""

    def seq(self, x, env):
        v = self.ev(x, env)
        if isinstance(v, dict):
            return [GC(k) for k in v]
        if not isinstance(v, list):
            raise Unmodelled("sequence expected")
        return v

    def t_or(self, x, env):
        return self.t_set(("set", ("cat",) + x[1:]), env)

    def t_and(self, x, env):
        a, *bs = [self.seq(y, env) for y in x[1:]]
        return [v for v in self.t_set(("set", x[1]), env) if all(v in b for b in bs)]

    def t_cat(self, x, env):
        return sum((self.seq(y, env) for y in x[1:]), [])

    def t_call(self, x, env):
        d = self.base.get(x[1]) if isinstance(x[1], tuple) else None
        if len(x) >= 3 and x[2] in ("union", "intersection") and isinstance(x[1], tuple) and x[1] and x[1][0] == "set":
            return (self.t_or if x[2] == "union" else self.t_and)(("call", x[1]) + x[3:], env)
        if isinstance(d, dict) and x[2] == "keys" and len(x) == 3:
            return [GC(k) for k in d]
        if isinstance(d, dict) and x[2] == "get" and len(x) == 5:
            k = whole(self.ev(x[3], env))
            return GC(d[k]) if k in d else self.ev(x[4], env)
        raise Unmodelled("call")

    def t_val(self, x, env):
        t = x[1]
        if isinstance(t, tuple) and t and t[0] == "dictv" and len(t) == 3:
            u = t[1]
            if isinstance(u, tuple) and u and u[0] == "upd" and len(u) == 3:
                u = u[2]
            d = self.base.get(u) if isinstance(u, tuple) else None
            if isinstance(d, dict):
                return GC(d.get(whole(self.ev(t[2], env)), 0))
        if isinstance(t, tuple) and t and (t[0] == "call" or t in self.base):
            return self.ev(t, env)
        raise Unmodelled("val")


F = Fraction
PAIRS = [[[F(1, 2), F(1, 2)], [F(1, 4), F(3, 4)]], [[F(1)], [F(1)]], [[F(1), F(0), F(0)], [F(0), F(1, 3), F(2, 3)]],
         [[F(1, 5), F(2, 5), F(2, 5)], [F(2, 5), F(1, 5), F(2, 5)]], [[F(1, 2), F(1, 10)], [F(1, 2), F(1, 2)]],
         [[F(1, 2), F(1, 2)], [F(1, 3), F(1, 7)]], [[F(0), F(0)], [F(1, 2), F(1, 4)]]]
BOUND = [[4, 100, F(1, 100)], [1, 7, F(1, 2)], [30, 1, F(3, 4)], [100, 12345, F(1, 10 ** 6)]]
NUMBER = [[4, F(1, 100), F(1, 10)], [1, F(1, 2), F(1, 3)], [30, F(3, 4), F(1, 50)], [100, F(1, 10 ** 6), F(1, 7)]]
DICTS = [[{0: F(1, 2), 1: F(1, 2)}, {2: F(1, 4), 3: F(3, 4)}], [{0: F(1)}, {1: F(1, 3), 2: F(2, 3)}], [{0: F(1, 4), 5: F(3, 4)}, {7: F(1)}],
         [{0: F(1, 2), 1: F(1, 2)}, {1: F(1, 4), 3: F(3, 4)}], [{0: F(1, 3), 1: F(2, 3)}, {0: F(2, 3), 1: F(1, 7)}], [{0: F(1)}, {0: F(1, 2)}]]


def t_c21_lists(prog, rep):
    run_number(prog, rep, "count_total_variation_distance", "half the sum of absolute differences", PAIRS,
               lambda a, b: sum(abs(x - y) for x, y in zip(a, b)) / 2)


def t_c21_dicts(prog, rep):
    run_number(prog, rep, "count_total_variation_distance_dicts", "half the sum of absolute differences", DICTS,
               lambda a, b: sum(abs(a.get(k, 0) - b.get(k, 0)) for k in set(a) | set(b)) / 2)


def t_c21_bound(prog, rep):
    run_number(prog, rep, "count_tv_distance_error_bound_of_experiment_results", "error bound", BOUND,
               lambda n, k, p: math.sqrt((n * math.log(2) - math.log(p)) / (2 * k)))


def t_c21_number(prog, rep):
    run_number(prog, rep, "compute_minimal_number_of_samples_for_desired_accuracy", "enough samples for the accuracy", NUMBER,
               lambda n, p, d: int((n * math.log(2) - math.log(p)) / (2 * d * d)) + 1)


def c21(prog, tier):
    return [("t_c21_lists", ()), ("t_c21_dicts", ()), ("t_c21_bound", ()), ("t_c21_number", ())]


TASKS["C21"] = c21
