"""C13: lossy networks in the doubled space.  C14: what the approximation acts on."""
from .common import *


# ---------------------------------------------------------------------------------------- vectors under a model

class VModel(Model):
    """Interpretation in which joined alternatives and lossy states have values: mode 'up' takes the largest value of
    every draw, 'low' the smallest alternative, 'any' arbitrary draws."""

    def __init__(self, seed, over=None, mode="any"):
        Model.__init__(self, seed, over)
        self.mode = mode

    def atom(self, a, env):
        if a not in env and a not in self.over:
            if a[0] == "alt":
                vs = [self.val(x, env) for x in a[1:]]
                return max(vs) if self.mode == "up" else min(vs)
            if self.mode == "up" and a[0] in ("rngi", "brk", "it", "anyit", "anyix"):
                lo, hi = atom_bounds(a)
                if hi is not None:
                    return self.val(hi, env)
        return Model.atom(self, a, env)

    def item(self, s, i, env, ty="int"):
        if isinstance(s, tuple) and s and s[0] == "alt":
            vs = [self.item(x, i, env, ty) for x in s[1:]]
            return max(vs) if self.mode == "up" else min(vs)
        if isinstance(s, tuple) and s and s[0] == "lv" and isinstance(s[1], tuple) and s[1] and s[1][0] == "lossy":
            top = self.item(s[1][1], i, env, ty)
            if self.mode == "up":
                return top
            return Fraction(self.h("lossy" + self.key(s, env) + "@" + str(i), int(top) + 1))
        return Model.item(self, s, i, env, ty)


def seg_value(I, st, v, m, env):
    if isinstance(v, Alt):
        vs = [seg_value(I, st, x, m, env) for x in v.vs]
        return max(vs) if m.mode == "up" else min(vs)
    return m.val(I.to_poly(st, v), env)


def vector(I, st, w, m, limit=12):
    """Values of a view under a model."""
    out = []
    for g in w.segs:
        n = m.val(g.n)
        if n.denominator != 1 or n > limit:
            raise Skip
        for i in range(max(0, int(n))):
            out.append(seg_value(I, st, g.v, m, {g.ix: Fraction(i)}))
    return out


def term_vector(I, st, t, m, ty="int"):
    w = I.view(st, Unk(t, ("seq", ty)))
    return vector(I, st, w, m)


def arith(facts):
    return [(c, v) for c, v in facts.items() if c[0] in ("lt", "eq", "le")]


def models(facts, exp, tries=600, want=24, mode="any"):
    got = 0
    for s in range(tries):
        m = VModel(s, exp.over(s), mode)
        try:
            if not facts_hold([(c, v) for c, v in facts if not mentions(c[1], lambda a: a[0] in ("rng", "rngi", "lv", "alt"))], m):
                continue
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        yield s, m
        got += 1
        if got >= want:
            return


# ---------------------------------------------------------------------------------------- C13

RULES["C13"] = (
    "Matrices are followed as terms: expand(M) stands for the 2m-mode expansion of M. For the lossy-network sampling "
    "strategy (as constructed, after one and after two calls of set_new_matrix) every request it makes of its helper "
    "must use the matrix term expand(current matrix), expanded once, and an input of 2m entries: the given state "
    "followed by zeros; the returned samples must be entries 0..m-1 of the helper's samples. For the lossy network "
    "evolving states the result must be entries 0..m-1 of expand(matrix) @ (state, zeros). No call in the package may "
    "expand a matrix that already is an expansion.")


def judge_matrix(rep, rule, where, loc, got, want):
    if got is None or imprecise_term(got) or mentions(got, lambda a: a[0] in ("havoc",)):
        rep.dunno(rule, where, "matrix not modelled", loc)
        return
    if got == ("expand", want):
        rep.holds(rule, where, short(got), loc)
        return
    d = same_matrix(got, ("expand", want))
    rep.decide(rule, where, d, "uses the matrix %s instead of %s" % (short(got), short(("expand", want))), loc)


def same_matrix(a, b):
    """Definitely different only when both are built from known pieces."""
    known = ("expand", "param", "attr", "svd_u", "svd_v", "svd_s", "matmul", "Tr", "diag", "phases", "qft")
    def ok(t):
        return isinstance(t, tuple) and t and t[0] in known
    if a == b:
        return True
    if not ok(a):
        return None
    if a[0] != "expand":
        return False
    if a[0] == "expand" and isinstance(a[1], tuple) and a[1] and a[1][0] in ("expand", "param", "attr"):
        return False
    return None


def judge_input(rep, I, st, where, loc, w, inp, fs, exp):
    """Entries 0..m-1 are the given input, entries m..2m-1 are zero."""
    if w is None:
        rep.dunno("input in the first half of the doubled space", where, "", loc)
        return
    n = 0
    for s, m in models(fs, exp):
        try:
            a = vector(I, st, w, m)
            b = vector(I, st, inp, m)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        n += 1
        if a != b + [0] * len(b):
            rough = any(imprecise_term(P(g.n)) or mentions(I.term(st, g.v), lambda z: z[0] in ("alt", "havoc")) for g in w.segs)
            if rough:
                rep.dunno("input in the first half of the doubled space", where, "", loc)
            else:
                rep.bad("input in the first half of the doubled space", where,
                        "input %s becomes %s" % ([str(x) for x in b], [str(x) for x in a]), loc)
            return
    if n:
        rep.holds("input in the first half of the doubled space", where, "", loc)
    else:
        rep.dunno("input in the first half of the doubled space", where, "", loc)


def judge_window(rep, I, st, where, loc, w, src, inp, fs, exp, rule):
    """The result is entries 0..m-1 of the source vector."""
    n = 0
    for s, m in models(fs, exp):
        try:
            a = vector(I, st, w, m)
            k = len(vector(I, st, inp, m))
            b = [m.item(src, Fraction(i), {}, "num") if src[0] != "lv" else m.item(src, Fraction(i), {}) for i in range(k)]
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        n += 1
        if a != b:
            if len(a) != len(b) and any(imprecise(g.n) for g in w.segs):
                rep.dunno(rule, where, "", loc)
            else:
                rep.bad(rule, where, "%d entries of %s are reported for %d modes%s" %
                        (len(a), short(src, 80), k, "" if len(a) != len(b) else ", but not the first ones"), loc)
            return
    rep.decide(rule, where, True if n else None, "", loc)


def t_c13_sampling(prog, rep, cname, setters):
    S = Scenario(prog, contracts.build(prog))
    I = S.I
    cls = S.cls(cname)
    objs, kw = S.new(cls)
    where = "%s.simulate%s" % (cname, ["", " after set_new_matrix", " after two calls of set_new_matrix"][setters])
    for st, ref in objs:
        want = None
        if not setters:
            for n, v in kw.items():
                if isinstance(v, Ref):
                    r = I.get_attr(st.clone(), v, "matrix", cls.node)
                    if len(r) == 1:
                        want = I.term(r[0][0], r[0][1])
                elif "matrix" in n:
                    want = I.term(st, v)
        cur = [st]
        for i in range(setters):
            nxt = []
            for x in cur:
                f = cls.find_method("set_new_matrix")
                if f is None:
                    raise Missing("set_new_matrix")
                mv = Unk(("param", "new%d" % i, "seq"), ("seq", ("seq", "complex")))
                want = mv.t
                nxt += [y for y, _ in I.call_fn(f, [ref, mv], {}, x.clone(), f.node)]
            cur = nxt
        for x in cur:
            I.events = []
            res, k = S.call(x, ref, "simulate")
            evs = [e for e in I.events if e.kind == "sampling"]
            if not evs:
                rep.dunno("expanded once", where, "no sampling request seen")
            for e in evs:
                exp = Exp(I.vlen(I.view(x, k["input_state"])))
                fs = arith(e.facts)
                judge_matrix(rep, "expanded once", where, e.where, e.matrix, want)
                judge_input(rep, I, x, where, e.where, e.view, I.view(x, k["input_state"]), fs, exp)
            for y, v in res:
                w = I.view(y, v)
                if w is None or unreliable(y):
                    rep.dunno("first half is reported", where, "")
                    continue
                exp = Exp(I.vlen(I.view(y, k["input_state"])))
                for g in w.segs:
                    if g.n.const() == 0:
                        continue
                    for el in (g.v.vs if isinstance(g.v, Alt) else [g.v]):
                        ew = I.view(y, el)
                        src = {a for a in walk(I.term(y, el)) if a and a[0] == "lv" and isinstance(a[1], tuple) and a[1] and a[1][0] == "sim"}
                        if ew is None or len(src) != 1:
                            rep.dunno("first half is reported", where, short(I.term(y, el)))
                            continue
                        judge_window(rep, I, y, where, "", ew, src.pop(), I.view(y, k["input_state"]), arith(y.facts), exp,
                                     "first half is reported")
    rep.engine(I)


def t_c13_evolve(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    I = r.I
    mt = I.term(r.results[0][2], r.ckw["matrix"]) if "matrix" in r.ckw and r.results else None
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None or unreliable(x) or mt is None:
            rep.dunno("first half is reported", r.where, "", r.loc)
            continue
        src = {a for a in walk(I.term(x, v)) if a and a[0] == "matmul" and mentions(a, lambda z: z == mt)}
        src = {a for a in src if not any(a is not b and mentions(b, lambda z, a=a: z == a) for b in src)}
        if len(src) != 1:
            rep.dunno("first half is reported", r.where, short(I.term(x, v)), r.loc)
            continue
        src = src.pop()
        if len(src) != 3:
            rep.dunno("expanded once", r.where, short(src), r.loc)
            continue
        judge_matrix(rep, "expanded once", r.where, r.loc, src[1], mt)
        inp = I.view(x, r.kw["input_state"])
        exp = Exp(I.vlen(inp), more=[("len", mt)])
        fs = arith(x.facts)
        judge_input(rep, I, x, r.where, r.loc, I.view(x, Unk(src[2], ("seq", "num"))), inp, fs, exp)
        judge_window(rep, I, x, r.where, r.loc, w, src, inp, fs, exp, "first half is reported")
    rep.engine(I)


def t_c13_once(prog, rep, cname, method):
    r = Run(prog, cname, method, ctor={"network_simulation_strategy": Cst(None)})
    n = 0
    for e in r.ctor_events + r.events:
        if e.kind != "expand":
            continue
        n += 1
        d = not mentions(e.arg, lambda a: a[0] == "expand")
        rep.decide("never expanded twice", r.where, d, "expands %s, which already is an expansion" % short(e.arg), e.where)
    rep.engine(r.I)


def c13(prog, tier):
    out = []
    for c in ("LossyNetworksGeneralizedCliffordsSimulationStrategy",):
        out += [("t_c13_sampling", (c, i)) for i in (0, 1, 2)]
    out.append(("t_c13_evolve", ("LossyNetworkSimulationStrategy",)))
    for c in strategies(prog) + ["LossyNetworkSimulationStrategy"]:
        out.append(("t_c13_once", (c, "simulate")))
    out.append(("t_c13_once", ("SimulationStrategyFactory", "generate_strategy")))
    return out


TASKS["C13"] = c13
