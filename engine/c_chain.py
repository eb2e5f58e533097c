"""C19: every particle of the exact strategies is drawn from its conditional distribution (chain rule)."""
import itertools
import math

from .c_matrix import each, judged
from .common import *
from .ground import *

RULES["C19"] = (
    "The weights with which an output mode is selected for the next particle are derived in closed form from the source "
    "(sums and products over loop indices; permanents as functions of matrix, input and output state), for every "
    "selection of every exact strategy whose weights contain permanents: arguments of the library's weighted choice, or "
    "the cumulative sums a random number is compared with. They are compared by identity testing in exact arithmetic "
    "with the chain rule of the boson-sampling law: |Perm(U; s, r + e_m)|^2 for the current partial input s, or its "
    "average over all partial inputs with their multiplicities. The selected mode is the one added to the partial "
    "output of those weights, and the next input particle is drawn uniformly from all particles that are left.")


def permanent(u, inp, out):
    rows = [i for i, n in enumerate(out) for _ in range(n)]
    cols = [i for i, n in enumerate(inp) for _ in range(n)]
    if len(rows) != len(cols):
        raise Unmodelled("unequal particle numbers")
    r = GC(0)
    for p in itertools.permutations(cols):
        t = GC(1)
        for a, b in zip(rows, p):
            t = t * u[a][b]
        r = r + t
    return r


def plus(s, i, d=1):
    return [x + (d if j == i else 0) for j, x in enumerate(s)]


class Chain(Ground):
    """Permanents by definition."""

    def num(self, p, env):
        p = P(p)
        if not any(a[0] == "abs" for mo in p.t for a, e in mo):
            return Ground.num(self, p, env)
        r = GC(0)
        for mo, c in p.t.items():
            v = GC(c)
            rest = []
            for a, e in mo:
                if a[0] == "abs" and not isinstance(e, Poly) and Fraction(e) % 2 == 0:
                    v = v * self.pw(GC(self.num(a[1], env).norm2()), Fraction(e) / 2)
                else:
                    rest.append((a, e))
            for a, e in rest:
                ex = self.num(e, env).real() if isinstance(e, Poly) else Fraction(e)
                b = self.ev(a, env)
                if not is_num(b):
                    raise Unmodelled("number expected")
                v = v * self.pw(gc(b), ex)
            r = r + v
        return r

    def occ(self, x, env):
        s = [whole(v) for v in self.seq(x, env)]
        if any(v < 0 or v > 6 for v in s):
            raise Skip
        return s

    def args(self, x, env):
        if len(x) < 4:
            raise Unmodelled("permanent")
        u = self.mat(x[1], env)
        a, b = self.occ(x[2], env), self.occ(x[3], env)
        if len(a) != len(u) or len(b) != len(u):
            raise Unmodelled("permanent of other modes")
        return u, a, b

    def t_permanent(self, x, env):
        u, a, b = self.args(x, env)
        k = (tuple(a), tuple(b))
        if k not in self.memo:
            self.memo[k] = permanent(u, a, b)
        return self.memo[k]

    t_perm0 = t_permanent

    def t_permanents(self, x, env):
        u, a, b = self.args(x, env)
        out = []
        for i in range(len(a)):
            k = (tuple(plus(a, i, -1)), tuple(b))
            if a[i] and k not in self.memo:
                self.memo[k] = permanent(u, k[0], b)
            out.append(self.memo[k] if a[i] else GC(0))
        return out

    def t_abs(self, x, env):
        v = self.num(x[1], env).norm2()
        return GC(Fraction(math.isqrt(v.numerator * v.denominator * 10 ** 60), v.denominator * 10 ** 30))

    def t_abs2(self, x, env):
        return GC(self.num(x[1], env).norm2())

    def t_dictv(self, x, env):
        """The partial inputs with a given number of particles."""
        if x != self.subs:
            raise Unmodelled("dictionary")
        n = whole(self.ev(x[2], env))
        if n != self.k + 1:
            raise Unmodelled("label of partial inputs")
        return [[GC(v) for v in s] for s in substates(self.input, n)]


def substates(inp, n):
    return [s for s in itertools.product(*[range(v + 1) for v in inp]) if sum(s) == n]


UNKNOWN = ("lv", "phi", "dictv", "upd", "havoc")


def collect(t, pred, out, stop=True):
    """Outermost (or all) terms inside t that satisfy the predicate."""
    if isinstance(t, Poly):
        for mo in t.t:
            for a, e in mo:
                collect(a, pred, out, stop)
                if isinstance(e, Poly):
                    collect(e, pred, out, stop)
        return out
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            if t not in out:
                out.append(t)
            if stop:
                return out
        for x in t:
            collect(x, pred, out, stop)
    return out


def perms(t):
    return collect(t, lambda a: a[0] in ("permanent", "permanents"), [], False)


MATRICES = [[[(1, 2), (-2, 1), (3, 0)], [(0, 1), (2, -1), (1, 1)], [(2, 0), (1, 3), (-1, 1)]],
            [[(2, 1), (1, -1), (0, 2)], [(1, 0), (-1, 2), (2, 2)], [(3, -1), (1, 1), (1, 0)]]]
INPUTS = [[1, 1], [2, 1], [0, 3], [1, 1, 1], [2, 0, 1], [1, 2, 0], [0, 2, 2]]


def interpretations(tier):
    for n, inp in enumerate(INPUTS):
        m = len(inp)
        for q in range(2 if tier == "thorough" else 1):
            u = [[GC(*MATRICES[(n + q) % 2][i][j]) for j in range(m)] for i in range(m)]
            for k in range(sum(inp)):
                rs = [s for s in itertools.product(range(k + 1), repeat=m) if sum(s) == k]
                for r in rs if tier == "thorough" else rs[(n + k) % 3::3]:
                    yield inp, u, k, r


def shape(I, t, inputs):
    """What the permanents in the weights are taken of: ('step', X, Y) for one partial input, ('mean', R, L) for all."""
    ps = perms(t)
    mats = {p[1] for p in ps}
    if len(mats) != 1:
        return None
    kinds = {p[0] for p in ps}
    if kinds == {"permanents"}:
        if len({p[2:] for p in ps}) != 1:
            return None
        return "step", mats.pop(), ps[0][2], ps[0][3], []
    if kinds != {"permanent"}:
        return None
    outs, ins = [], []
    for p in ps:
        collect(p[3], lambda a: a[0] in ("lv", "phi", "dictv") and a != inputs, outs)
        collect(p[2], lambda a: a[0] in ("lv", "phi", "dictv"), ins)
    if len(ins) != 1 or not outs or not one_state(I, outs):
        return None
    if ins[0][0] == "dictv" and len(ins[0]) == 3:
        return "mean", mats.pop(), ins[0], outs[0], outs[1:]
    if ins[0] in outs:
        return None
    # the input of the permanents is one partial input
    return "step", mats.pop(), ps[0][2] if len({p[2] for p in ps}) == 1 else ins[0], outs[0], outs[1:]


def one_state(I, outs):
    """The same list (the particles selected so far), made anew by the same loop for every mode."""
    if len(outs) == 1:
        return True
    if any(o[0] != "lv" or o[1][0][1] != outs[0][1][0][1] or o[1][1] != outs[0][1][1] or o[2:] != outs[0][2:] for o in outs):
        return False
    n = seq_sum(outs[0])
    return n is not None and isinstance(as_term(n), tuple) and as_term(n)[0] in ("it", "bcount") and all(seq_sum(o) == n for o in outs)


def conditional(kind, u, inp, s, r, m):
    if kind == "step":
        return permanent(u, s, plus(r, m)).norm2()
    t = Fraction(0)
    for c in substates(inp, sum(r) + 1):
        w = Fraction(1)
        for a, b in zip(inp, c):
            w *= Fraction(math.comb(a, b), math.factorial(b))
        t += w * permanent(u, c, plus(r, m)).norm2()
    return t


def bases(I, sh, inputs, inp, u, k, r):
    kind, mt, X, Y, more = sh
    n = seq_sum(Y)
    n = as_term(n) if n is not None else None
    for s in (substates(inp, k + 1) if kind == "step" else [None]):
        g = Chain(I, {mt: u, inputs: [GC(v) for v in inp]})
        g.memo = {}
        g.k, g.input, g.subs = k, inp, None
        for y in [Y] + more:
            g.base[y] = [GC(v) for v in r]
        if isinstance(n, tuple) and n[0] in ("bcount", "it", "T"):
            g.base[n] = GC(k)
        if kind == "step":
            g.base[X] = [GC(v) for v in s]
        else:
            g.subs = X
        yield s, g


def test(I, e, sh, inputs, w, values, off, news, ctx):
    """Are the weights of the positions the conditional distribution of the modes they stand for?  Shifts of the position
    that do not fit are dropped from off."""
    inp, u, k, r = w
    hit = None
    for s, g in bases(I, sh, inputs, inp, u, k, r):
        env = {a: GC(k) for a in e.ctx}
        if not consistent(g, e.facts):
            continue
        want = [conditional(sh[0], u, inp, s, r, m) for m in range(len(inp))]
        if not sum(want):
            continue
        want = [x / sum(want) for x in want]
        why = None
        for d in sorted(off):
            try:
                got = [gc(x).real() for x in values(g, env, len(inp), d)]
            except (Skip, Unmodelled, ZeroDivisionError):
                if d and 0 in off:
                    off.pop(d)
                    continue
                raise
            modes = positions(g, news, {a: GC(k) for a in ctx}, d, r)
            if isinstance(modes, str):
                return False, modes
            order = modes if modes is not None and sorted(modes) == list(range(len(inp))) else None
            total = sum(got)
            got = [x / total for x in got] if total else got
            if matches(got, [want[m] for m in order or range(len(inp))]):
                off[d] = off[d] and order is not None
                continue
            if order is None and total and matches(sorted(got), sorted(want)):
                raise Unmodelled("order of the modes")
            off.pop(d)
            if why is None:
                why = "input %s%s, partial output %s: the next mode is chosen with probabilities %s instead of %s" % (
                    list(inp), "" if s is None else " of which %s entered" % list(s), list(r),
                    list(map(str, got)), [str(want[m]) for m in order or range(len(inp))])
        if not off:
            return False, why or "no position fits"
        hit = True
    return hit


def matches(got, want):
    return len(got) == len(want) and all(abs(x - y) <= Fraction(1, 10 ** 15) for x, y in zip(got, want))


def positions(g, news, env, d, r):
    """The modes that receive the particle at the positions of the selection; None: not known, text: something else."""
    res = None
    for new, atom in news:
        modes = []
        for m in range(len(r)):
            try:
                v = [whole(x) for x in g.seq(new, {**env, atom: GC(m + d)})]
            except (Skip, Unmodelled, Clash, ZeroDivisionError, TypeError):
                modes = None
                break
            diff = [b - a for a, b in zip(r, v)]
            if len(v) != len(r):
                modes = None
                break
            if sorted(diff) != [0] * (len(r) - 1) + [1]:
                return "partial output %s becomes %s" % (list(r), v)
            modes.append(diff.index(1))
        if modes is None:
            continue
        if res is not None and res != modes:
            return None
        res = modes
    return res


def t_c19(prog, rep, cname, tier):
    from . import contracts as ct
    r = Run(prog, cname, "simulate", vocab=ct.build(prog))
    I = r.I
    rep.engine(I)
    inputs = I.term(r.S.st, r.kw["input_state"])
    seen = False
    for e in r.events:
        if e.flags:
            continue
        off = {0: True}
        pick = None
        if e.kind == "select":
            w = e.data.get("weights")
            if w is None or not all(isinstance(x.v, (Num, Cst)) for x in w.segs):
                continue
            t = ("seq",) + tuple((x.n, I.to_poly(None, x.v), x.ix) for x in w.segs)
            values = lambda g, env, m, d, t=t: g.seq(t, env)
            pick = lambda a, x=e.data.get("atom"): a == x
            ctx = e.ctx
        elif e.kind == "rngcmp":
            if e.cond[0] not in ("lt", "le"):
                continue
            t = P(e.cond[1])
            rngs = collect(t, lambda a: a[0] == "rng", [])
            if len(rngs) != 1 or not e.ctx or not mentions(t, lambda a: a == e.ctx[-1]):
                continue
            values = cumulative(t, rngs[0], e.ctx[-1])
            pick = lambda a, L=e.ctx[-1][1]: a[0] in ("brk", "T", "it") and L in a[1:]
            ctx = e.ctx[:-1]
            off[1] = True
        else:
            continue
        if not perms(t):
            continue
        seen = True
        one_selection(rep, r, I, e, t, inputs, tier, off, values, pick, ctx)
    if not seen and any(k.name in EXACT for k in prog.classes[cname].mro()):
        rep.dunno(RULE, r.where, "no selection with modelled weights", r.loc)


RULE = "conditional distribution of the next particle"
ADD = "the selected mode receives the particle"
DRAW = "the next input particle is any of those left"
EXACT = ("GeneralizedCliffordsSimulationStrategy",)


def one_selection(rep, r, I, e, t, inputs, tier, off, values, pick, ctx):
    where = e.stack[-1] if e.stack else r.where
    loc = str(e.where).split(" ")[0] if e.where else r.loc
    sh = shape(I, t, inputs)
    if sh is None:
        rep.dunno(RULE, where, "weights not modelled", loc)
        return
    news = taken(r, I, sh, pick, ctx)
    tmp = Report()
    judged(tmp, RULE, where, loc, each(lambda w: test(I, e, sh, inputs, w, values, off, news, ctx), interpretations(tier)))
    if tmp.obs[0].verdict != "holds":
        rep.merge(tmp)
        return
    known = any(off.values())
    if known or 0 in off:
        rep.holds(RULE, where, "", loc)
    else:
        rep.dunno(RULE, where, "position of the selected mode not modelled", loc)
    rep.decide(ADD, where, True if known else None, "", loc)
    if sh[0] == "step":
        d = drawn(r, I, e, sh, ctx, inputs)
        rep.decide(DRAW, where, d is True if d is not None else None, d if isinstance(d, str) else "", loc)


def cumulative(t, rng, it):
    def values(g, env, m, d):
        def at(i, x):
            return g.num(t, {**env, it: GC(i + d), rng: GC(x)})
        base = [at(i, 0) for i in range(m)]
        step = at(0, 1) - base[0]
        if step == 0 or at(0, 2) - base[0] != step + step or at(m - 1, 1) - base[-1] != step:
            raise Unmodelled("comparison")
        out = [(GC(0) - a) / step for a in base]
        return [x - (out[i - 1] if i else GC(0)) for i, x in enumerate(out)]
    return values


def taken(r, I, sh, pick, ctx):
    """[(partial output after the selection, selected position)]"""
    Y = sh[3]
    out = []
    for w in r.events:
        if w.flags or w.ctx != ctx:
            continue
        if w.kind == "store" and w.target == Y:
            new = ("updv", Y, w.key, w.value)
        elif w.kind == "write" and isinstance(w.value, FSeq):
            new = I.term(None, w.value)
        else:
            continue
        if not collect(new, lambda a: a == Y, []):
            continue
        atoms = collect(new, pick, [])
        if len(atoms) == 1 and (new, atoms[0]) not in out:
            out.append((new, atoms[0]))
    return out


def drawn(r, I, e, sh, ctx, inputs):
    """True | description | None: which input particle joins the partial input."""
    X = sh[2]
    qs = [a for a in collect(X, lambda a: a[0] in ("rngi", "rng"), [], False)]
    qs = [a for a in qs if a[0] == "rng" or a[3] == ctx]
    others = [w for w in r.events if w.kind in ("draw", "sampling", "icall", "opaque_call") and w.data.get("atom") != e.data.get("atom")
              and w.data.get("fname")]
    if not qs:
        if collect(X, lambda a: a[0] in ("perm", "rng", "rngi", "shuffled", "havoc", "call", "phi"), []) or others:
            return None
        return "the particles enter in a fixed order" if e.data.get("atom") is not None else None
    if len(qs) != 1 or qs[0][0] != "rngi":
        return None
    q = qs[0]
    items = [a for a in collect(X, lambda a: a[0] == "item" and q in collect(P(a[2]), lambda b: b == q or b[0] == "item", []), [], False)]
    if len({(a[1], P(a[2])) for a in items}) != 1:
        return None
    S, at = items[0][1], P(items[0][2])
    n = seq_len(S)
    if n is None:
        return None
    full = None
    for inp in INPUTS:
        for k in range(sum(inp)):
            g = Chain(I, {inputs: [GC(v) for v in inp], **{a: GC(k) for a in ctx}})
            try:
                lo, hi, m = g.int(q[5], {}), g.int(q[6], {}), g.int(n, {})
                got = sorted(g.int(at, {q: GC(v)}) % m for v in range(lo, hi + 1))
            except (Skip, Unmodelled, Clash, ZeroDivisionError):
                return None
            if m != sum(inp) - k:
                return "particle %d of %d is drawn from %d" % (k + 1, sum(inp), m)
            if not got or len({got.count(x) for x in range(m)}) != 1:
                return "drawn from positions %s of the %d particles that are left" % (got, m)
            full = True
    pops = [w for w in r.events if w.kind == "popped" and w.target == S and w.ctx == ctx and not w.flags]
    if any(w.key != at for w in pops):
        return "particle %s is drawn but particle %s is taken away" % (short(at), short(next(w.key for w in pops if w.key != at)))
    return True if full and pops else None


def c19(prog, tier):
    return [("t_c19", (c, tier)) for c in strategies(prog)]


TASKS["C19"] = c19
