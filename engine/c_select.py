"""C11: a random selection always yields one of the offered candidates."""
from .c_samples import LOSSLESS
from .law import *

RULES["C11"] = (
    "For every strategy the analysis finds the search functions: those in which a random draw is compared with "
    "(accumulated) weights, and their callers. Which iteration the comparison succeeds in, or whether it ever does, is "
    "left open (so that every draw in [0, 1) and every rounding of the weights is covered): the search counter is "
    "only bounded by the other conditions on the path. Obligations: every index used in a search function lies within "
    "the sequence it is applied to; no search function returns a value on one path and nothing on another; next() is "
    "not called without a default on candidates filtered by the draw; the particle numbers of the resulting samples "
    "stay within those of the input; explicit probabilities handed to a weighted draw add up to one.")


def searchers(r):
    """Functions with a comparison of a draw, and the functions that call them."""
    own, callers = set(), set()
    for e in r.events:
        if e.kind in ("rngcmp", "search", "next") and e.stack:
            own.add(e.stack[-1])
            if len(e.stack) > 1:
                callers.add(e.stack[-2])
    return own, own | callers


def is_draw(a):
    return a[0] in ("rng", "rngi")


def randomly(p, r):
    """The quantity depends on a draw (the identity of a loop does not count)."""
    if isinstance(p, Poly):
        return any(randomly(a, r) for a in p.atoms())
    if isinstance(p, tuple) and p:
        if p[0] in ("it", "brk", "T"):
            return False
        if is_draw(p):
            return True
        return any(randomly(x, r) for x in p if isinstance(x, (tuple, Poly)))
    return False


def counters(p):
    """Counters of searches whose number of iterations is not bounded by a sequence."""
    return [a for a in P(p).atoms() if a[0] == "T" or a[0] in ("it", "brk") and a[2] is None and a not in BOUNDS]


def open_facts(facts, r):
    """Path facts without the outcome of comparisons with draws. A counter that moves by one and has not met a value
    yet is below it."""
    out = []
    for c, v in facts:
        if c[0] in ("lt", "eq", "le") and any(a[0] == "rng" for a in P(c[1]).atoms()):
            continue
        if c[0] == "eq" and not v:
            cs = counters(c[1])
            if len(cs) == 1:
                k = P(c[1]).t.get(((cs[0], 1),))
                if k and not mentions(P(c[1]) - A(cs[0]) * k, lambda z: z == cs[0]):
                    out.append((("lt", P(c[1]) * (1 / Fraction(k))), True))
                    continue
        out.append((c, v))
    return out


def within(I, idx, n, facts, exp):
    """True / False / None: -n <= idx < n."""
    worst = True
    for q, l in joint_alternatives((idx, n)):
        ex = [v for c, x in facts for v in bounds_of_fact(c, x)]
        if I.lb_nonneg(l - 1 - q, ex) and (I.lb_nonneg(q, ex) or I.lb_nonneg(q + l, ex)):
            continue
        if imprecise(q) or imprecise(l) or rough(q) or rough(l) or rough_facts(facts, q, l):
            worst = None
            continue
        exp.see(q).see(l)
        v = range_test(q, l, facts, exp)
        if v is False:
            return False
        if v is None:
            worst = None
    return worst


def rough(p):
    """Values read from dictionaries or unknown calls."""
    return mentions(p, lambda a: a[0] in ("dictv", "call", "havoc", "opaque", "anyix", "hist"))


def rough_facts(facts, q, l):
    """A fact that is not arithmetic, or not precise, constrains the same quantities."""
    own = set(P(q).atoms()) | set(P(l).atoms())
    own = {a for a in own if a[0] not in ("param", "len", "sum", "attr")}
    for c, v in facts:
        for p in c[1:]:
            if isinstance(p, (Poly, tuple)) and any(a in own for a in walk(p if isinstance(p, tuple) else P(p))):
                if c[0] not in ("lt", "eq", "le") or imprecise(c[1]) or rough(c[1]):
                    return True
    return False


class Wide(Model):
    """Interpretations in which open counters run past short sequences."""

    def atom(self, a, env):
        if a[0] == "T" and a not in env and a not in self.over:
            return Fraction(self.h(self.key_atom(a, env), 6))
        return Model.atom(self, a, env)


def range_test(q, n, facts, exp, tries=2500, want=60):
    got = 0
    for s in range(tries):
        m = Wide(s, exp.over(s))
        try:
            if facts and not facts_hold(facts, m):
                continue
            x, l = m.val(q), m.val(n)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        if l < 0:
            continue
        got += 1
        if x >= l or x < -l:
            return False
        if got >= want:
            return True
    return True if got >= 3 else None


def t_c11(prog, rep, cname):
    r = Run(prog, cname, "simulate", index=True)
    I = r.I
    rep.engine(I)
    own, F = searchers(r)
    seen = {}
    for e in r.events:
        if not e.stack or e.stack[-1] not in F:
            continue
        if e.kind in ("index", "oob"):
            exp = Exp(e.index, e.length)
            fs = open_facts(exp.facts(e.facts), r)
            key = (e.where, P(e.index), P(e.length), tuple(sorted(map(str, fs))))
            if key in seen:
                continue
            seen[key] = 1
            if e.flags:
                v = None
            else:
                v = within(I, P(e.index), P(e.length), fs, exp)
            rep.decide("index of a candidate", e.stack[-1], v,
                       "%s uses index %s of a sequence of length %s" % (r.where, short(e.index), short(e.length)), e.where)
        elif e.kind == "next" and randomly(P(e.n), r) or e.kind == "next" and drawn(I, e.n):
            rep.bad("something is selected", e.stack[-1],
                    "%s takes the first candidate that meets the draw, and fails if none does" % r.where, e.where)
    yields(rep, r, own)
    if own:
        particles(rep, r, cname)
    for e in r.events:
        if e.kind == "select" and e.weights is not None and "numpy" in e.fname:
            weights_total(rep, r, e)
    if not own and not [e for e in r.events if e.kind in ("select", "sampling", "binomial")]:
        rep.holds("no selection by weights", r.where, "")


def drawn(I, n):
    """The number of iterations counted depends on a draw."""
    for a in walk(P(n)):
        if a and a[0] == "bcount":
            fs = I.bcfacts.get((a[1][1], a[2]))
            if fs is None:
                continue
            for c in walk_facts(fs[1]):
                if any(is_draw(z) for p in c[1:] if isinstance(p, (Poly, tuple)) for z in walk(p if isinstance(p, tuple) else P(p))
                       if z and isinstance(z[0], str)):
                    return True
    return False


def walk_facts(fs):
    for f in fs:
        if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], bool):
            yield f[0]
        elif isinstance(f, (tuple, list, set, frozenset)):
            yield from walk_facts(f)


def yields(rep, r, own):
    rets = {}
    for e in r.events:
        if e.kind == "return" and e.callee.qual in own:
            rets.setdefault(e.callee.qual, []).append(e)
    for q, es in sorted(rets.items()):
        none = [e for e in es if nothing(e.value) is True]
        some = [e for e in es if nothing(e.value) is not True]
        mixed = [e for e in es if nothing(e.value) == "mixed"]
        bad = (mixed or none) if (mixed or none and some) else []
        if bad and (any(e.flags for e in bad) or any(copes(r.I.prog, s, q) for e in bad for s in e.stack)):
            rep.dunno("something is selected", q, "", bad[0].where)
            continue
        rep.decide("something is selected", q, not bad, "%s: the search in %s ends without a value on some path (%s)" %
                   (r.where, q, fpath(bad[0]) if bad else ""), (bad or es)[0].where)


def copes(prog, caller, q):
    """The calling function tests a result of the search before it is used."""
    name = q.split(".")[-1]
    if caller == q:
        return False
    return any(tests_result(n, name) for m, n in prog.functions() if n.name == caller.split(".")[-1])


def tests_result(fnode, name):
    held = set()
    for n in ast.walk(fnode):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and any(
                isinstance(c, ast.Call) and getattr(c.func, "attr", getattr(c.func, "id", None)) == name
                for c in ast.walk(n.value)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                held |= {ast.dump(x).replace("Store()", "Load()") for x in ast.walk(t) if isinstance(x, (ast.Name, ast.Attribute))}
    for n in ast.walk(fnode):
        tests = []
        if isinstance(n, ast.Compare) and any(isinstance(c, ast.Constant) and c.value is None for c in n.comparators):
            tests = [n.left]
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            tests = [n.test]
        elif isinstance(n, ast.BoolOp):
            tests = n.values
        elif isinstance(n, ast.Try):
            return True
        if any(ast.dump(x) in held for t in tests for x in ast.walk(t)):
            return True
    return False


def fpath(e):
    class X:
        facts = e.facts
    return path(X, 3)


def nothing(v):
    if isinstance(v, Cst):
        return v.v is None
    if isinstance(v, Alt):
        k = {nothing(x) for x in v.vs}
        return k.pop() if len(k) == 1 else "mixed"
    return False


def particles(rep, r, cname):
    """The samples never hold more particles than the selection could hand out."""
    I = r.I
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None or unreliable(x):
            rep.dunno("no particles added", r.where, "returned value not modelled", r.loc)
            continue
        exp = Exp()
        fs = exp.facts(x)
        wi = I.view(x, r.kw["input_state"])
        exp.see(I.vlen(wi))
        if not feasible(fs, exp):
            continue
        want = I.vsum(wi)
        if cname == "FixedLossSimulationStrategy":
            want = pmax(A(("param", "ctor.number_of_photons_left", "int")), 0)
        for g in w.segs:
            if g.n.const() == 0:
                continue
            for el, more in guarded(g.v):
                ew = I.view(x, el)
                s = I.vsum(ew) if ew is not None else None
                d = try_facts(lambda f: at_most(I, s, want, f, exp), fs, more) if s is not None else None
                rep.decide("no particles added", r.where, d,
                           "samples can have more particles (%s) than %s" % (short(upper(s)) if s is not None else "?", short(want)), r.loc)


def weights_total(rep, r, e):
    I = r.I
    s = I.vsum(e.weights) if hasattr(e.weights, "segs") else None
    if s is None:
        rep.dunno("probabilities add up to one", e.stack[-1], "", e.where)
        return
    exp = Exp(s)
    fs = exp.facts(e.facts)
    rep.decide("probabilities add up to one", e.stack[-1], same_all(s, P(1), fs, exp),
               "%s: the probabilities add up to %s" % (r.where, short(s)), e.where)


def t_c11_fn(prog, rep, mod, name):
    r = FnRun(prog, mod, name, index=True)
    rep.engine(r.I)
    own, F = searchers(r)
    if r.fn.qual not in F and not [e for e in r.events if e.kind == "draw"]:
        rep.holds("no selection by weights", r.where, "")
        return
    for e in r.events:
        if e.kind in ("index", "oob") and e.stack:
            exp = Exp(e.index, e.length)
            fs = open_facts(exp.facts(e.facts), r)
            if not mentions(P(e.index), lambda a: a[0] in ("rngi", "it", "brk", "T", "ssorted", "anyit")):
                continue
            v = within(r.I, P(e.index), P(e.length), fs, exp) if not e.flags else None
            rep.decide("index of a candidate", e.stack[-1], v,
                       "%s uses index %s of a sequence of length %s" % (r.where, short(e.index), short(e.length)), e.where)
    yields(rep, r, own)


def c11(prog, tier):
    fns = [f for f in module_functions(prog) if "simulation" in f.mod.name or "strateg" in f.mod.name]
    return [("t_c11", (c,)) for c in strategies(prog)] + [("t_c11_fn", (f.mod.name, f.name)) for f in fns]


TASKS["C11"] = c11
