"""C10: uniform losses follow the binomial law."""
from .contracts import calc_matrix
from .law import *

FALSE = Cst(False)

RULES["C10"] = (
    "For every class that applies uniform losses the analysis derives, from the loop summaries and the draws in them, "
    "the exact law of the number of particles kept (of each mode of the state handed to the exact sampler, where the "
    "class delegates), as a function of the input state and of the transmissivity: a draw with explicit weights, the "
    "first crossing of accumulated weights, or a count of iterations that pass a threshold. The law must be the "
    "binomial one with the configured transmissivity in every interpretation (symbolic identity testing in exact "
    "arithmetic). The weights of the lossy inputs are compared the same way, bunched inputs included.")

CLASSES = ("UniformLossSimulationStrategy", "GeneralizedCliffordsUniformLossesSimulationStrategy",
           "GeneralizedCliffordsBUniformLossesSimulationStrategy", "LossyStateApproximationSimulationStrategy",
           "NonuniformLossesApproximationStrategy")

INPUT = ("param", "input_state", "seq")
WANT = 6


def eta_of(r, m, ref, st):
    """Transmissivity the strategy was configured with, in a model."""
    for n, v in r.ckw.items():
        if "transmissivity" in n:
            return m.val(r.I.to_poly(st, v))
    t = calc_matrix(r.I, st, ref, r.fn.node)
    if t is None:
        raise Unmodelled("matrix")
    s = ("svd_s", t)
    return max(m.item(s, Fraction(i), {}, "float") ** 2 for i in range(int(m.length(t, {}))))


def free_draws(m, f):
    """Law of f() for every value of the unweighted draws: [(assignment, {value: probability})]."""
    todo, out = [{}], []
    m.split = True
    while todo:
        fix = todo.pop()
        m.known = dict(fix)

        def g():
            m.known = {**m.known, **fix}
            return f()
        try:
            out.append((fix, law(m, g)))
        except Free as e:
            todo += [{**fix, e.key: v} for v, _ in e.dist]
            if len(todo) + len(out) > 40:
                raise Unmodelled("draws")
    return out


class Free(Exception):
    def __init__(self, key, dist):
        self.key, self.dist = key, dist


class XModel(LawModel):
    split = False

    def draw(self, a, vals, ix, env):
        d = LawModel.draw(self, a, vals, ix, env)
        if self.split and not [e for e in self.sel.get(a[1:3], ())]:
            raise Free(("rngi", a[1], a[2], vals, ix), d)
        return d


def foreign(facts, m):
    """Draws in the facts that played no part in the computed law."""
    for c, b in facts:
        for p in c[1:]:
            if isinstance(p, (Poly, tuple)):
                for a in walk(p):
                    if is_random(a) and (a[0], a[1]) not in m.used:
                        return True
    return False


def show_law(d):
    return "{" + ", ".join("%s: %.4g" % (k if not isinstance(k, tuple) else tuple(int(x) for x in k), float(p))
                           for k, p in sorted(d.items(), key=str)[:6]) + "}"


def expected(ref, eta):
    out = {(): Fraction(1)}
    for n in ref:
        out = {k + (x,): p * q for k, p in out.items() for x, q in binomial(int(n), eta)}
    return {k: p for k, p in out.items() if p != 0}


def t_c10(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    I = r.I
    rep.engine(I)
    for st, ref, x, v in r.results:
        if r.cls.find_method("compute_distribution_up_to_accuracy") is None:
            break       # the table has no use beside the draws, whose law is decided below
        weight_fields(rep, r, st, ref, x, ("sum", INPUT), lambda m: eta_of(r, m, ref, st))
    samp = [e for e in r.events if e.kind == "sampling"]
    if samp:
        delegated(rep, r, samp)
    else:
        totals(rep, r)


def totals(rep, r):
    I = r.I
    todo = []
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None:
            rep.dunno("C10", r.where, "the samples are not modelled")
            continue
        for g in w.segs:
            if g.n.const() == 0:
                continue
            alts = list(zip(g.v.vs, g.v.g or [()] * len(g.v.vs))) if isinstance(g.v, Alt) else [(g.v, ())]
            for el, gd in alts:
                ew = I.view(x, el)
                s = I.vsum(ew) if ew is not None else None
                rnd = s is not None and any(mentions(q, lambda a: a[0] in RANDOM or a[0] in ("anyit", "ssorted"))
                                            for q in alternatives(s))
                todo.append((tuple(sorted((str(c), b) for c, b in x.facts.items())), rnd, (st, ref, x, s, gd)))
    drawn = {k for k, rnd, a in todo if rnd}
    for k, rnd, a in todo:
        if rnd or k not in drawn:
            kept_law(rep, r, *a)
    if not todo:
        rep.dunno("C10", r.where, "no samples on any analysed path")


def kept_law(rep, r, st, ref, x, s, gd):
    what = "%s: law of the number of particles kept (%s)" % (r.where, path(x, 2))
    if s is None or any(mentions(p, lambda a: a[0] == "ssorted") for k in gd for c, b in k for p in c[1:]
                        if isinstance(p, (Poly, tuple))):
        rep.dunno("C10", r.where, what)
        return
    verdict = None
    got = 0
    for q in alternatives(s):
        exp = Exp(q, ("sum", INPUT))
        fs = exp.facts(x)
        for seed in range(400):
            m = XModel(seed, r.I, r.events, exp.over(seed))
            try:
                if not m.holds(fs):
                    continue
                n = m.val(A(("sum", INPUT)))
                if n < 1 or n > 7:
                    continue
                eta = eta_of(r, m, ref, st)
                d = law(m, lambda: m.val(q))
                want = {k: p for k, p in binomial(int(n), eta) if p}
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            except Unmodelled as e:
                rep.dunno("C10", r.where, what + ": " + str(e))
                return
            got += 1
            if d != want:
                if imprecise_but(q) or foreign(list(x.facts.items()) + [c for k in gd for c in k], m) or x.flags:
                    rep.dunno("C10", r.where, what)
                    return
                rep.bad("kept", r.where, "%s with n=%d, transmissivity %.3f has the law %s, not the binomial %s"
                             % (what, n, float(eta), show_law(d), show_law(want)))
                return
            if got >= WANT:
                break
    if got >= 2:
        rep.holds("kept", r.where, what, r.loc)
    else:
        rep.dunno("C10", r.where, what)


def imprecise_but(q):
    return mentions(q, lambda a: a[0] in IMPRECISE and a[0] not in ("bcount", "T", "lv"))


def closed_loss(facts, m, eta):
    """A path taken only when the loss is close to zero."""
    for c, v in facts:
        if c[0] == "isclose" and v:
            try:
                ps = [m.val(P(z)) for z in c[1:] if isinstance(z, Poly) or isinstance(z, tuple) and num_term(z)]
            except (Skip, Unmodelled, Need):
                return None
            tot = ps[0] if len(ps) == 1 else ps[0] - ps[1] if len(ps) == 2 else None
            if tot is not None and abs(tot) in (1 - eta, eta - 1):
                return True
            return None
    return False


def delegated(rep, r, samp):
    I = r.I
    seen = {}
    for e in samp:
        key = (e.where, e.input_term, tuple(sorted((str(c), v) for c, v in e.facts.items() if c[0] == "isclose")))
        if key in seen:
            continue
        seen[key] = 1
        input_law(rep, r, e)


def input_law(rep, r, e):
    I = r.I
    where = e.where.split()[-1] if e.where.split() else r.where
    loc = e.where.split()[0]
    what = "%s: law of the lossy input handed to %s (%s)" % (r.where, e.cls.name, path_of(e))
    st, ref = r.results[0][0], r.results[0][1]
    exp = Exp(("sum", INPUT))
    for g in e.view.segs:
        exp.see(g.n)
    fs = exp.facts(e.facts)
    got = 0
    for seed in range(1200):
        over = exp.over(seed)
        for n in r.ckw:
            if n in ("hierarchy_level", "approximated_modes_number"):
                k = 1 if n == "approximated_modes_number" else 0
                over[("param", "ctor." + n, "int")] = (seed // 3) % (1 + 2 * k + over[M]) - k
        m = XModel(seed, I, r.events, over)
        try:
            if not m.holds(fs):
                continue
            n = m.val(A(("sum", INPUT)))
            if n < 1 or n > 5:
                continue
            eta = eta_of(r, m, ref, st)
            close = closed_loss(fs, m, eta)
            if close is None:
                rep.dunno("C10", where, what)
                return
            if close:
                eta = Fraction(1)

            def vec():
                out = []
                for g in e.view.segs:
                    k = m.val(g.n)
                    for i in range(int(k)):
                        out.append(m.value(g.v, {g.ix: Fraction(i)}))
                return tuple(out)
            ds = free_draws(m, vec)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        except Unmodelled as ex:
            rep.dunno("C10", where, what + ": " + str(ex))
            return
        got += 1
        for fix, d in ds:
            ref_ = tuple(max(z) for z in zip(*d)) if d else ()
            tot = sum(d.values())
            bad = None
            if sum(ref_) != n:
                bad = "keeps at most %d of %d particles" % (sum(ref_), n)
            elif d != expected(ref_, eta):
                bad = "from the state %s with transmissivity %.3f gives %s instead of the product of binomial laws %s" % (
                    tuple(int(z) for z in ref_), float(eta), show_law(d), show_law(expected(ref_, eta)))
            if bad:
                if foreign([c for c in fs], m) or e.flags:
                    rep.dunno("C10", where, what)
                else:
                    rep.bad("lossy_input", r.where, "%s %s" % (what, bad))
                return
        if got >= WANT:
            break
    if got >= 2:
        rep.holds("lossy_input", r.where, what, loc)
    else:
        rep.dunno("C10", where, what)


def path_of(e):
    class S:
        facts = e.facts
    return path(S, 2)


def weight_fields(rep, r, st, ref, x, n, eta):
    """Tables of binomial weights kept in fields."""
    I = r.I
    c = x.heap.get(ref.a)
    for f, v in sorted(c.fields.items()):
        if not f.strip("_").endswith(("binomial_weights", "weights")) or "possibilities" in f or "parts" in f:
            continue
        d = x.heap.get(v.a) if isinstance(v, Ref) else None
        w = I.view(x, v) if not isinstance(d, DictCell) else None
        if w is None or not w.segs:
            continue
        where = "%s.%s" % (r.cname, f)
        what = "%s after %s holds C(n,l) eta^l (1-eta)^(n-l) for l = 0..n" % (where, r.where)
        fz = FSeq("list", [Seg(g.n, g.ix, I.freeze(x, g.v)) for g in w.segs])
        got, verdict = 0, None
        for seed in range(600):
            exp = Exp(A(n) if isinstance(n, tuple) else n)
            fs = exp.facts(x)
            m = LawModel(seed, I, r.events, exp.over(seed))
            try:
                if not m.holds(fs):
                    continue
                k = m.val(P(n))
                if k < 1 or k > 7 or k.denominator != 1:
                    continue
                e = eta(m)
                ln = m.val(I.vlen(w))
                if ln != k + 1:
                    verdict = "has %s entries for %s particles" % (ln, k)
                    break
                ws = [m.elem(fz, i, {}) for i in range(int(ln))]
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            except (Unmodelled, Need):
                got = -1
                break
            got += 1
            want = [p for _, p in binomial(int(k), e)]
            if ws != want:
                verdict = "n=%d, eta=%.3f: %s instead of %s" % (k, float(e), [round(float(z), 4) for z in ws], [round(float(z), 4) for z in want])
                break
            if got >= WANT:
                break
        if verdict and not x.flags:
            rep.bad("weights", where, what + ": " + verdict, r.loc)
        elif got >= 3 and not verdict:
            rep.holds("weights", where, what, r.loc)
        else:
            rep.dunno("weights", where, what, r.loc)


def t_c10_calculator(prog, rep, cname):
    """Weight table of the exact distribution calculator, after construction and after switching the weights back on."""
    pairs = [("calculate_probabilities_of_outcomes", None)]
    cls = prog.classes.get(cname)
    if cls is None:
        rep.dunno("weights", cname, "class not found")
        return
    if cls.find_method("set_weightless") is not None:
        pairs.append(("set_weightless", {"weightless": FALSE}))
    for meth, over in pairs:
        r = Run(prog, cname, meth, over=over)
        rep.engine(r.I)
        for st, ref, x, v in r.results:
            def conf(a):
                return r.I.get_attr(st.clone(), r.ckw["configuration"], a, r.fn.node)[0]
            s1, n = conf("initial_number_of_particles")
            s2, e = conf("uniform_transmissivity")
            weight_fields(rep, r, st, ref, x, r.I.to_poly(s1, n), lambda m: m.val(r.I.to_poly(s2, e)))


def c10(prog, tier):
    return [("t_c10", (c,)) for c in CLASSES if c in prog.classes] + \
        [("t_c10_calculator", ("BSDistributionCalculatorWithUniformLosses",))]


TASKS["C10"] = c10
