"""C14: what the approximation acts on."""
from .c_networks import *
from .c_networks import VModel

RULES["C14"] = (
    "Every request the approximate strategies make of their sampling helper is analysed: the matrix term is flattened "
    "into its factors, which must be (network part) @ phases(m, N) @ qft(m, N) with one and the same m, the number of "
    "approximated modes of the configuration; the input vector is evaluated under interpretations of its symbolic "
    "entries (all survivors kept; arbitrary draws): at most one of its first m entries is occupied, they carry all "
    "particles of the approximated input modes, and the remaining entries are the other input modes in order. The "
    "network part is the configured matrix, with its columns uniformly permuted in the lossy-state strategy and "
    "unpermuted in the non-uniform one. The two utilities are analysed against their own statement (phases and "
    "Fourier block on modes 0..m-1, identity elsewhere).")


class Mix(VModel):
    """Nothing is lost, but every integer draw is arbitrary."""

    def __init__(self, seed, over=None, mode="up"):
        VModel.__init__(self, seed, over, "up")
        self.free = mode == "mix"

    def atom(self, a, env):
        if self.free and a[0] == "rngi" and a not in env and a not in self.over:
            return Model.atom(self, a, env)
        return VModel.atom(self, a, env)


def factors(t):
    if isinstance(t, tuple) and t and t[0] == "matmul":
        return [f for x in t[1:] for f in factors(x)]
    return [t]


def unit(f):
    """Identity or an absent factor."""
    return isinstance(f, tuple) and f and f[0] == "eye"


def unmodelled(a):
    if a[0] == "lv":
        return not (isinstance(a[1], tuple) and a[1] and a[1][0] == "lossy")
    return a[0] in IMPRECISE and a[0] != "alt"


def inside(t, kinds=("phases", "qft")):
    return mentions(t, lambda a: a[0] in kinds)


def split_matrix(t):
    """-> (network factors, phases, qft, problem); problem None: fine, "?" unmodelled, text: definitely wrong."""
    fs = [f for f in factors(t) if not unit(f)]
    if any(not isinstance(f, tuple) or not f or imprecise_term(f) or mentions(f, lambda a: a[0] in ("havoc", "alt")) for f in fs):
        return None, None, None, "?"
    ph = [i for i, f in enumerate(fs) if f[0] == "phases"]
    qf = [i for i, f in enumerate(fs) if f[0] == "qft"]
    if len(ph) > 1 or len(qf) > 1:
        return None, None, None, "the matrix has %d phase factors and %d Fourier factors" % (len(ph), len(qf))
    known = ("param", "attr", "svd_u", "svd_v", "svd_s", "matmul", "diag", "phases", "qft", "cols", "rows")
    for f in fs:
        if f[0] not in known:
            return None, None, None, "?"
        if f[0] not in ("phases", "qft") and inside(f):
            return None, None, None, "?" if f[0] != "cols" else "columns are relabelled after the phases and the Fourier transform"
    p, q = ph[0] if ph else None, qf[0] if qf else None
    if p is not None and q is not None and q < p:
        return None, None, None, "random phases act before the Fourier transform"
    last = [i for i in (p, q) if i is not None]
    if last and max(last) != len(fs) - 1:
        return None, None, None, "%s acts on the input before the Fourier transform" % short(fs[-1], 80)
    if len(last) == 2 and q - p != 1:
        return None, None, None, "%s acts between the phases and the Fourier transform" % short(fs[p + 1], 80)
    net = [f for i, f in enumerate(fs) if i not in last]
    return net, (fs[p] if p is not None else None), (fs[q] if q is not None else None), None


def t_c14(prog, rep, cname, count, doubled, permuted):
    r = Run(prog, cname, "simulate")
    I = r.I
    evs = [e for e in r.events if e.kind == "sampling"]
    if not evs:
        rep.dunno("approximation acts on one mode set", r.where, "no sampling request seen", r.loc)
    seen = set()
    for e in evs:
        if e.flags or e.matrix is None or e.view is None:
            rep.dunno("approximation acts on one mode set", r.where, "", e.where)
            continue
        mt = e.matrix
        if doubled:
            if not (isinstance(mt, tuple) and mt[0] == "expand"):
                rep.dunno("approximation acts on one mode set", r.where, short(mt), e.where)
                continue
            mt = mt[1]
        net, ph, qf, why = split_matrix(mt)
        if why == "?":
            rep.dunno("phases and Fourier transform enter first", r.where, short(mt), e.where)
            continue
        if why:
            rep.bad("phases and Fourier transform enter first", r.where, why, e.where)
            continue
        rep.holds("phases and Fourier transform enter first", r.where, "", e.where)
        request(rep, r, I, e, net, ph, qf, count, permuted)
    rep.engine(I)


def request(rep, r, I, e, net, ph, qf, count, permuted):
    st = r.results[0][2]
    for x in r.results:
        st = x[2]
    inp = r.kw["input_state"]
    wi = I.view(st, inp)
    exp = Exp(I.vlen(wi))
    facts = arith(e.facts)
    for c, v in facts:
        exp.see(c[1])
    for t in [ph, qf] + net:
        if t is not None:
            exp.see(t) if isinstance(t, tuple) else None
    for g in e.view.segs:
        exp.see(P(g.n))
    for mo in ("up", "mix"):
        n = 0
        for s, m in mixed(facts, exp, mo):
            try:
                N = len(vector(I, st, wi, m))
                x = vector(I, st, e.view, m)
                a = vector(I, st, wi, m)
                want = count(m, N)
                mp = None if ph is None else (m.val(P(ph[2])), m.val(P(ph[3])))
                mq = None if qf is None else (m.val(P(qf[1])), m.val(P(qf[2])))
                rel = relabelling(I, st, net, m, N)
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            if want is None:
                continue
            n += 1
            if any(f[0] == "rows" for f in net):
                rep.bad("network part", r.where, "the output modes of the network are relabelled", e.where)
                return
            bad = judge(N, x, a, want, mp, mq, rel, permuted, mo)
            if bad == "?":
                rep.dunno("approximation acts on one mode set", r.where, short(net[0] if net else "", 120), e.where)
                n = -1
                break
            if bad:
                rule, msg = bad
                rough = any(imprecise(g.n) or mentions(I.term(st, g.v), unmodelled) for g in e.view.segs)
                if rough and rule == "bunching":
                    rep.dunno(rule, r.where, msg, e.where)
                else:
                    rep.bad(rule, r.where, msg, e.where)
                return
        if n == 0 and not feasible([(c, v) for c, v in facts if not mentions(c[1], lambda a: a[0] in ("rng", "rngi", "lv", "alt"))], exp):
            continue
        if n >= 0:
            rep.decide("approximation acts on one mode set", r.where, True if n else None, "", e.where)


def mixed(facts, exp, mode, tries=700, want=30):
    got = 0
    for s in range(tries):
        m = Mix(s, exp.over(s), mode)
        try:
            if not facts_hold([(c, v) for c, v in facts if not mentions(c[1], lambda a: a[0] in ("rng", "rngi", "lv", "alt"))], m):
                continue
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        yield s, m
        got += 1
        if got >= want:
            return


def relabelling(I, st, net, m, N):
    """True: columns of the network uniformly permuted; False: not; None: unmodelled."""
    cols = [f for f in net if f[0] == "cols"]
    if not cols:
        return False
    if len(cols) > 1 or net[-1] is not cols[0]:
        return None
    idx = cols[0][2]
    if not (isinstance(idx, tuple) and idx and idx[0] == "perm"):
        return None
    try:
        v = sorted(term_vector(I, st, idx[2], m))
    except (AttributeError, TypeError):
        return None
    return True if v == list(range(N)) else None


def judge(N, x, a, want, mp, mq, rel, permuted, mode):
    for what, k in (("phases act", mp), ("the Fourier transform acts", mq)):
        if k is None:
            if want >= 2:
                return ("phases and Fourier transform", "no %s on the %d approximated modes of %d" %
                        (what.split(" act")[0].replace("the ", ""), want, N))
            continue
        cnt = min(k[0], N)
        if k[1] != N:
            return ("phases and Fourier transform", "%s on a space of %s modes instead of %d" % (what, k[1], N))
        if cnt != want and not (want <= 1 and cnt <= want):
            return ("phases and Fourier transform", "%s on %s modes while %d of %d modes are approximated" % (what, cnt, want, N))
    if rel is None:
        return "?"
    if len(x) != N:
        return ("bunching", "the input has %d entries for %d modes" % (len(x), N))
    head, tail = x[:want], x[want:]
    if sum(1 for v in head if v) > 1:
        return ("bunching", "several approximated modes are occupied: %s for the input %s with %d approximated modes" % (fmt(x), fmt(a), want))
    if mode == "up":
        first = sum(head) == sum(a[:want]) and tail == a[want:]
        rear = sum(head) == sum(a[N - want:]) and tail == a[:N - want]
        ok = first or (rear and rel)
    else:
        ok = sum(head) <= max(sum(a[:want]), sum(a[N - want:])) and (tail == a[want:] or (rel and tail == a[:N - want]))
    if not ok:
        return ("bunching", "the input %s with %d approximated modes enters as %s" % (fmt(a), want, fmt(x)))
    if rel and not permuted:
        return ("network part", "the columns of the network are relabelled")
    return None


def fmt(v):
    return "(%s)" % ", ".join(str(x) for x in v)


def hierarchy(m, N):
    h = m.atom(("param", "ctor.hierarchy_level", "int"), {})
    return N - int(h) if 0 <= h <= N else None


def approximated(m, N):
    a = m.atom(("param", "ctor.approximated_modes_number", "int"), {})
    return max(0, min(int(a), N))


COUNTS = {"hierarchy": hierarchy, "approximated": approximated}


def t_c14_strategy(prog, rep, cname, count, doubled, permuted):
    t_c14(prog, rep, cname, COUNTS[count], doubled, permuted)


def t_c14_phases(prog, rep, mod, name):
    r = FnRun(prog, mod, name)
    I = r.I
    if not all(isinstance(r.kw.get(p[0]), Num) for p in r.fn.params()[:2]):
        rep.dunno("mode numbers", r.where, "arguments not modelled", r.loc)
        return
    pm, pn = (A(("param", p[0], "int")) for p in r.fn.params()[:2])
    for x, v in r.results:
        t = I.term(x, v)
        if not (isinstance(t, tuple) and t[0] == "diag") or unreliable(x):
            rep.dunno("phases on the first m modes", r.where, short(t), r.loc)
            continue
        if not (isinstance(t[1], tuple) and t[1] and t[1][0] == "seq"):
            rep.dunno("phases on the first m modes", r.where, short(t), r.loc)
            continue
        n = 0
        for s in range(400):
            m = Model(s)
            try:
                M_, N = m.val(pm), m.val(pn)
                if not 0 <= M_ <= N or N > 6 or not facts_hold(arith(x.facts), m):
                    continue
                at = []
                for gn, tt, bv in t[1][1:]:
                    k = m.val(P(gn))
                    for i in range(max(0, int(k))):
                        dr = {z for z in walk(tt) if z and z[0] in ("rng", "rngi")}
                        if dr:
                            at.append(tuple(sorted(m.key_atom(z, {bv: Fraction(i)}) for z in dr)))
                        elif P(tt).const() == 1 if not isinstance(tt, tuple) or tt and isinstance(tt[0], str) else False:
                            at.append(None)
                        else:
                            at.append("?")
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            n += 1
            if "?" in at:
                rep.dunno("phases on the first m modes", r.where, short(t), r.loc)
                n = -1
                break
            M_, N = int(M_), int(N)
            if len(at) != N or any(a is None for a in at[:M_]) or any(a is not None for a in at[M_:]):
                rep.bad("phases on the first m modes", r.where, "%s random phases on positions %s of %d for m = %d" %
                        (sum(a is not None for a in at), [i for i, a in enumerate(at) if a is not None], len(at), M_), r.loc)
                n = -1
                break
            if len(set(at[:M_])) != M_:
                rep.bad("one phase per mode", r.where, "the same random phase is used for several modes", r.loc)
                n = -1
                break
        if n >= 0:
            rep.decide("phases on the first m modes", r.where, True if n else None, "", r.loc)
    rep.engine(I)


def t_c14_qft(prog, rep, mod, name):
    r = FnRun(prog, mod, name)
    I = r.I
    if not all(isinstance(r.kw.get(p[0]), Num) for p in r.fn.params()[:2]):
        rep.dunno("mode numbers", r.where, "arguments not modelled", r.loc)
        return
    pm, pn = (A(("param", p[0], "int")) for p in r.fn.params()[:2])
    for x, v in r.results:
        t = I.term(x, v)
        fs = [(("lt", pm), False), (("lt", pn - pm), False)]
        if not feasible(arith(x.facts) + fs, Exp()):
            continue
        if isinstance(t, tuple) and t and t[0] == "eye" and unreliable(x) is False:
            # identity: right when m is at most one
            d = True if same(pmax(pm - 1, 0), P(0), arith(x.facts) + fs) is True else None
            rep.decide("Fourier block on the first m modes", r.where, d, short(t), r.loc)
            continue
        if unreliable(x) or not (isinstance(t, tuple) and t and t[0] == "updm" and t[1][0] == "eye"):
            rep.dunno("Fourier block on the first m modes", r.where, short(t), r.loc)
            continue
        fs = arith(x.facts) + fs
        ok = same(P(t[1][1]), pn, fs)
        ix = t[2]
        if not (isinstance(ix, tuple) and len(ix) == 2 and all(isinstance(k, tuple) and k and k[0] == "slice" and len(k) >= 3 for k in ix)):
            rep.dunno("Fourier block on the first m modes", r.where, short(t), r.loc)
            continue
        for k in ix:
            lo = P(0) if k[1] is None or k[1] == ("none",) else (P(k[1]) if not isinstance(k[1], tuple) else A(k[1]))
            hi = k[2]
            if hi is None or hi == ("none",):
                hi = pn
            hi = P(hi) if not isinstance(hi, tuple) else A(hi)
            d = same(lo, P(0), fs)
            d2 = same(pmin(hi, pn), pm, fs)
            ok = False if False in (ok, d, d2) else None if None in (ok, d, d2) else True
        rep.decide("Fourier block on the first m modes", r.where, ok, "block %s of a %s-mode identity" % (short(ix, 120), short(t[1][1])), r.loc)
    rep.engine(I)


def c14(prog, tier):
    out = [("t_c14_strategy", ("LossyStateApproximationSimulationStrategy", "hierarchy", False, True)),
           ("t_c14_strategy", ("NonuniformLossesApproximationStrategy", "approximated", True, False))]
    for m in prog.mods.values():
        if m.name.endswith("boson_sampling_utilities.boson_sampling_utilities"):
            out += [("t_c14_phases", (m.name, "generate_random_phases_matrix_for_first_m_modes")),
                    ("t_c14_qft", (m.name, "generate_qft_matrix_for_first_m_modes"))]
    return out


TASKS["C14"] = c14
