"""C03, C04: number and shape of samples."""
from .common import *

# ---------------------------------------------------------------------------------------- C03

RULES["C03"] = (
    "Every concrete strategy's simulate is abstractly interpreted for a symbolic number of samples k, symbolic "
    "constructor settings (thread number, cpu_count) and a symbolic input; loops are summarised into closed forms and "
    "worker pools into the concatenation of their tasks. Obligation per construct and path partition: the length of "
    "the returned list equals max(k, 0) (identity testing of the symbolic length under the path's facts). The "
    "facade must call its strategy with the caller's own arguments and return that call's value.")


def t_c03(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    I = r.I
    for st, ref, x, v in r.results:
        k = I.to_poly(x, r.kw["samples_number"])
        if unreliable(x):
            rep.dunno("sample count", r.where, "path after a handled exception", r.loc)
            continue
        w = I.view(x, v)
        if w is None:
            if isinstance(v, Cst) and v.v is None:
                rep.bad("sample count", r.where, "returns None " + path(x), r.loc)
            else:
                rep.dunno("sample count", r.where, "returned value not modelled: %s" % short(I.term(x, v)), r.loc)
            continue
        n = I.vlen(w)
        d = same(n, pmax(k, 0), list(x.facts.items()))
        if cname == "CliffordsRSimulationStrategy" and d is False:
            # the sampler itself is R code; numpy's array_split defines the call for k >= 1 only
            d = same(n, pmax(k, 0), list(x.facts.items()) + [(("lt", k - 1), False)])
        rep.decide("sample count", r.where, d, "returns a list of %s samples instead of %s, %s" %
                   (short(n), short(pmax(k, 0)), path(x)), r.loc)
        if d is True and w.kind not in ("list", "nd", "any", None) and w.kind in ("tuple", "gen", "set"):
            rep.bad("list of samples", r.where, "returns a %s" % w.kind, r.loc)
        elif d is True and w.kind == "list":
            rep.holds("list of samples", r.where, "", r.loc)
    for e in r.exc:
        bad_request(rep, r, e)
    rep.engine(I)


def bad_request(rep, r, e):
    """An exception raised because of the number of samples asked for."""
    st, name, node = e[0], e[1], e[2]
    k = ("param", "samples_number", "int")
    fs = [(c, v) for c, v in st.facts.items()]
    mine = [c for c, v in fs if c[0] in ("lt", "eq", "le") and mentions(c[1], lambda a: a == k)]
    if not mine or unreliable(st):
        return
    if any(c[0] not in ("lt", "eq", "le") or imprecise(c[1]) for c in mine):
        return
    for c in mine:
        if any(a[0] not in ("param", "max", "min", "sym", "floordiv") for a in walk(c[1]) if isinstance(a[0], str)):
            return
    hit = any(facts_hold(fs, Model(s)) for s in range(60))
    if hit and isinstance(node, ast.Raise):
        rep.bad("sample count", r.where, "raises %s instead of returning samples, %s" % (name, path(st)),
                "%s:%d" % (r.fn.mod.rel, node.lineno))


def t_facade(prog, rep, cname, method):
    r = Run(prog, cname, method)
    I = r.I
    ev = [e for e in r.events if e.kind == "sampling"]
    for st, ref, x, v in r.results:
        if unreliable(x):
            rep.dunno("facade passes through", r.where, "", r.loc)
            continue
        k = I.to_poly(x, r.kw["samples_number"])
        it = I.term(x, r.kw["input_state"])
        calls = [e for e in ev]
        if not calls:
            rep.bad("facade passes through", r.where, "the strategy is not asked for samples", r.loc) \
                if not I.model_gaps else rep.dunno("facade passes through", r.where, "", r.loc)
            continue
        for e in calls:
            d = same(e.n, k, list(e.facts.items()))
            rep.decide("facade passes on the request", r.where, d, "asks for %s samples" % short(e.n), e.where)
        w = I.view(x, v)
        n = I.vlen(w) if w is not None else None
        d = same(n, pmax(k, 0), list(x.facts.items())) if n is not None else None
        rep.decide("facade returns every sample", r.where, d, "returns %s of the samples" % (short(n) if n is not None else "?"), r.loc)
        t = I.term(x, v)
        inner = [a for a in walk(t) if a and a[0] == "samples"]
        if inner:
            rep.decide("facade passes on the input", r.where, True if all(a[2] == it for a in inner) else
                       (None if any(imprecise_term(a[2]) for a in inner) else False),
                       "samples of %s instead of the given input" % short(inner[0][2]), r.loc)
        else:
            rep.dunno("facade passes on the input", r.where, "", r.loc)
    rep.engine(I)


def c03(prog, tier):
    return [("t_c03", (c,)) for c in strategies(prog)] + \
        [("t_facade", ("BosonSamplingSimulator", "get_classical_simulation_results"))]


# ---------------------------------------------------------------------------------------- C04

RULES["C04"] = (
    "Same abstract interpretation as C03. Obligations on the element template of the returned list: it is a tuple; its "
    "entries are integers; its length equals the number of modes; its entry sum equals the particle number of the "
    "input for lossless exact strategies and is bounded by it (by the configured photons left for the fixed-loss "
    "strategy) otherwise. Sums are derived from loop summaries (counting recurrences, conserved sums of updated "
    "vectors, windows of longer vectors).")


def t_c04(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    I = r.I
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None or unreliable(x):
            rep.dunno("sample shape", r.where, "returned value not modelled", r.loc)
            continue
        exp = Exp()
        fs = exp.facts(x)
        wi = I.view(x, r.kw["input_state"])
        exp.see(I.vlen(wi))
        if not feasible(fs, exp):
            continue
        for g in w.segs:
            if g.n.const() == 0:
                continue
            tmp = Report()
            for el, more in guarded(g.v):
                ew = I.view(x, el)
                if ew is None:
                    tmp.dunno("sample shape", r.where, "sample not modelled: %s" % short(I.term(x, el)), r.loc)
                    continue
                sample_shape(tmp, r, I, x, ew, wi, fs, cname, exp, more)
            # an alternative nothing is known about may be one that is never taken
            if isinstance(g.v, Alt) and g.v.g is None:
                for o in tmp.obs:
                    if o.verdict == "violated" and any(z.rule == o.rule and z.verdict != "violated" for z in tmp.obs):
                        o.verdict = "undecided"
            rep.merge(tmp)
    rep.engine(I)


def sample_shape(rep, r, I, x, ew, wi, fs, cname, exp, more=()):
    if ew.kind in ("tuple", "list", "nd", "gen"):
        rep.decide("sample is a tuple", r.where, ew.kind == "tuple", "samples are returned as %s" % ew.kind, r.loc)
    else:
        rep.dunno("sample is a tuple", r.where, str(ew.kind), r.loc)
    ety = I.lib.ety_of(I, ew.segs)
    if ety in ("int", "float", "complex", "bool"):
        rep.decide("sample has integer entries", r.where, ety in ("int",), "entries of type %s" % ety, r.loc)
    else:
        rep.dunno("sample has integer entries", r.where, str(ety), r.loc)
    n = I.vlen(ew)
    d = try_facts(lambda f: same_all(n, A(M), f, exp), fs, more)
    if d is None and data_length(n):
        d = False
    rep.decide("one entry per mode", r.where, d, "samples have %s entries" % short(n), r.loc)
    s = I.vsum(ew)
    if s is None:
        rep.dunno("particle number", r.where, "", r.loc)
        return
    want = I.vsum(wi)
    if cname in LOSSLESS:
        d = try_facts(lambda f: same_all(s, want, f, exp), fs, more)
        if d is None and lossy_count(s):
            d = False
        rep.decide("particle number", r.where, d, "samples have %s particles instead of %s" % (short(s), short(want)), r.loc)
    else:
        if cname == "FixedLossSimulationStrategy":
            want = pmax(A(("param", "ctor.number_of_photons_left", "int")), 0)
        d = try_facts(lambda f: at_most(I, s, want, f, exp), fs, more)
        rep.decide("particle number", r.where, d, "samples can have more particles (%s) than %s" % (short(upper(s)), short(want)), r.loc)


def data_length(n):
    """The length is one more than the largest mode that happens to be occupied."""
    for q in alternatives(n):
        t = as_term(q)
        if isinstance(t, tuple) and t[0] == "max" and any(P(x).const() is not None for x in t[1:]):
            t = [x for x in t[1:] if P(x).const() is None]
            t = as_term(P(t[0])) if len(t) == 1 else None
        for x in ([t] if isinstance(t, tuple) else [m[0][0] for m in P(t).t if len(m) == 1] if t is not None else []):
            if x[0] == "maxel":
                return True
    return False


def lossy_count(s):
    """A particle count over loop iterations of which some add nothing."""
    for q in alternatives(s):
        t = as_term(q)
        if isinstance(t, tuple) and t[0] == "bcount" and any(P(b) == P(0) for b in t[2]):
            return True
    return False


def c04(prog, tier):
    return [("t_c04", (c,)) for c in strategies(prog)]



TASKS.update({"C03": c03, "C04": c04})
