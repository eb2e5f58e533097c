"""C08, C15, C16: distribution calculators."""
import itertools

from .law import *
from . import contracts as ct

RULES["C08"] = (
    "Abstract interpretation of every distribution calculator with symbolic configuration and outcomes. The returned "
    "list must have as many entries as there are outcomes (symbolic lengths), and the template of entry i may only "
    "refer to outcome i of the outcomes passed in (of the sequence get_outcomes_in_proper_order returns, for "
    "calculate_distribution). Estimates credit a sample to the entry whose outcome it was found equal to. Results of "
    "process pools have to be collected in order.")
RULES["C15"] = (
    "The entry of the exact calculators is derived in closed form (sums and products over loop indices, permanents and "
    "lossy inputs as uninterpreted functions of the configured matrix and of the states) and compared with the "
    "definition by symbolic identity testing in exact arithmetic, in interpretations in which the configuration is "
    "consistent and the lossy inputs are the actual sub-occupations of the input (bunched ones included).")
RULES["C16"] = (
    "Abstract interpretation of the sample-based calculator: one request for samples, of the configured strategy, with "
    "the configured input state and exactly the configured or passed number; every credit adds one to the entry whose "
    "outcome was found equal to the sample; the credits add up to at most the number of samples (loop summaries); every "
    "entry is its count divided by the number of samples requested.")

OUTCOMES = ("param", "outcomes", "seq")
METHODS = ("calculate_distribution", "calculate_probabilities_of_outcomes", "get_outcomes_in_proper_order")


def calculators(prog):
    out = []
    for c in concrete_classes(prog):
        fs = [c.find_method(m) for m in METHODS]
        if all(f is not None and not f.is_abstract for f in fs):
            out.append(c.name)
    return out


def vocab(prog):
    return ct.build(prog, more=ct.STATES)


# ---------------------------------------------------------------------------------------- C08

def t_c08(prog, rep, cname, variant):
    ctor = {"outcomes": NONE} if variant else None
    r = Run(prog, cname, "calculate_probabilities_of_outcomes", ctor=ctor, vocab=vocab(prog))
    rep.engine(r.I)
    n = 0
    for st, ref, x, v in r.results:
        n += 1
        aligned(rep, r, x, v, OUTCOMES, A(("len", OUTCOMES)), r.where, r.events)
    ordered(rep, r)
    if not n:
        rep.dunno("one entry per outcome", r.where, "no result on any analysed path", r.loc)
    r = Run(prog, cname, "calculate_distribution", ctor=ctor, vocab=vocab(prog))
    rep.engine(r.I)
    I = r.I
    ordered(rep, r)
    main = r.events
    done = 0
    for st, ref in r.objs:
        I.events = []
        outs, _ = r.S.call(st, ref, "get_outcomes_in_proper_order")
        for y, o in outs:
            wo = I.view(y, o)
            for st2, ref2, x, v in r.results:
                if st2 is not st:
                    continue
                if any(c in x.facts and x.facts[c] != b for c, b in y.facts.items()):
                    continue
                if wo is None:
                    rep.dunno("one entry per outcome", r.where, "outcomes not modelled", r.loc)
                    continue
                z = x.clone()
                z.facts.update(y.facts)
                done += 1
                aligned(rep, r, z, v, I.segs_term(y, wo.segs), I.vlen(wo), r.where, main)
    if not done:
        rep.dunno("one entry per outcome", r.where, "no result on any analysed path", r.loc)


def ordered(rep, r):
    for e in r.events:
        if e.kind == "unordered":
            rep.bad("collected in order", e.stack[-1] if e.stack else r.where,
                    "the results of the process pool arrive in any order", e.where)


def references(t):
    """(sequence of outcomes, index) pairs in a term."""
    out = set()
    for a in walk(t if isinstance(t, tuple) else P(t)):
        if a and a[0] == "item" and len(a) > 3 and a[3] == "seq" and outcome_list(a[1]):
            out.add((a[1], P(a[2])))
    return out


def outcome_list(s):
    """Lists of outcomes, possibly rearranged."""
    if not isinstance(s, tuple) or not s:
        return False
    if s[0] == "states" or s[0] == "param" and str(s[1]).split(".")[-1].strip("_") == "outcomes":
        return True
    if s[0] == "attr" and str(s[2]).strip("_") == "outcomes":
        return True
    return s[0] in ("sorted", "rev", "perm", "rows", "set", "unique") and any(outcome_list(x) for x in s[1:])


def aligned(rep, r, x, v, To, no, where, events):
    I = r.I
    w = I.view(x, v)
    if w is None or unreliable(x):
        rep.dunno("one entry per outcome", where, "returned value not modelled", r.loc)
        return
    exp = Exp(no)
    fs = exp.facts(x)
    n = I.vlen(w)
    d = same_all(n, no, fs, exp)
    if d is False and (unknown(n) or unknown(no)):
        d = None
    if d is None and not rough(n) and not rough(no) and not unknown(n) and not unknown(no):
        d = same(n, no, fs, over=exp.over)
    if d is None and filtered(I, n, no):
        d = False
    rep.decide("one entry per outcome", where, d, "returns %s entries for %s outcomes" % (short(n), short(no)), r.loc)
    off = P(0)
    seen = False
    for g in w.segs:
        if g.n.const() == 0:
            continue
        refs = references(I.term(x, g.v))
        for s, i in sorted(refs, key=str):
            seen = True
            if s != To:
                if pure(s) and pure(To):
                    if r.method == "calculate_distribution" or s[0] in ("sorted", "rev", "perm", "set", "unique"):
                        rep.bad("entries follow the outcomes", where, "entry i is computed for outcome i of %s, but the outcomes are %s"
                                % (short(s), short(To)), r.loc)
                    continue
                rep.dunno("entries follow the outcomes", where, "", r.loc)
                continue
            if mentions(i, lambda a: a[0] in ("bv",)):
                d = False if not mentions(i, lambda a: a == g.ix) else None
            else:
                d = same(i, off + A(g.ix), fs + [(("lt", A(g.ix) - g.n), True)], over=exp.over)
                if d is False and mentions(i, lambda a: a[0] in ("anyix", "anyit", "brk", "T", "havoc")):
                    d = None
            rep.decide("entries follow the outcomes", where, d,
                       "entry %s is computed for outcome %s" % (short(off + A(g.ix)), short(i)), r.loc)
        off = off + g.n
    cr = [e for e in events if e.kind == "augitem"]
    for e in cr:
        k = credit(e)
        if k is None:
            continue
        seen = True
        s, i = k
        if s != To:
            rep.decide("entries follow the outcomes", where, False if pure(s) and pure(To) else None,
                       "samples are compared with the outcomes of %s, but the outcomes are %s" % (short(s), short(To)), e.where)
            continue
        key = e.key
        if isinstance(key, tuple) and not num_term(key):
            rep.dunno("entries follow the outcomes", where, "", e.where)
            continue
        d = same(P(key), i, list(e.facts.items()))
        rep.decide("entries follow the outcomes", where, d, "a sample equal to outcome %s is credited to entry %s"
                   % (short(i), short(P(key))), e.where)
    if not seen:
        rep.dunno("entries follow the outcomes", where, "", r.loc)


def filtered(I, n, no):
    """One entry per outcome that passes a condition, which some do not."""
    if len(n.t) != 1 or unknown(n) or unknown(no) or mentions(no, lambda a: a[0] == "nstates"):
        return False
    (mo, co), = n.t.items()
    if co != 1 or len(mo) != 1 or mo[0][1] != 1 or mo[0][0][0] != "bcount":
        return False
    a = mo[0][0]
    rec = I.bcfacts.get((a[1][1], a[2]))
    if rec is None or P(a[3]) != no:
        return False
    skip = [dict(f) for f, k in zip(rec[1], a[2]) if P(k).const() == 0]
    return bool(skip) and all(f and all(c[0] in ("lt", "eq", "in", "eqseq") and not rough(A(c)) for c in f) for f in skip)


def rough(p):
    return mentions(p, lambda a: a[0] in ("dictv", "call", "havoc", "opaque", "alt", "phi", "T", "bcount", "lv", "anyix", "anyit", "set"))


def unknown(t):
    """Mentions a value read from an attribute that is not defined."""
    return "ExtM" in str(t)


def pure(s):
    return not unknown(s) and (s[0] in ("states", "param", "attr") or s[0] in ("sorted", "rev", "perm", "set", "unique") and
                               any(isinstance(x, tuple) and x and pure(x) for x in s[1:]))


def credit(e):
    """(outcomes, index) the sample was found equal to when it was credited."""
    out = []
    for c, b in e.facts.items():
        if c[0] == "eqseq" and b is True:
            for a, o in ((c[1], c[2]), (c[2], c[1])):
                if isinstance(a, tuple) and a and a[0] == "item" and outcome_list(a[1]) and is_sample(o):
                    out.append((a[1], P(a[2])))
    return out[0] if len(out) == 1 else None


def is_sample(t):
    return any(a and a[0] in ("samples", "sim") for a in walk(t)) if isinstance(t, tuple) else False


def variants(prog, cname):
    """Constructor variants: optional outcomes given or not."""
    c = prog.classes[cname]
    init = c.find_method("__init__")
    return (0, 1) if init is not None and any(p[0] == "outcomes" for p in init.params()) else (0,)


def c08(prog, tier):
    return [("t_c08", (c, v)) for c in calculators(prog) for v in variants(prog, c)]


# ---------------------------------------------------------------------------------------- C15

EXACT = {"BSDistributionCalculatorWithFixedLosses": False, "BSDistributionCalculatorWithUniformLosses": True}
FIELDS = ("initial_state", "interferometer_matrix", "initial_number_of_particles", "number_of_modes",
          "number_of_particles_lost", "number_of_particles_left", "uniform_transmissivity")


class DistModel(LawModel):
    """Consistent configurations: the numbers agree with the states, and the outcomes hold the particles left."""

    def __init__(self, seed, I, events, lossy, known_index):
        LawModel.__init__(self, seed, I, events)
        m = 1 + self.h("modes", 3)
        self.init = tuple(self.h("init%d" % i, 3) for i in range(m))
        if sum(self.init) == 0 and seed % 5:
            self.init = (1,) + self.init[1:]
        self.n = sum(self.init)
        self.left = self.h("left", self.n + 1) if seed % 7 else self.n
        self.lossy_outcomes = lossy
        self.m = m
        self.eta = Fraction(1 + self.h("eta", 8), 10)
        self.outs = {}
        self.index = known_index

    def outcome(self, k):
        if k not in self.outs:
            tot = self.h("tot%s" % k, self.n + 1) if self.lossy_outcomes else self.left
            o = [0] * self.m
            for p in range(tot):
                o[self.h("o%s.%d" % (k, p), self.m)] += 1
            self.outs[k] = tuple(o)
        return self.outs[k]

    def field(self, a):
        if a[0] == "attr" and isinstance(a[1], tuple) and "configuration" in str(a[1]):
            return a[2].strip("_") if isinstance(a[2], str) else None
        return None

    def atom(self, a, env):
        if a in env:
            return env[a]
        f = self.field(a)
        if f == "initial_number_of_particles":
            return Fraction(self.n)
        if f == "number_of_modes":
            return Fraction(self.m)
        if f == "number_of_particles_left":
            return Fraction(self.left)
        if f == "number_of_particles_lost":
            return Fraction(self.n - self.left)
        if f == "uniform_transmissivity":
            return self.eta
        if a[0] == "permanent":
            i, o = self.state(a[2], env), self.state(a[3], env)
            if len(i) != len(o):
                raise Skip
            if not any(i) and not any(o):
                return Fraction(1)
            return Fraction(1 + self.h("perm%s%s%s" % (a[1], i, o), 97), 1 + self.h("pd%s%s%s" % (a[1], i, o), 7))
        if a[0] in ("conj", "real"):
            return self.val(P(a[1]), env) if num_term(a[1]) or isinstance(a[1], Poly) else LawModel.atom(self, a, env)
        return LawModel.atom(self, a, env)

    def whole(self, s, env):
        """Value of a configured state or an outcome."""
        if isinstance(s, tuple) and s:
            if s[0] == "lit":
                return s[1]
            if self.field(s) == "initial_state":
                return self.init
            if s[0] == "item" and s[3] == "seq" and outcome_list(s[1]):
                return self.outcome(self.val(s[2], env))
        return None

    def state(self, s, env):
        w = self.whole(s, env)
        if w is not None:
            return w
        n = self.length(s, env)
        return tuple(int(self.item(s, Fraction(i), env)) for i in range(int(n)))

    def length(self, s, env):
        w = self.whole(s, env)
        if w is not None:
            return Fraction(len(w))
        if self.field(s if isinstance(s, tuple) and s else ("x",)) == "interferometer_matrix":
            return Fraction(self.m)
        return LawModel.length(self, s, env)

    def item(self, s, i, env, ty="int"):
        w = self.whole(s, env)
        if w is not None:
            if i < 0:
                i += len(w)
            if i < 0 or i >= len(w):
                raise Skip
            return Fraction(w[int(i)])
        return LawModel.item(self, s, i, env, ty)


def definition(m, cfg, o):
    """The probability of outcome o of a model, from the definition."""
    left = sum(o)
    tot = Fraction(0)
    for x in itertools.product(*[range(y + 1) for y in m.init]):
        if sum(x) != left:
            continue
        p = m.atom(("permanent", ("attr", cfg, "interferometer_matrix", "seq"), ("lit", x), ("lit", o), "num"), {}) ** 2
        for k in x:
            p /= math.factorial(k)
        for k, i in zip(x, m.init):
            p *= math.comb(i, k)
        tot += p
    for k in o:
        tot /= math.factorial(k)
    tot /= math.comb(m.n, left)
    if m.lossy_outcomes:
        tot *= math.comb(m.n, left) * m.eta ** left * (1 - m.eta) ** (m.n - left)
    return tot


def t_c15(prog, rep, cname):
    r = Run(prog, cname, "calculate_probabilities_of_outcomes", vocab=vocab(prog))
    I = r.I
    rep.engine(I)
    cfg = None
    for n, v in r.ckw.items():
        if "configuration" in n:
            cfg = I.term(r.objs[0][0], v)
    if cfg is None:
        rep.dunno("probability", r.where, "no configuration", r.loc)
        return
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None or unreliable(x):
            rep.dunno("probability", r.where, "returned value not modelled", r.loc)
            continue
        off = P(0)
        for g in w.segs:
            if g.n.const() == 0:
                continue
            entry(rep, r, x, g, off, cfg, EXACT[cname])
            off = off + g.n


def entry(rep, r, x, g, off, cfg, lossy):
    I = r.I
    alts = list(zip(g.v.vs, g.v.g or [()] * len(g.v.vs))) if isinstance(g.v, Alt) else [(g.v, ())]
    ps = []
    for el, gd in alts:
        t = I.term(x, el)
        p = P(t) if isinstance(t, Poly) or num_term(t) else None
        if p is None or mentions(p, lambda a: a[0] in ("havoc", "phi", "dictv", "call", "opaque", "gencall", "rec", "loopv", "KEY")):
            rep.dunno("probability", r.where, "entry not modelled: %s" % short(t, 120), r.loc)
            return
        ps.append((p, gd))
    got = 0
    for seed in range(260):
        m = DistModel(seed, I, r.events, lossy, None)
        env = {g.ix: Fraction(seed % 3)}
        try:
            if not m.holds(list(x.facts.items())):
                continue
            want = definition(m, cfg, m.outcome(m.val(off + A(g.ix), env)))
            hit = []
            for p, gd in ps:
                t = taken(m, gd, env)
                if t is None:
                    hit = None
                    break
                if t:
                    hit.append(p)
            if hit is None:
                hit = [p for p, _ in ps]
                vals = [m.val(p, env) for p in hit]
                if any(z == want for z in vals):
                    got += 1
                    continue
                bad = not any(z == want for z in vals)
                if not bad:
                    continue
                vals = vals[:1]
            else:
                vals = [m.val(p, env) for p in hit]
            if not vals:
                continue
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        except (Unmodelled, Need) as e:
            rep.dunno("probability", r.where, str(e), r.loc)
            return
        got += 1
        for z in vals:
            if z != want:
                rep.bad("probability", r.where,
                        "for input %s, outcome %s%s the probability is %s, by definition %s (permanents taken as arbitrary numbers)"
                        % (m.init, m.outcome(m.val(off + A(g.ix), env)), ", transmissivity %s" % m.eta if lossy else "",
                           z, want), r.loc)
                return
        if got >= 60:
            break
    if got >= 8:
        rep.holds("probability", r.where, "%d interpretations" % got, r.loc)
    else:
        rep.dunno("probability", r.where, "", r.loc)


def taken(m, gd, env):
    """True / False / None: an alternative is the one taken."""
    if not gd:
        return None
    for k in gd:
        ok = True
        for c, b in k:
            z = eval_cond(c, m, env)
            if z is None:
                return None
            if z != b:
                ok = False
                break
        if ok:
            return True
    return False


def c15(prog, tier):
    return [("t_c15", (c,)) for c in EXACT]


# ---------------------------------------------------------------------------------------- C16

SAMPLED = "BSSampleBasedDistributionCalculator"


def t_c16(prog, rep, method, variant):
    over = {"samples_number": NONE} if variant == "default" else None
    r = Run(prog, SAMPLED, method, over=over, vocab=vocab(prog))
    I = r.I
    rep.engine(I)
    k = None
    if variant == "passed":
        k = I.to_poly(r.objs[0][0], r.kw["samples_number"])
    else:
        for n, v in r.ckw.items():
            if n == "samples_number":
                k = I.to_poly(r.objs[0][0], v)
    if k is None:
        rep.dunno("number of samples", r.where, "", r.loc)
        return
    BOUNDS[as_term(k)] = (P(1), None)
    samp = [e for e in r.events if e.kind == "sampling"]
    if not samp:
        (rep.dunno if I.model_gaps else rep.bad)("number of samples", r.where, "no samples are requested", r.loc)
    strat = cfg = None
    st0 = r.objs[0][0]
    for n, v in r.ckw.items():
        if n == "strategy":
            strat = I.term(st0, v)
        if "configuration" in n:
            cfg = I.term(st0, v)
    for e in samp:
        where = e.stack[-1] if e.stack else r.where
        fs = list(e.facts.items())
        if e.flags:
            rep.dunno("number of samples", where, "", e.where)
            continue
        if any(isinstance(c, tuple) and c and c[0] == "it" for c in e.ctx):
            looped(rep, r, e, k, where)
        else:
            rep.decide("number of samples", where, same(P(e.n), k, fs), "%s requests %s samples instead of %s"
                       % (r.where, short(e.n), short(k)), e.where)
        got = getattr(e, "strategy_term", None) if hasattr(e, "strategy_term") else None
        if got is not None and strat is not None:
            rep.decide("the configured strategy samples", where, True if got == strat else None if imprecise_term(got) else False,
                       "%s samples with %s" % (r.where, short(got)), e.where)
        it = e.input_term
        want = ("attr", cfg, "initial_state", "seq")
        if it is not None:
            rep.decide("samples of the configured input", where,
                       True if it == want else None if imprecise_term(it) or mentions(it, lambda a: a[0] == "havoc") else False,
                       "%s samples for the input %s" % (r.where, short(it)), e.where)
    paths = {}
    for e in samp:
        paths.setdefault(tuple(sorted((str(c), b) for c, b in e.facts.items() if c[0] in ("lt", "eq", "none"))), []).append(e)
    for es in paths.values():
        if len({e.where for e in es}) > 1:
            rep.bad("number of samples", r.where, "samples are requested at %s" % ", ".join(sorted({e.where for e in es})), r.loc)
    for e in r.events:
        if e.kind == "augitem" and credit(e) is not None:
            a = e.amount
            p = P(a) if isinstance(a, Poly) or not isinstance(a, tuple) or num_term(a) else None
            rep.decide("a sample counts once", e.stack[-1], None if p is None or e.flags else same(p, P(1), list(e.facts.items())),
                       "%s: a matching sample adds %s" % (r.where, short(a)), e.where)
            if repeated(I, e):
                rep.bad("a sample counts once", e.stack[-1], "%s: the search goes on after a match, so a sample is credited to every "
                        "equal entry" % r.where, e.where)
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None or unreliable(x):
            rep.dunno("relative frequencies", r.where, "returned value not modelled", r.loc)
            continue
        exp = Exp()
        fs = exp.facts(x)
        s = I.vsum(w)
        if s is None:
            rep.dunno("a sample counts once", r.where, "", r.loc)
        else:
            rep.decide("a sample counts once", r.where, at_most(I, s * k, k, fs, exp) if at_most(I, s, P(1), fs, exp) is not True else True,
                       "the estimates add up to %s" % short(upper(s)), r.loc)
        for g in w.segs:
            if g.n.const() == 0:
                continue
            t = I.term(x, g.v)
            if not (isinstance(t, Poly) or isinstance(t, tuple) and num_term(t)):
                rep.dunno("relative frequencies", r.where, "entry not modelled", r.loc)
                continue
            frequency(rep, r, P(t) * k, fs, exp, k)


def repeated(I, e):
    """The loop over the outcomes goes on after a credit, with nothing else to stop a second one."""
    s, i = credit(e)
    if s[0] == "states" or e.flags:
        return False
    its = [a for a in i.atoms() if a[0] == "it"]
    if len(its) != 1:
        return False
    for d in I.loopinfo.get(its[0][1][1], ()):
        if d["it"] != its[0]:
            continue
        own = {c: b for c, b in e.facts.items() if c not in d["entry"]}
        if not all(c[0] == "eqseq" for c in own):
            continue
        for end in d["ends"]:
            f = dict(end)
            if all(c[0] == "eqseq" for c in f) and any(b is True and own.get(c) is True for c, b in f.items()):
                return True
    return False


def looped(rep, r, e, k, where):
    """Samples requested one by one."""
    tot = P(e.n)
    for c in reversed(e.ctx):
        if isinstance(c, tuple) and c and c[0] == "it":
            if c[2] is None or mentions(tot, lambda a: a == c):
                tot = None
                break
            tot = tot * c[2]
    d = same(tot, k, list(e.facts.items())) if tot is not None else None
    rep.decide("number of samples", where, d, "%s requests %s samples instead of %s" % (r.where, short(tot) if tot is not None else "?", short(k)), e.where)


def matched(I, a):
    """The number of samples that were found among the outcomes."""
    rec = I.bcfacts.get((a[1][1], a[2]))
    if rec is None:
        return False
    return any(c[0] == "eqseq" and (is_sample(c[1]) or is_sample(c[2])) for f in rec[1] for c in dict(f))


def frequency(rep, r, c, fs, exp, k):
    """c, the entry times the number of samples, has to be a count: independent of that number."""
    q = P(c)
    if len(q.t) == 1:
        (mo, co), = q.t.items()
        if len(mo) == 1 and mo[0][0][0] == "item" and mo[0][0][1] and mo[0][0][1][0] == "lv" and mo[0][1] == 1:
            rep.decide("relative frequencies", r.where, co == 1, "counts are scaled by %s" % co, r.loc)
            return
        if any(a[0] == "item" and a[1] and a[1][0] == "lv" for a, _ in mo):
            # count times something else
            base = [a for a, e in mo if a[0] == "item" and a[1] and a[1][0] == "lv"][0]
            rest = P(1) * co
            for a, e in mo:
                if a != base:
                    rest = rest * power(A(a), e)
            d = same(rest, P(1), fs, over=exp.over)
            if d is None and mentions(rest, lambda a: a[0] == "bcount" and matched(r.I, a)):
                d = False
            rep.decide("relative frequencies", r.where, d, "a count is divided by %s instead of the number of samples"
                       % short(k * power(rest, -1)), r.loc)
            return
    rep.dunno("relative frequencies", r.where, "entry: %s" % short(q, 120), r.loc)


def c16(prog, tier):
    return [("t_c16", ("calculate_distribution", "configured")),
            ("t_c16", ("calculate_probabilities_of_outcomes", "configured")),
            ("t_c16", ("calculate_approximate_distribution", "passed")),
            ("t_c16", ("calculate_approximate_distribution", "default"))]


TASKS.update({"C08": c08, "C15": c15, "C16": c16})
