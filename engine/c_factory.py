"""C05, C06: factories."""
from .common import *

RULES["C05"] = (
    "For every member of the two type enumerations, generate_strategy / generate_calculator is abstractly interpreted "
    "on a factory with a symbolic configuration, once with everything given to the constructor and once with every "
    "setting replaced through the factory's setters after construction, before or after a first generation. Obligations: on every path the returned object "
    "has the class the member stands for; each argument its constructor received is the term of the corresponding "
    "field of the current configuration (modes minus hierarchy level for the approximated modes); every setting is "
    "present in the state of the returned object.")
RULES["C06"] = (
    "Heap reachability on the same interpretation: the set of permanent-calculator objects reachable from a generated "
    "strategy is disjoint from those reachable from the factory, from the caller's arguments (constructor and setter) "
    "and from a second strategy generated by the same factory.")

MODES = {"ctor": "as constructed", "set": "after its setters", "regen": "reconfigured after a first generation"}
CALC = "calc"
STRATEGIES = {
    "FIXED_LOSS": ("FixedLossSimulationStrategy", {
        "interferometer_matrix": "interferometer_matrix", "number_of_photons_left": "number_of_particles_left",
        "number_of_observed_modes": "number_of_modes", "network_simulation_strategy": "network_simulation_strategy"}),
    "UNIFORM_LOSS": ("UniformLossSimulationStrategy", {
        "interferometer_matrix": "interferometer_matrix", "number_of_modes": "number_of_modes",
        "transmissivity": "uniform_transmissivity"}),
    "CLIFFORD_R": ("CliffordsRSimulationStrategy", {"interferometer_matrix": "interferometer_matrix"}),
    "GCC": ("GeneralizedCliffordsSimulationStrategy", {"bs_permanent_calculator": CALC}),
    "LOSSY_NET_GCC": ("LossyNetworksGeneralizedCliffordsSimulationStrategy", {"bs_permanent_calculator": CALC}),
    "UNIFORM_LOSSES_GCC": ("GeneralizedCliffordsUniformLossesSimulationStrategy", {
        "bs_permanent_calculator": CALC, "transmissivity": "uniform_transmissivity"}),
    "BOBS": ("NonuniformLossesApproximationStrategy", {
        "bs_permanent_calculator": CALC, "approximated_modes_number": "-", "threads_number": "threads"}),
    "UNIFORM_LOSSES_BOBS": ("LossyStateApproximationSimulationStrategy", {
        "bs_permanent_calculator": CALC, "uniform_transmissivity": "uniform_transmissivity",
        "hierarchy_level": "hierarchy_level", "threads_number": "threads"}),
    "LOSSLESS_MODES_STRATEGY": (None, {}),
}
CALCULATORS = {"CLASSIC": "ClassicPermanentCalculator", "GLYNN": "GlynnGrayPermanentCalculator",
               "CHIN_HUH": "ChinHuhPermanentCalculator", "RYSER": "RyserPermanentCalculator"}


def members(prog, ename):
    c = prog.classes.get(ename)
    if c is None:
        raise Missing(ename)
    return c, [n for n in c.attrs if not n.startswith("_")]


class Factory:
    """A symbolic factory; mode 'ctor' or 'set' says how its settings were given."""

    def __init__(self, prog, cname, ename, member, mode, vocab=None):
        self.prog = prog
        self.S = S = Scenario(prog, vocab if vocab is not None else contracts.build(prog))
        self.I = I = S.I
        enum, names = members(prog, ename)
        self.cls = S.cls(cname)
        other = names[(names.index(member) + 1) % len(names)]
        init = self.cls.find_method("__init__")
        tname = [p[0] for p in init.params() if p[0] in ("strategy_type", "calculator_type")]
        first = EnumV(enum, member if mode in ("ctor", "regen") or not all_setters(self.cls).get(tname[0] if tname else "") else other)
        objs, self.ckw = S.new(self.cls, {tname[0]: first} if tname else None)
        self.states = []          # (state, factory ref, {setting: value})
        self.caller = [v for v in self.ckw.values() if isinstance(v, Ref)]
        for st, ref in objs:
            xs = [(st, dict(self.ckw))]
            if mode == "regen":
                gen = "generate_strategy" if self.cls.find_method("generate_strategy") else "generate_calculator"
                xs = [(x, dict(self.ckw)) for x, _ in S.call(st, ref, gen)[0] if not x.flags][:3]
            if mode != "ctor":
                for n, f in sorted(all_setters(self.cls).items()):
                    nxt = []
                    for x, cur in xs:
                        x = x.clone()
                        if n in tname:
                            v = EnumV(enum, member)
                        else:
                            g = self.cls.find("getters", n)
                            p = f.params()[1]
                            ann = p[1] if p[1] is not None else (g.node.returns if g else None)
                            v = I.typed(x, ("param", "set." + n), n, ann, f.mod)
                        cur = dict(cur, **{n: v})
                        if isinstance(v, Ref):
                            self.caller.append(v)
                        nxt += [(y, cur) for y in I.set_attr(x, ref, n, v, f.node)]
                    xs = nxt
            for x, cur in xs:
                self.states.append((x, ref, cur))
        I.exc = [[]]


def reach(I, st, v, seen=None):
    """Addresses of heap objects reachable from a value."""
    seen = {} if seen is None else seen
    if isinstance(v, Bnd):
        reach(I, st, v.obj, seen)
    elif isinstance(v, FSeq):
        for s in v.segs:
            reach(I, st, s.v, seen)
    elif isinstance(v, Alt):
        for x in v.vs:
            reach(I, st, x, seen)
    elif isinstance(v, XObj):
        for x in v.data.values():
            if isinstance(x, Val):
                reach(I, st, x, seen)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, Val):
                        reach(I, st, y, seen)
    elif isinstance(v, Ref) and v.a not in seen:
        c = st.heap.get(v.a)
        seen[v.a] = c
        if isinstance(c, SeqCell):
            for s in c.segs:
                reach(I, st, s.v, seen)
        elif isinstance(c, ObjCell):
            for x in c.fields.values():
                reach(I, st, x, seen)
        elif isinstance(c, DictCell):
            for e in c.entries:
                reach(I, st, e[2], seen)
    return seen


def is_calc(c):
    return isinstance(c, ObjCell) and c.cls is not None and any(
        k.find_method("compute_permanent") is not None for k in c.cls.mro()[:1])


def calcs(I, st, v):
    return {a: c for a, c in reach(I, st, v).items() if is_calc(c)}


def field(I, x, ref, name, node):
    r = I.get_attr(x, ref, name, node)
    return r[0][1] if r else None


def t_c05(prog, rep, member, mode):
    F = Factory(prog, "SimulationStrategyFactory", "StrategyType", member, mode)
    I = F.I
    want, wires = STRATEGIES.get(member, ("?", {}))
    where = "SimulationStrategyFactory %s (%s)" % (member, MODES[mode])
    fn = F.cls.find_method("generate_strategy")
    loc = "%s:%d" % (fn.mod.rel, fn.node.lineno)
    if want is None and mode == "ctor":
        where = "SimulationStrategyFactory %s" % member
    elif want is None:
        return
    reached = {}
    for st, ref, cur in F.states:
        I.events = []
        res, _ = F.S.call(st, ref, "generate_strategy")
        news = [e for e in I.events if e.kind == "new"]
        for x, v in res:
            if unreliable(x):
                rep.dunno("requested type", where, "path after a handled exception", loc)
                continue
            for o in (v.vs if isinstance(v, Alt) else [v]):
                c = x.heap.get(o.a) if isinstance(o, Ref) else None
                if not isinstance(c, ObjCell) or c.cls is None:
                    if isinstance(o, Cst) and o.v is None:
                        rep.bad("requested type", where, "no strategy is returned, " + path(x), loc)
                    else:
                        rep.dunno("requested type", where, "returned value not modelled", loc)
                    continue
                if want == "?":
                    rep.dunno("requested type", where, "unknown member", loc)
                    continue
                if want is None:
                    ok = c.cls.name not in [w for w, _ in STRATEGIES.values()]
                    rep.decide("requested type", where, ok, "silently yields a %s" % c.cls.name, loc)
                    continue
                ok = c.cls.name == want or want in [k.name for k in c.cls.mro()]
                rep.decide("requested type", where, ok, "yields a %s instead of a %s, %s" % (c.cls.name, want, path(x)), loc)
                if not ok:
                    continue
                env = next((e.env for e in reversed(news) if e.ref == o), None)
                for p, src in wires.items():
                    wire(rep, F, x, o, env, p, src, cur, where, loc, reached)
    for p, ok in reached.items():
        rep.decide("setting reaches the strategy", "%s: %s" % (where, p), ok,
                   "%s of the configuration is not part of the strategy's state" % p, loc)
    rep.engine(I)


def wire(rep, F, x, o, env, p, src, cur, where, loc, reached):
    I = F.I
    cfg = cur.get("experiment_configuration")
    if src == CALC:
        exp = I.term(x, cur.get("bs_permanent_calculator"))
    elif src == "threads":
        t = cur.get("available_threads_number")
        exp = I.term(x, t) if t is not None else as_term(P(-1))
    elif src == "-":
        a = field(I, x, cfg, "number_of_modes", None)
        b = field(I, x, cfg, "hierarchy_level", None)
        exp = as_term(I.to_poly(x, a) - I.to_poly(x, b))
    else:
        exp = I.term(x, field(I, x, cfg, src, None))
    name = "%s: %s" % (where, p)
    got = env.get(p) if env else None
    if got is None:
        rep.dunno("setting from the configuration", name, "constructor argument not seen", loc)
    else:
        gt = I.term(x, got)
        if gt == exp:
            d = True
        elif num_term(gt) and num_term(exp):
            fs = list(x.facts.items())
            if src == "-":
                # the strategy itself limits the number to what there is
                m = I.to_poly(x, field(I, x, cfg, "number_of_modes", None))
                d = same(pmax(0, pmin(P(gt), m)), pmax(0, pmin(P(exp), m)), fs + [(("lt", m - 1), False)])
            elif src == "threads":
                # requests below one mean "all"
                e = P(exp)
                d = same(P(gt), e, fs + [(("lt", e - 1), False)]) if e.const() is None else \
                    (True if P(gt).const() is not None and P(gt).const() < 1 else same(P(gt), e, fs))
            else:
                d = same(P(gt), P(exp), fs)
        else:
            d = None if imprecise_term(gt) else False
        rep.decide("setting from the configuration", name, d, "is %s instead of %s, %s" % (short(gt), short(exp), path(x)), loc)
    if src in (CALC, "-") or isinstance(exp, Poly):
        return
    key = exp if isinstance(exp, tuple) else None
    if key is None:
        return
    hit = any(a == key for a in I.deep_atoms(x, o)) or any(
        isinstance(c, ObjCell) and c.lazy == key for c in reach(I, x, o).values())
    reached[p] = reached.get(p, False) or hit


def t_c05_calc(prog, rep, member, mode):
    F = Factory(prog, "BSPermanentCalculatorFactory", "PermanentCalculatorType", member, mode)
    I = F.I
    want = CALCULATORS.get(member)
    where = "BSPermanentCalculatorFactory %s (%s)" % (member, MODES[mode])
    fn = F.cls.find_method("generate_calculator")
    loc = "%s:%d" % (fn.mod.rel, fn.node.lineno)
    for st, ref, cur in F.states:
        res, _ = F.S.call(st, ref, "generate_calculator")
        for x, v in res:
            if unreliable(x) or want is None:
                rep.dunno("requested type", where, "", loc)
                continue
            for o in (v.vs if isinstance(v, Alt) else [v]):
                c = x.heap.get(o.a) if isinstance(o, Ref) else None
                if not isinstance(c, ObjCell) or c.cls is None:
                    rep.decide("requested type", where, False if isinstance(o, Cst) and o.v is None else None,
                               "no calculator is returned", loc)
                    continue
                ok = want in [k.name for k in c.cls.mro()]
                rep.decide("requested type", where, ok, "yields a %s instead of a %s, %s" % (c.cls.name, want, path(x)), loc)
                for p in ("matrix", "input_state", "output_state"):
                    exp = I.term(x, cur[p])
                    got = field(I, x, o, p, None)
                    gt = I.term(x, got) if got is not None else None
                    rep.decide("setting from the configuration", "%s: %s" % (where, p),
                               True if gt == exp else (None if gt is None or imprecise_term(gt) else False),
                               "is %s instead of %s, %s" % (short(gt), short(exp), path(x)), loc)
    rep.engine(I)


def c05(prog, tier):
    out = []
    for m in members_of(prog, "StrategyType"):
        for mode in MODES:
            out.append(("t_c05", (m, mode)))
    for m in members_of(prog, "PermanentCalculatorType"):
        for mode in MODES:
            out.append(("t_c05_calc", (m, mode)))
    return out


def members_of(prog, e):
    try:
        return members(prog, e)[1]
    except Missing:
        return ["?"]


def t_c06(prog, rep, member, mode):
    F = Factory(prog, "SimulationStrategyFactory", "StrategyType", member, mode)
    I = F.I
    where = "SimulationStrategyFactory %s (%s)" % (member, MODES[mode])
    fn = F.cls.find_method("generate_strategy")
    loc = "%s:%d" % (fn.mod.rel, fn.node.lineno)
    for st, ref, cur in F.states:
        res, _ = F.S.call(st, ref, "generate_strategy")
        for x, v in res[:8]:
            if not isinstance(v, Ref) or unreliable(x):
                rep.dunno("own calculator", where, "returned value not modelled", loc)
                continue
            mine = calcs(I, x, v)
            fac = calcs(I, x, ref)
            given = {}
            for w in F.caller:
                given.update(calcs(I, x, w))
            a = set(mine) & set(fac)
            b = set(mine) & set(given)
            rep.decide("not the factory's calculator", where, not a, "the strategy uses the factory's own calculator", loc)
            rep.decide("not the caller's calculator", where, not b, "the strategy uses the calculator object given by the caller", loc)
            rep.decide("factory does not keep the caller's calculator", where, not (set(fac) & set(given)),
                       "the factory keeps the calculator object given by the caller", loc)
            r2, _ = F.S.call(x, ref, "generate_strategy")
            for y, w in r2[:4]:
                if not isinstance(w, Ref) or unreliable(y):
                    rep.dunno("not shared between strategies", where, "", loc)
                    continue
                sh = set(calcs(I, y, v)) & set(calcs(I, y, w))
                rep.decide("not shared between strategies", where, not sh,
                           "two strategies of one factory use one calculator object", loc)
    rep.engine(I)


def c06(prog, tier):
    return [("t_c06", (m, mode)) for m in members_of(prog, "StrategyType") for mode in MODES]


TASKS.update({"C05": c05, "C06": c06})
