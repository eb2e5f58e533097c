"""C12: clamped settings.  C17: shapes rejected before computing."""
from .common import *

CPU = ("sym", "cpu_count", "int")

RULES["C12"] = (
    "The number of tasks handed to the worker pool (length of the mapped sequence, a symbolic expression of the "
    "requested thread number, cpu_count and the number of samples) and the number of approximated modes that reaches "
    "the Fourier and phase matrices are derived by abstract interpretation on every path. Obligations, decided by "
    "interval case analysis over the path's facts: 1 <= tasks <= cpu_count; tasks equal to the requested number when "
    "it is in that range (and there are at least that many samples); a worker count given to the pool is positive; "
    "approximated modes = the request clamped to 0..modes.")


def grid(p, facts, axes, tries=3, also=()):
    """Every interpretation of the path over the given axes: yields (model, values)."""
    def go(i, over):
        if i == len(axes):
            for s in range(tries):
                m = Model(s * 31 + 7, over)
                try:
                    if facts_hold(facts, m):
                        yield m, over
                        break
                except (Skip, ZeroDivisionError, OverflowError):
                    pass
            return
        atoms, vals = axes[i]
        for v in vals:
            o = dict(over)
            for a in atoms:
                o[a] = v
            for r in go(i + 1, o):
                yield r
    return go(0, {})


def mode_atoms(facts, *ps):
    e = Exp()
    for c, _ in facts:
        if c[0] in ("lt", "eq", "le"):
            e.see(c[1])
    for p in ps:
        e.see(p)
    return e.atoms


def t_c12_threads(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    I = r.I
    req = ("param", "ctor.threads_number", "int")
    k = ("param", "samples_number", "int")
    maps = [e for e in r.events if e.kind == "pool_map"]
    if not maps:
        rep.dunno("number of tasks", r.where, "no worker pool is used", r.loc)
    for e in maps:
        n = e.tasks
        if e.work is None or e.flags or any(a[0] != "worker" for a in e.ctx) or imprecise(n) or \
                mentions(n, lambda a: a[0] in ("rng", "rngi", "item", "sum")):
            rep.dunno("number of tasks", r.where, "tasks: %s" % short(n), e.where)
            continue
        fs = [(c, v) for c, v in e.facts.items() if c[0] in ("lt", "eq", "le")]
        bad = None
        seen = 0
        for m, o in grid(n, fs, [((req,), range(-3, 12)), ((CPU,), (1, 2, 3, 5, 8)), ((k,), (1, 2, 3, 7, 30))]):
            try:
                v = m.val(n)
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            seen += 1
            t, c, kk = o[req], o[CPU], o[k]
            why = None
            if v < 1:
                why = "no task at all"
            elif v > c:
                why = "%s tasks on %d processors" % (v, c)
            elif 1 <= t <= c and v != t and not (v < t and v >= min(t, kk)):
                why = "%s tasks when %d threads are asked for on %d processors" % (v, t, c)
            if why:
                bad = "%s (threads_number=%d, cpu_count=%d, samples_number=%d)" % (why, t, c, kk)
                break
        if bad:
            rep.bad("number of tasks", r.where, "the work is split into %s: %s" % (short(n), bad), e.where)
        elif seen:
            rep.holds("number of tasks", r.where, short(n), e.where)
    for e in r.events + r.ctor_events:
        if e.kind == "pool" and e.workers is not None and isinstance(e.workers, Num):
            n = e.workers.p
            if imprecise(n) or e.flags:
                continue
            fs = [(c, v) for c, v in e.facts.items() if c[0] in ("lt", "eq", "le")]
            bad = None
            for m, o in grid(n, fs, [((req,), range(-3, 12)), ((CPU,), (1, 2, 3, 5, 8)), ((k,), (1, 2, 3, 7, 30))]):
                try:
                    if m.val(n) < 1:
                        bad = str(o)
                        break
                except (Skip, ZeroDivisionError, OverflowError):
                    continue
            if bad:
                rep.bad("positive number of workers", r.where, "the pool gets %s workers for %s" % (short(n), short(bad)), e.where)
            else:
                rep.holds("positive number of workers", r.where, short(n), e.where)
    rep.engine(I)


def t_c12_modes(prog, rep, cname, pname):
    r = Run(prog, cname, "simulate")
    I = r.I
    req = ("param", "ctor." + pname, "int")
    for e in r.ctor_events + r.events:
        if e.kind not in ("qft", "phases"):
            continue
        if e.flags or imprecise(e.m):
            rep.dunno("approximated modes", r.where, short(e.m), e.where)
            continue
        fs = [(c, v) for c, v in e.facts.items() if c[0] in ("lt", "eq", "le")]
        ms = mode_atoms(fs, e.m, e.n)
        bad, seen = None, 0
        for m, o in grid(e.m, fs, [((req,), range(-3, 10)), (tuple(ms), (1, 2, 3, 5))], tries=12):
            try:
                v = m.val(e.m)
            except (Skip, ZeroDivisionError, OverflowError):
                continue
            seen += 1
            a, n = o[req], o[M]
            want = min(max(a, 0), n)
            if v != want:
                bad = "%s approximated modes when %d of %d are asked for (in range: %d)" % (v, a, n, want)
                break
        if bad:
            rep.bad("approximated modes", r.where, "%s: %s" % (short(e.m), bad), e.where)
        elif seen:
            rep.holds("approximated modes", "%s (%s)" % (r.where, e.kind), short(e.m), e.where)
    rep.engine(I)


def ctor_params(c):
    f = c.find_method("__init__")
    return [p[0] for p in f.params()] if f else []


def c12(prog, tier):
    out = []
    for n in strategies(prog):
        ps = ctor_params(prog.classes[n])
        if "threads_number" in ps:
            out.append(("t_c12_threads", (n,)))
        if "approximated_modes_number" in ps:
            out.append(("t_c12_modes", (n, "approximated_modes_number")))
    return out


TASKS["C12"] = c12

# ---------------------------------------------------------------------------------------- C17

RULES["C17"] = (
    "For the Ryser and Chin-Huh calculators, compute_permanent is abstractly interpreted on an object with symbolic "
    "matrix and states, as constructed and after every setter has given new ones. For every combination of small row "
    "and column numbers and state lengths the path conditions are evaluated: a returning path, or an access to an "
    "entry of the matrix, whose condition admits an inconsistent combination (not square, states of different length, "
    "states longer than the matrix) is a violation, and so is an explicit rejection that admits a consistent one or "
    "that is not an AttributeError.")

GUAN = ("RyserPermanentCalculator", "ChinHuhPermanentCalculator")


def shape_axes(facts, mt, it, ot, more=()):
    R, C, L_I, L_O = {("len", mt)}, set(), {("len", it)}, {("len", ot)}
    for c in facts:
        if c[0] in ("lt", "eq", "le"):
            for a in walk(c[1]):
                if a and a[0] == "len" and isinstance(a[1], tuple) and a[1] and a[1][0] == "item" and a[1][1] == mt:
                    C.add(a)
    C.add(("sym", "columns", "int"))
    return [(tuple(R), (1, 2, 3)), (tuple(C), (1, 2, 3)), (tuple(L_I), (1, 2, 3, 4)), (tuple(L_O), (1, 2, 3, 4))], \
        next(iter(R)), next(iter(C)), next(iter(L_I)), next(iter(L_O))


def shape_facts(fs, mt, it, ot):
    """Arithmetic facts about shapes only."""
    def shape(p):
        for mo in P(p).t:
            for a, e in mo:
                if a[0] == "len" and (a[1] in (mt, it, ot) or (isinstance(a[1], tuple) and a[1][0] == "item" and a[1][1] == mt)):
                    continue
                if a[0] in ("max", "min", "abs", "grp") and all(shape(x) for x in a[1:] if isinstance(x, Poly)):
                    continue
                return False
        return True
    out, other = [], []
    for c, v in fs.items():
        (out if c[0] in ("lt", "eq", "le") and shape(c[1]) else other).append((c, v))
    return out, other


def t_c17(prog, rep, cname, after_setters):
    S = Scenario(prog, {})
    I = S.I
    cls = S.cls(cname)
    objs, kw = S.new(cls)
    I.exc = [[]]
    where = "%s.compute_permanent%s" % (cname, " after its setters" if after_setters else "")
    pre = "set." if after_setters else "ctor."
    mt, it, ot = [("param", pre + n, "seq") for n in ("matrix", "input_state", "output_state")]
    for st, ref in objs:
        if any(c[0] == "none" and v for c, v in st.facts.items()) and not after_setters:
            continue
        cur = [st]
        if after_setters:
            for n in ("matrix", "input_state", "output_state"):
                f = cls.find("setters", n)
                if f is None:
                    raise Missing("%s.%s" % (cname, n))
                nxt = []
                for x in cur:
                    x = x.clone()
                    v = Unk(("param", "set." + n, "seq"), ("seq", ("seq", "complex")) if n == "matrix" else ("seq", "int"))
                    nxt += I.set_attr(x, ref, n, v, f.node)
                cur = nxt
        for x in cur:
            I.events = []
            I.watch_items = {mt}
            r, _ = S.call(x, ref, "compute_permanent")
            exc = [e for b in I.exc for e in b]
            I.exc = [[]]
            judge_shapes(rep, I, where, mt, it, ot, r, exc, I.events)
    rep.engine(I)


def consistent(R, C, a, b):
    return R == C and a == b and b <= C


def judge_shapes(rep, I, where, mt, it, ot, results, exc, events):
    def admits(facts, want):
        fs, other = shape_facts(facts, mt, it, ot)
        axes, R, C, a, b = shape_axes(facts, mt, it, ot)
        for m, o in grid(0, fs, axes, tries=1):
            if consistent(o[R], o[C], o[a], o[b]) == want:
                return "rows=%d columns=%d input length=%d output length=%d" % (o[R], o[C], o[a], o[b]), other
        return None, other
    for st, v in results:
        w, other = admits(st.facts, False)
        # conditions on values (empty states, loop conditions) do not excuse a missing shape check
        if w and unreliable(st):
            rep.dunno("no result for inconsistent shapes", where, "")
        elif w and any(opaque(c) for c, _ in other):
            rep.dunno("no result for inconsistent shapes", where, "condition not modelled")
        else:
            rep.decide("no result for inconsistent shapes", where, not w, "returns a result for %s" % w)
    for e in events:
        if e.kind != "elem" or e.flags:
            continue
        w, other = admits(e.facts, False)
        if w and any(opaque(c) for c, _ in other):
            continue
        rep.decide("no computation before the shape check", where, not w, "uses matrix entries for %s" % w, e.where)
    rejected = 0
    for st, name, node, fn in [(e[0], e[1], e[2], e[3] if len(e) > 3 else None) for e in exc]:
        if not isinstance(node, ast.Raise):
            continue
        w, other = admits(st.facts, True)
        fs, _ = shape_facts(st.facts, mt, it, ot)
        if not fs:
            if not other and not unreliable(st):
                rep.bad("consistent shapes are accepted", where, "every computation is rejected")
            continue
        rejected += 1
        if other or unreliable(st):
            rep.dunno("consistent shapes are accepted", where, "")
        else:
            rep.decide("consistent shapes are accepted", where, not w, "rejects %s" % w)
        rep.decide("rejection is an AttributeError", where, True if name == "AttributeError" else
                   None if not name or name in I.prog.classes else False, "raises %s" % name)
    if rejected:
        rep.holds("rejecting paths", where, "%d" % rejected)


def opaque(c):
    if c[0] not in ("lt", "eq", "le"):
        return c[0] != "none"
    # a comparison of something the engine could not describe
    return mentions(c[1], lambda a: a[0] in ("havoc", "call", "gencall"))


def c17(prog, tier):
    return [("t_c17", (c, b)) for c in GUAN for b in (False, True)]


TASKS["C17"] = c17
