"""C07: fresh, independent randomness for every sample and every particle."""
from .c_approx import t_c14_phases
from .common import *

RULES["C07"] = (
    "Every draw from a random generator is an atom that carries the loop iterations in which it is made. For each "
    "returned list of samples: every draw the sample template depends on, through data, loop-exit and branch "
    "dependences and through the helper strategies' inputs and matrices, carries the sample's own iteration (or is "
    "indexed by it). Decisions (comparisons with a draw, increments at a drawn place) inside a sample must use a draw "
    "of their own iteration, except for the search loop over cumulative weights. No call seeds or restores a global "
    "generator, draws from a generator seeded with a constant, maps sampling work onto workers that are forked from "
    "the parent, or sends a generator object to several workers.")

BUNCHING = ("LossyStateApproximationSimulationStrategy", "NonuniformLossesApproximationStrategy")


def proper(a, ix):
    """The draw is made for (or indexed by) iteration ix itself, not only for the worker that contains it."""
    def strip(t):
        if isinstance(t, tuple):
            if t and t[0] == "anyit":
                return ()
            return tuple(strip(x) for x in t)
        if isinstance(t, Poly):
            return tuple(tuple(strip(z[0]) for z in mo) for mo in t.t)
        return t
    k = strip((a[3], a[4]))
    return deep(k, ix)


def deep(t, ix):
    if t == ix:
        return True
    if isinstance(t, tuple):
        return any(deep(x, ix) for x in t)
    if isinstance(t, Poly):
        return mentions(t, lambda z: z == ix)
    return False


def depth(a, ix):
    """Position of the sample's iteration in the draw's context."""
    for i, c in enumerate(a[3]):
        if proper((None, None, None, (c,), None), ix):
            return i
    return None


def site(a):
    return str(a[1])


def loc_of(a):
    return site(a)


def t_c07(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    I = r.I
    shared(rep, r, I)
    decisions(rep, r, I, cname)
    phases(rep, r, I)
    hygiene(rep, r, I)
    rep.engine(I)


def shared(rep, r, I):
    for st, ref, x, v in r.results:
        w = I.view(x, v)
        if w is None or unreliable(x):
            rep.dunno("draws of one sample", r.where, "", r.loc)
            continue
        for g in w.segs:
            if g.n.const() is not None and g.n.const() <= 1:
                continue
            at = I.rng_deps(list(I.deep_atoms(x, g.v)))
            if not at:
                rep.dunno("draws of one sample", r.where, "no draw seen in the samples", r.loc)
                continue
            ds = [d for d in (depth(a, g.ix) for a in at) if d is not None]
            carried(rep, r, I, x, g, ds)
            groups = {}
            for a in at:
                groups.setdefault((site(a), len(a[3])), []).append(a)
            for (s, n), grp in sorted(groups.items(), key=lambda z: str(z[0])):
                name = "%s: draw in %s" % (r.where, s.split(":")[0].split(".")[-1])
                if any(proper(a, g.ix) for a in grp):
                    rep.holds("draws of one sample", name, "", s)
                    continue
                if ds:
                    bad = n <= min(ds)
                else:
                    bad = all(not iterations(a) for a in grp)
                if any(iterations(a, idx=True) for a in grp) and bad:
                    rep.dunno("draws of one sample", name, "", s)
                    continue
                if bad:
                    rep.bad("draws of one sample", name, "the draw at %s is made once and used for all %s samples of a list" %
                            (s, short(g.n, 80)), s)
                else:
                    rep.dunno("draws of one sample", name, "", s)


def carried(rep, r, I, x, g, ds):
    """Draws of earlier samples that reach a sample through state kept between the iterations of the sample loop."""
    if not ds:
        return
    for a in set(I.deep_atoms(x, g.v)):
        if a and a[0] == "phi" and isinstance(a[1], tuple) and len(a[1]) == 3 and len(a[1][2]) == min(ds):
            draws = I.phideps.get((a[1][1], a[2]))
            if draws:
                s = sorted(site(d) for d in draws)[0]
                rep.bad("draws of one sample", "%s: %s" % (r.where, str(a[2]).split(".")[-1]),
                        "%s keeps what was drawn at %s for an earlier sample" % (a[2], s), s)


def iterations(a, idx=False):
    """Loop iterations (other than workers) the draw belongs to."""
    if idx:
        return a[4] is not None and any(z and z[0] in ("it", "anyix", "brk") for z in walk(a[4]))
    return [c for c in a[3] if not (isinstance(c, tuple) and c and c[0] in ("worker", "anyit"))]


def carries(a, it):
    return any(deep(c, it) for c in a[3]) or a[4] is not None and deep(a[4], it)


def decisions(rep, r, I, cname):
    n = 0
    seen = set()
    for e in r.events + r.ctor_events:
        if e.kind not in ("rngcmp", "augitem") or e.flags:
            continue
        loops = [c for c in e.ctx if isinstance(c, tuple) and c and c[0] == "it"]
        if not loops:
            continue
        if e.kind == "augitem":
            if cname in BUNCHING:
                continue
            at = {a for a in I.rng_deps(list(walk(e.key)))} if not isinstance(e.key, str) else set()
            if not at:
                continue
            n += 1
            inner = loops[-1]
            # the place is the same in every iteration of the innermost loop
            if any(carries(a, inner) for a in at) or deep(e.key, inner) or mentions(e.key, lambda z: z == inner[1]):
                continue
            if any(not isinstance(c, tuple) or c[0] != "it" for a in at for c in a[3]
                   if not (isinstance(c, tuple) and c and c[0] == "worker")):
                continue
            k = ("augitem", e.where)
            if k not in seen:
                seen.add(k)
                rep.bad("one draw per particle", "%s: %s" % (r.where, e.fn.name if e.fn else ""),
                        "every iteration of a loop adds at the place drawn once at %s" % sorted(site(a) for a in at)[0], e.where)
            continue
        at = [z for z in walk(e.cond[1]) if z and z[0] == "rng" and len(z) == 6]
        if not at:
            continue
        n += 1
        if any(not (isinstance(c, tuple) and c and c[0] in ("it", "worker")) for a in at for c in a[3]):
            continue
        # the most recent draw is the one that decides
        for a in sorted(at, key=lambda a: (len([l for l in loops if not carries(a, l)]), repr(a)))[:1]:
            extra = [l for l in loops if not carries(a, l)]
            if not extra:
                continue
            if len(extra) == 1:
                rest = subst(e.cond[1], {a: P(0)}) if isinstance(e.cond[1], Poly) else None
                if rest is None or mentions(rest, lambda z: z == extra[0] or z == extra[0][1]) or imprecise(rest):
                    continue
                msg = "the same draw decides every iteration of a loop"
            else:
                msg = "the same draw is searched for in every iteration of a loop"
            k = (site(a), msg)
            if k not in seen:
                seen.add(k)
                rep.bad("one draw per particle", "%s: draw in %s" % (r.where, site(a).split(":")[0].split(".")[-1]), msg + " (draw at %s)" % site(a), e.where)
    if n and not seen:
        rep.holds("one draw per particle", r.where, "%d decisions" % n, r.loc)


def phases(rep, r, I):
    """States handed to the network: a random phase of its own for every mode."""
    seen = set()
    for e in r.events:
        if e.kind != "rngcmp":
            continue
        for t in walk(e.cond[1]):
            if not (t and t[0] == "evolved" and len(t) > 2 and isinstance(t[2], tuple) and t[2] and t[2][0] == "seq") or t in seen:
                continue
            seen.add(t)
            for g in t[2][1:]:
                if not (isinstance(g, tuple) and len(g) == 3) or P(g[0]).const() is not None:
                    continue
                at = [z for z in walk(g[1]) if z and z[0] in ("rng", "rngi")]
                if not at:
                    continue
                name = "%s: draw in %s" % (r.where, site(at[0]).split(":")[0].split(".")[-1])
                if any(deep(z, g[2]) for z in at):
                    rep.holds("one phase per mode", name, "", e.where)
                else:
                    rep.bad("one phase per mode", name, "one draw (%s) serves all modes of the state" % site(at[0]), e.where)


def hygiene(rep, r, I):
    evs = r.ctor_events + r.events
    seeds = [e for e in evs if e.kind == "seeding"]
    for e in seeds:
        if e.fresh:
            rep.dunno("generators are never seeded", r.where, e.fname, e.where)
        else:
            rep.bad("generators are never seeded", "%s: %s" % (r.where, e.fn.name if e.fn else ""), "calls %s" % e.fname, e.where)
    if not seeds:
        rep.holds("generators are never seeded", r.where, "", r.loc)
    for e in evs:
        if e.kind == "seeded_draw":
            s = e.gen.data.get("seed")
            fixed = isinstance(s, Cst) or isinstance(s, Num) and s.p.const() is not None
            if fixed:
                rep.bad("generators are never seeded", "%s: %s" % (r.where, e.fn.name if e.fn else ""),
                        "draws from a generator seeded with %s" % short(s.v if isinstance(s, Cst) else s.p), e.where)
            else:
                rep.dunno("generators are never seeded", r.where, "", e.where)
    started = {e.method for e in evs if e.kind == "set_start_method"}
    draws = [e for e in r.events if e.kind == "draw"]
    for e in evs:
        if e.kind != "pool_map":
            continue
        pool = e.pool
        if pool.data.get("thread"):
            continue
        wk = [d for d in draws if any(isinstance(c, tuple) and c and c[0] == "worker" for c in d.ctx)]
        if not wk:
            continue
        m = pool.data.get("method")
        if m == "default" and started:
            m = started.pop() if len(started) == 1 else None
        if m in ("spawn", "forkserver"):
            rep.holds("workers start with fresh generators", r.where, "start method %s" % m, e.where)
        elif m in ("fork", "default") and pool.data.get("init") is None:
            rep.bad("workers start with fresh generators", r.where, "sampling is mapped onto workers started by %s, "
                    "which inherit the parent's generator state" % ("fork" if m == "fork" else "the default method (fork)"), e.where)
        else:
            rep.dunno("workers start with fresh generators", r.where, "start method %s" % m, e.where)
        sent(rep, r, I, e)


def sent(rep, r, I, e):
    """Generator objects inside what is sent to the workers."""
    st = r.results[-1][2] if r.results else None
    f = e.func
    if st is None or not isinstance(f, Bnd) or not isinstance(f.obj, Ref):
        return
    todo, seen = [f.obj], set()
    while todo:
        x = todo.pop()
        if isinstance(x, XObj):
            if x.kind == "generator" and not x.data.get("seeded"):
                rep.bad("workers start with fresh generators", r.where, "a generator object is copied to every task", e.where)
                return
            continue
        if not isinstance(x, Ref) or x.a in seen:
            continue
        seen.add(x.a)
        c = st.heap.get(x.a)
        if isinstance(c, ObjCell):
            todo += list(c.fields.values())


def t_c07_phases(prog, rep, mod, name):
    one = Report()
    t_c14_phases(prog, one, mod, name)
    rep.stats = one.stats
    for o in one.obs:
        if o.verdict == "undecided" or o.rule == "one phase per mode":
            rep.obs.append(o)
        elif o.verdict == "holds":
            rep.holds("one phase per mode", o.where, "", o.loc)


# ---------------------------------------------------------------------------------------- whole package

SEEDERS = {"numpy.random.seed", "random.seed", "numpy.random.set_state", "random.setstate"}


def t_c07_seeding(prog, rep):
    """No call of a seeding function anywhere in the package."""
    for m in sorted(prog.mods.values(), key=lambda m: m.name):
        names = {}
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom) and node.module and not node.level:
                for a in node.names:
                    names[a.asname or a.name] = node.module + "." + a.name
        hits = 0
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call):
                q = dotted(node.func, names)
                if q in SEEDERS:
                    none = not node.args and not node.keywords or \
                        len(node.args) == 1 and isinstance(node.args[0], ast.Constant) and node.args[0].value is None
                    fn = enclosing(m, node)
                    w = "%s: %s" % (m.rel, fn)
                    hits += 1
                    if none:
                        rep.dunno("generators are never seeded", w, q, "%s:%d" % (m.rel, node.lineno))
                    else:
                        rep.bad("generators are never seeded", w, "calls %s" % q, "%s:%d" % (m.rel, node.lineno))
        if not hits:
            rep.holds("generators are never seeded", m.rel, "", m.rel)


def dotted(f, names):
    parts = []
    while isinstance(f, ast.Attribute):
        parts.append(f.attr)
        f = f.value
    if not isinstance(f, ast.Name) or f.id not in names:
        return None
    return ".".join([names[f.id]] + parts[::-1])


def enclosing(m, node):
    best = "<module>"
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= node.lineno <= (n.end_lineno or n.lineno):
            best = n.name
    return best


def c07(prog, tier):
    return [("t_c07", (c,)) for c in strategies(prog)] + [("t_c07_seeding", ())] + \
        [("t_c07_phases", (m.name, "generate_random_phases_matrix_for_first_m_modes")) for m in prog.mods.values()
         if m.name.endswith("boson_sampling_utilities.boson_sampling_utilities")]


TASKS["C07"] = c07
