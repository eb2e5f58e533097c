"""C02: data owned by the caller is left alone."""
from .common import *

RULES["C02"] = (
    "Ownership analysis. Every value given by a caller (constructor, setter and call arguments, the data inside the "
    "objects handed over) carries its origin; aliases (plain references, asarray, views, elements) keep it and copies "
    "(list, array, deepcopy, arithmetic) drop it. Every in-place effect (item or slice store, augmented assignment on a "
    "list or array, mutating method, out=, shuffle, attribute store on a configuration record) met while interpreting "
    "any public operation, on the object state left by the constructor and by its setters, must have a target without "
    "a caller's origin. Collaborators are replaced by their contracts and analysed on their own.")


def mutation_findings(rep, r, where, events, what):
    n = 0
    for e in events:
        if e.kind != "mutate":
            continue
        n += 1
        if not e.roots or any(a[0] == "worker" for a in e.ctx):
            continue        # a worker process changes its own copy only
        if e.flags:
            rep.dunno("in-place effect", where, "after a handled exception: %s" % e.where)
            continue
        tgt = ", ".join(sorted(e.roots))
        rep.bad("in-place effect", "%s on %s" % (e.fn.qual if e.fn else where, tgt),
                "%s modifies %s in place (%s)" % (what, tgt, e.what), e.where)
    rep.holds("in-place effects of the operation", where, "%d in-place effects, none on caller data" % n)
    rep.count(inplace_effects=n)


def t_c02(prog, rep, cname, method):
    r = Run(prog, cname, method)
    mutation_findings(rep, r, r.where, r.ctor_events + r.events, r.where)
    rep.engine(r.I)


def t_c02_set(prog, rep, cname):
    """Data kept by a setter, then used by every computation."""
    S = Scenario(prog, contracts.build(prog))
    I = S.I
    cls = S.cls(cname)
    objs, _ = S.new(cls)
    for st, ref in objs[:1]:
        cur = [st]
        for n in sorted(all_setters(cls)):
            f = all_setters(cls)[n]
            nxt = []
            for x in cur:
                x = x.clone()
                p = f.params()[1]
                g = cls.find("getters", n)
                ann = p[1] if p[1] is not None else (g.node.returns if g else None)
                v = I.typed(x, ("param", "set." + n), n, ann, f.mod, frozenset(["value given to " + n]))
                nxt += I.set_attr(x, ref, n, v, f.node)
            cur = nxt[:4]
        for n in sorted(public_methods(cls)):
            for x in cur:
                try:
                    S.call(x, ref, n)
                except Missing:
                    pass
                I.exc = [[]]
    mutation_findings(rep, None, cname + " after its setters", I.events, cname)
    rep.engine(I)


def t_c02_fn(prog, rep, mod, name):
    r = FnRun(prog, mod, name)
    mutation_findings(rep, r, name, r.events, name)
    rep.engine(r.I)


def c02(prog, tier):
    out = []
    for c in concrete_classes(prog):
        ms = public_methods(c)
        for n in sorted(ms):
            out.append(("t_c02", (c.name, n)))
        if all_setters(c):
            out.append(("t_c02_set", (c.name,)))
    for f in module_functions(prog):
        out.append(("t_c02_fn", (f.mod.name, f.name)))
    return out


TASKS["C02"] = c02
