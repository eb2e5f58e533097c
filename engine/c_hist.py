"""C01: results never depend on earlier calls."""
from .common import *
from .lib import ety_of
from . import contracts as ct

RULES["C01"] = (
    "Two-run dependence analysis by abstract interpretation. For every class, every public computation is analysed on a "
    "freshly constructed object to find the locations it leaves changed (fields of the object and of everything reachable "
    "from it, mutable containers, class attributes and module globals). Those locations are then replaced by symbolic "
    "leftovers, and every computation is analysed again, on its own and after every setter: no leftover may reach the "
    "result, by data or control, through loops included. Where one does (a cache), the histories 'computation, [setter,] "
    "computation' are analysed: the result must not depend on an argument or a draw of the earlier call (except where it "
    "was found equal to the present one) nor on a setting that a setter has replaced.")


def settings(c):
    """Operations that change the configuration: name -> (kind, function)."""
    out = {n: ("prop", f) for n, f in all_setters(c).items()}
    for n, f in public_methods(c).items():
        if n.startswith("set"):
            out[n] = ("method", f)
    return out


def computations(c):
    return {n: f for n, f in public_methods(c).items() if not n.startswith("set") and not f.is_static}


def reach(st, ref):
    """Addresses reachable from a reference, with a path that leads there."""
    out, todo, seen = [], [(ref, ())], set()
    while todo:
        v, p = todo.pop(0)
        if isinstance(v, Alt):
            todo += [(x, p) for x in v.vs]
        elif isinstance(v, Bnd) and v.obj is not None:
            todo.append((v.obj, p))
        elif isinstance(v, Ref) and v.a not in seen:
            seen.add(v.a)
            c = st.heap.get(v.a)
            out.append((v.a, p))
            if isinstance(c, ObjCell):
                todo += [(x, p + (n,)) for n, x in sorted(c.fields.items(), key=lambda z: str(z[0]))]
            elif isinstance(c, SeqCell):
                todo += [(g.v, p + ("[]",)) for g in c.segs]
            elif isinstance(c, DictCell):
                todo += [(e[2], p + ("[]",)) for e in c.entries]
    return out


def unchanged(a, b):
    return a is b or type(a) is type(b) and repr(a) == repr(b)


class Hist:
    """One class: constructed object, what its computations leave behind (W)."""

    def __init__(self, prog, cname, W=None):
        self.S = Scenario(prog, ct.build(prog))
        self.I = I = self.S.I
        I.watch_hist = True
        I.fresh_globals = True
        BOUNDS[("param", "ctor.hierarchy_level", "int")] = (P(0), None)
        for h in ("", "h."):
            BOUNDS[("len", ("param", h + "input_state", "seq"))] = (P(1), None)
        self.cls = self.S.cls(cname)
        self.cname = cname
        self.mine = [(), (), (), (), ()]
        self.shared(prog)
        self.objs, self.ckw = self.S.new(self.cls)
        init = self.cls.find_method("__init__")
        opt = [n for n, _, d, _ in init.params()[1:] if isinstance(d, ast.Constant) and d.value is None] if init is not None else []
        if opt:
            # and with the optional arguments left out
            self.objs = list(self.objs) + list(self.S.new(self.cls, {n: NONE for n in opt})[0])
        self.reset()
        self.W = W or {}        # (path, field or None) -> description of what is left there

    def shared(self, prog):
        """State shared by all objects: mutable module and class level containers, mutable defaults, assigned globals."""
        I, st = self.I, self.S.st
        I.overlay = I.addr()
        I.globals[("shared",)] = I.overlay
        st.heap[I.overlay] = ObjCell(None, {})
        names = {n for m, f in prog.functions() for g in ast.walk(f) if isinstance(g, ast.Global) for n in g.names}
        attrs = {t.attr for m, f in prog.functions() for t in ast.walk(f)
                 if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)}
        for m in prog.mods.values():
            for n, r in m.scope.items():
                r = prog.resolve_name(m, n)
                if isinstance(r, tuple) and r[0] == "const" and r[1] is m:
                    v = I.from_resolved(r, st)
                    if n in names:
                        st.setf(I.overlay, ("m", m.name, n), v)
        for c in prog.classes.values():
            if c.is_enum:
                continue
            for n, e in c.attrs.items():
                v = I.global_value(("c", c.name, n), c.mod, e, st)
                if n in attrs:
                    st.setf(I.overlay, ("c", c.name, n), v)
            for f in list(c.methods.values()):
                self.defaults(f)
        for f in module_functions(prog):
            self.defaults(f)
        self.reset()

    def defaults(self, f):
        for p in f.params():
            if isinstance(p[2], (ast.List, ast.Dict, ast.Set)) or isinstance(p[2], ast.Call) and \
                    ast.unparse(p[2].func) in ("list", "dict", "set", "defaultdict"):
                self.I.global_value(("d", f.qual, p[0]), f.mod, p[2], self.S.st)

    def history(self, st, ref, m):
        """[(state after, changes)] of a computation with arguments and draws of its own."""
        x0 = st.clone()
        x0.ctx = (("hist", "run"),)
        rs, _ = self.S.call(x0, ref, m, prefix="h.")
        self.reset()
        return [(x, self.changes(st, ref, x)) for x, v in rs]

    def reset(self):
        self.I.exc = [[]]
        self.I.events = []

    def changes(self, st, ref, x):
        out = {}
        addrs = reach(st, ref) + [(a, gpath(k)) for k, a in self.I.globals.items()]
        for a, p in addrs:
            c0, c1 = st.heap.get(a), x.heap.get(a)
            if c1 is None or c0 is None:
                continue
            if isinstance(c1, ObjCell):
                for f in sorted(set(c1.fields), key=str):
                    v1 = c1.fields[f]
                    if f in c0.fields:
                        if not unchanged(c0.fields[f], v1):
                            out[(a, p, f)] = v1
                    elif not (c1.lazy is not None and own_field(x, c1.lazy, f, v1)):
                        out[(a, p, f)] = v1
            elif not unchanged(c0, c1):
                out[(a, p, None)] = c1
        return out

    def describe(self, x, v):
        """What kind of value is left in a location."""
        I = self.I
        out = set()
        for z in v.vs if isinstance(v, Alt) else (v,):
            if isinstance(z, (DictCell, SeqCell)):
                c = z
            else:
                c = x.heap.get(z.a) if isinstance(z, Ref) else None
            if isinstance(c, DictCell):
                out.add(("dict",))
            elif isinstance(c, ObjCell):
                out.add(("obj", c.cls.name if c.cls is not None else None))
            elif isinstance(c, SeqCell):
                out.add(("cell", c.kind, ety_of(I, c.segs) if c.segs else "any"))
            elif isinstance(z, Num):
                out.add(("num", z.ty))
            elif isinstance(z, CondV) or isinstance(z, Cst) and isinstance(z.v, bool):
                out.add(("bool",))
            elif isinstance(z, Cst):
                out.add(("none",) if z.v is None else ("any",))
            else:
                w = I.view(x, z)
                if w is not None:
                    out.add(("seq", ety_of(I, w.segs) if w.segs else "any"))
                else:
                    out.add(("any",))
        return out

    def leftover(self, st, ref, keep=()):
        """The object after an arbitrary history of computations (except for the locations to keep)."""
        I = self.I
        y = st.clone()
        at = {p: a for a, p in reversed(reach(st, ref))}
        for k, a in I.globals.items():
            at[gpath(k)] = a
        for (p, f), kinds in sorted(self.W.items(), key=lambda z: (z[0][0], str(z[0][1]))):
            a = at.get(p)
            if a is None or a not in y.heap:
                continue
            name = ".".join(p + ((str(f),) if f is not None else ()))
            if name in keep:
                continue
            if f is not None:
                y.setf(a, f, self.symbolic(y, name, kinds))
            else:
                r = self.symbolic(y, name, kinds)
                if isinstance(r, Ref) and type(y.heap[r.a]) is type(y.heap[a]):
                    y.heap[a] = y.heap[r.a]
        return y

    def symbolic(self, y, name, kinds):
        I = self.I
        t = ("hist", name)
        by = {k[0]: k for k in sorted(kinds, key=str)}
        if "dict" in by:
            return I.alloc(y, DictCell("hist", term=t))
        if "obj" in by and by["obj"][1] in self.S.prog.classes:
            return I.alloc(y, ObjCell(self.S.prog.classes[by["obj"][1]], {}, lazy=t + ("obj",), origin=("sym", t)))
        if "cell" in by:
            q = t + ("seq",)
            ix = I.ix()
            return I.alloc(y, SeqCell(by["cell"][1], (Seg(seq_len(q), ix, I.elem_of(q, A(ix), by["cell"][2], EMPTY)),)))
        if "seq" in by:
            return Unk(t + ("seq",), ("seq", by["seq"][1]))
        if "num" in by:
            return Num(A(("val", t, by["num"][1])), by["num"][1])
        if set(by) == {"bool"}:
            return Unk(t + ("bool",), "bool")
        return Unk(t, "any")

    def set(self, st, ref, name, prefix="new."):
        """States after a setter or set_... method."""
        kind, f = settings(self.cls)[name]
        x = st.clone()
        kw = self.S.params(x, f, 1, None, prefix)
        out = [y for y, _ in self.I.call_fn(f, [ref], dict(kw), x, f.node)]
        self.reset()
        return out, kw

    def run(self, st, ref, m):
        """[(state, value, facts new on this path)]"""
        base = st.facts
        st = st.clone()
        st.ctx = ()
        self.I.events = []
        self.I.rngdeps = {k: l for k, l in self.I.rngdeps.items() if k[1]}
        # what the loops of the previous run depended on does not concern this one
        tabs = (self.I.ldeps, self.I.locdeps, self.I.lvdeps, self.I.deps, self.I.phideps)
        for t, ks in zip(tabs, self.mine):
            for k in ks:
                t.pop(k, None)
        before = [set(t) for t in tabs]
        rs, _ = self.S.call(st, ref, m)
        self.mine = [set(t) - b for t, b in zip(tabs, before)]
        self.I.exc = [[]]
        return [(x, v, {c: b for c, b in x.facts.items() if base.get(c) != b}) for x, v in rs]

    def atoms(self, x, v, facts):
        """(atoms the value depends on, atoms the path depends on)"""
        I = self.I
        data = I.all_deps(I.deep_atoms(x, v), x.facts)
        ctl = I.all_deps(a for c in facts for p in c[1:] if isinstance(p, (tuple, Poly)) for a in walk(p if isinstance(p, tuple) else P(p)))
        return data, ctl


def gpath(k):
    return tuple(str(z) for z in k)


def own_field(x, lazy, f, v):
    t = v.t if isinstance(v, Unk) else None
    if isinstance(v, Num):
        t = as_term(v.p)
    if isinstance(v, Ref):
        c = x.heap.get(v.a)
        t = c.lazy if isinstance(c, ObjCell) else None
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "attr" and t[1] == lazy and t[2] == f


def left(atoms):
    return sorted({str(a[1]) for a in atoms if a and a[0] == "hist" and a[1] != "run"})


def earlier(atoms, equal=()):
    """What the atoms name of an earlier call: its arguments and draws."""
    out = set()
    for a in atoms:
        if not a or a in equal:
            continue
        if a[0] == "param" and str(a[1]).startswith("h."):
            out.add("argument %s of an earlier call" % str(a[1])[2:])
        elif a[0] in ("rng", "rngi") and ("hist", "run") in a[3]:
            out.add("a draw of an earlier call")
    return sorted(out)


# ---------------------------------------------------------------------------------------- the check

def equal_atoms(facts):
    """Arguments of the earlier call that this path found equal to present data."""
    out = set()
    for c, b in facts.items():
        if b is not True:
            continue
        if c[0] in ("eqseq", "keyeq"):
            for a, o in ((c[1], c[2]), (c[2], c[1])):
                out |= {z for z in whole(a)} if not earlier(atoms_of(o)) else set()
        elif c[0] == "eq":
            hs = [a for a in P(c[1]).atoms() if a[0] == "param" and str(a[1]).startswith("h.")]
            if len(hs) == 1 and abs(P(c[1]).t.get(((hs[0], 1),), 0)) == 1 and not earlier(atoms_of(P(c[1]) - A(hs[0])) - {hs[0]}):
                out.add(hs[0])
    return out


def atoms_of(t):
    return {a for a in walk(t if isinstance(t, tuple) else P(t)) if a}


def whole(t):
    """Arguments determined by a key: the key itself or components of a tuple."""
    if isinstance(t, Poly):
        a = as_term(t)
        return whole(a) if isinstance(a, tuple) else []
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == "param":
        return [t]
    if t[0] in ("tup", "seq", "tuple"):
        return [z for x in t[1:] for z in (whole(x) if isinstance(x, (tuple, Poly)) else [])] + \
            [z for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x for z in whole(y)]
    return []


def memoised(prog):
    return any(d.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "cached_property") for m, f in prog.functions()
               for d in map(ast.unparse, f.decorator_list))


def t_c01(prog, rep, cname, part, names, W):
    if W is None:
        rep.dunno("no leftovers in results", cname, "what its computations leave behind was not found")
        return
    H = Hist(prog, cname, W)
    rep.engine(H.I)
    if part is None:
        if memoised(prog):
            memo(rep, H, names)
        for st, ref in H.objs:
            y = H.leftover(st, ref)
            for m in names:
                if not H.W:
                    rep.holds("no leftovers in results", "%s.%s" % (cname, m), "computations leave nothing behind")
                    continue
                check(rep, H, st, ref, y, m, None, {})
        return
    for st, ref in H.objs:
        y = H.leftover(st, ref)
        outs, kw = H.set(y, ref, part)
        plain, _ = H.set(st, ref, part)
        gone, touched = superseded(H, st, ref, plain, part)
        where = "%s.%s" % (cname, part)
        if not plain:
            rep.dunno("a new setting takes effect", where, "no path through the setter")
            continue
        if not touched:
            rep.bad("a new setting takes effect", where, "the setter leaves the object as it was", loc_of(H, part))
            continue
        idle = [x for x in plain if not H.changes(st, ref, x)]
        if any(by_length(st, x) for x in idle):
            rep.bad("a new setting takes effect", where, "the setter ignores the new value, going by its length alone", loc_of(H, part))
        stale = replaced(H, st, ref, part)
        for m in names:
            takes_effect(rep, H, st, ref, plain, part, m)
            if stale:
                twice(rep, H, st, ref, part, m, stale)
            for z in outs:
                check(rep, H, st, ref, z, m, part, gone)


def loc_of(H, name):
    f = settings(H.cls)[name][1] if name in settings(H.cls) else H.cls.find_method(name)
    return "%s:%d" % (f.mod.rel, f.node.lineno)


def superseded(H, st, ref, outs, name):
    """Constructor arguments that a setter replaces."""
    I = H.I
    gone, touched = None, False
    for x in outs:
        mine = set()
        ch = H.changes(st, ref, x)
        touched = touched or bool(ch)
        for (a, p, f), v in ch.items():
            if f is None:
                continue
            c0 = st.heap[a]
            if f not in c0.fields:
                if c0.lazy is not None:
                    mine.add(("attr", c0.lazy, f))
                continue
            old = {z for z in I.deep_atoms(st, c0.fields[f]) if z and z[0] == "param" and str(z[1]).startswith("ctor.")}
            now = set(I.deep_atoms(x, v))
            root, new = lazy_root(st, c0.fields[f]), lazy_root(x, v)
            if root is not None and new is not None and root != new and prefixed(root, "ctor.") and prefixed(new, "new."):
                mine.add(root)
            if any(z and z[0] == "param" and str(z[1]).startswith("new.") for z in now):
                mine |= {z for z in old if z not in now}
        gone = mine if gone is None else gone & mine
    return gone or set(), touched


def by_length(st, x):
    """The path was chosen by lengths only."""
    fs = [c for c, b in x.facts.items() if st.facts.get(c) != b]
    return bool(fs) and all(c[0] in ("eq", "lt") and [a for a in P(c[1]).atoms()] and all(
        a[0] == "len" for a in P(c[1]).atoms()) and any(
        z and z[0] == "param" and str(z[1]).startswith("new.") for z in atoms_of(c[1])) for c in fs)


def blurred(atoms):
    return any(a and a[0] in ("havoc", "call", "rec", "icall") for a in atoms)


def takes_effect(rep, H, st, ref, outs, part, m):
    """The result of a computation after the setter depends on the new value."""
    I = H.I
    news, sure, any_ = set(), True, False
    for x in outs:
        for y, v, fs in H.run(x, ref, m):
            any_ = True
            at = set(I.deep_atoms(y, v))
            d, k = H.atoms(y, v, fs)
            news |= {z for q in d | k for z in atoms_of(q) if z[0] == "param" and str(z[1]).startswith("new.")}
            sure = sure and not unreliable(y) and not blurred(at)
    if not news and any(z[0] == "param" and str(z[1]).startswith("new.") for x in outs for c in x.facts if c not in st.facts
                        for q in c[1:] if isinstance(q, (tuple, Poly)) for z in atoms_of(q)):
        # the new value decides what the setter assigns: do those locations reach the result?
        y = outs[0].clone()
        for x in outs:
            for (a, p, f), v in H.changes(st, ref, x).items():
                if f is not None:
                    y.setf(a, f, H.symbolic(y, "set." + str(f), H.describe(x, v)))
        for q, v, fs in H.run(y, ref, m):
            d, k = H.atoms(q, v, fs)
            news |= {n for n in left(d | k) if n.startswith("set.")}
    rep.add("effect of a setting", "%s.%s" % (H.cname, part), "holds" if news else ("violated" if any_ and sure else "undecided"),
            "", loc_of(H, part))


def replaced(H, st, ref, name):
    """Locations in which an earlier value given to the same setter lives on: [(address, path, field)]"""
    I = H.I
    one_, _ = H.set(st, ref, name)
    out = {}
    for x in H.set(st, ref, name, "old.")[0]:
        for y in H.set(x, ref, name)[0]:
            for z in one_:
                if any(z.facts.get(c, b) != b for c, b in y.facts.items()):
                    continue
                for a, p in reach(z, ref):
                    c, d = z.heap.get(a), y.heap.get(a)
                    if not isinstance(c, ObjCell) or not isinstance(d, ObjCell) or a not in st.heap:
                        continue
                    for f in c.fields:
                        if f in d.fields and not same_value(I, z, c.fields[f], y, d.fields[f]):
                            out[(a, p, f)] = (z, c.fields[f])
    return out


def same_value(I, z, v, y, w):
    if type(v) is type(w) and repr(v) == repr(w) and not isinstance(v, Ref):
        return True
    try:
        a, b = I.term(z, v), I.term(y, w)
    except Exception:
        return True
    if a == b:
        return True
    ats = {q for t in (a, b) for q in walk(t if isinstance(t, tuple) else P(t)) if q}
    if blurred(ats) or any(q[0] in ("phi", "obj", "L", "dict", "lv", "brk", "T") for q in ats):
        return True         # not comparable: not taken for a difference
    return False


def twice(rep, H, st, ref, part, m, stale):
    where = "%s.%s after %s twice" % (H.cname, m, part)
    y = None
    for x in H.set(st, ref, part)[0]:
        y = x.clone()
        names = []
        for (a, p, f), (z, v) in stale.items():
            nm = ".".join(p + (str(f),))
            names.append(nm)
            y.setf(a, f, H.symbolic(y, nm, H.describe(z, v)))
        for q, v, fs in H.run(y, ref, m):
            d, k = H.atoms(q, v, fs)
            hit = [n for n in left(d) + left(k) if n in names]
            if hit and not unreliable(q):
                rep.bad("a setting replaces the earlier one", where, "%s still depends on the value given before" % ", ".join(sorted(set(hit))), loc_of(H, part))
                return
    rep.holds("a setting replaces the earlier one", where, "")


def check(rep, H, st, ref, y, m, setter, gone):
    """m on the object y (arbitrary leftovers, possibly after a setter)."""
    where = "%s.%s" % (H.cname, m) + (" after %s" % setter if setter else "")
    loc = loc_of(H, m)
    rule = "no leftovers in results" if setter is None else "nothing left of the previous setting"
    rs = H.run(y, ref, m)
    if not rs:
        rep.dunno(rule, where, "no result on any analysed path", loc)
        return
    hit, old = set(), set()
    for x, v, fs in rs:
        d, k = H.atoms(x, v, fs)
        hit |= set(left(d)) | set(left(k))
        old |= {z for z in d | k if is_gone(z, gone)}
    if old:
        rep.bad(rule, where, "the result still depends on %s given before" % ", ".join(sorted(show_gone(z) for z in old)), loc)
        return
    if not hit:
        if any(unreliable(x) for x, v, fs in rs):
            rep.dunno(rule, where, "", loc)
        else:
            rep.holds(rule, where, "no leftover of %d changed locations reaches the result" % len(H.W), loc)
        return
    # a leftover reaches the result: which histories put what there?
    why, sure = confirm(H, st, ref, m, setter, gone, hit)
    if why:
        rep.bad(rule, where, "through %s: %s" % (", ".join(sorted(hit)), "; ".join(why)), loc)
    elif sure:
        rep.holds(rule, where, "%s is reused, and only when it is what would be computed anew" % ", ".join(sorted(hit)), loc)
    else:
        rep.dunno(rule, where, "reads %s" % ", ".join(sorted(hit)), loc)


def lazy_root(st, v):
    c = st.heap.get(v.a) if isinstance(v, Ref) else None
    return c.lazy if isinstance(c, ObjCell) else None


def prefixed(t, pre):
    return any(a[0] == "param" and str(a[1]).startswith(pre) for a in atoms_of(t))


def is_gone(z, gone):
    return z in gone or z and z[0] == "attr" and any(g in gone for g in (z[1],)) or z and z[0] == "attr" and len(z) > 3 and z[:3] in gone


def show_gone(z):
    if z[0] == "attr" and z[1][0] != "obj" and len(z) > 2:
        return "%s.%s" % (str(z[1][1]).replace("ctor.", ""), z[2])
    return str(z[1])[5:] if z[0] == "param" else "%s of %s" % (z[2], str(z[1][1]))


def confirm(H, st, ref, m, setter, gone, hit):
    why, sure = set(), True
    seen = set()
    for m0, x0, ch in ((m0, x0, ch) for m0 in sorted(computations(H.cls), key=lambda z: (z != m, z)) for x0, ch in H.history(st, ref, m0)):
        sig = (m0, tuple(sorted((str(k), repr(short_val(H, x0, k))) for k in ch)))
        if sig in seen or len(seen) > 12:
            sure = sure and sig in seen
            continue
        seen.add(sig)
        # what does not reach the result stays arbitrary
        zs = [H.leftover(x0, ref, hit)]
        if setter is not None:
            zs, _ = H.set(zs[0], ref, setter)
        for z in zs:
            for z, known in cases(H, z, ref, m, gone):
                sure = sure and known
                now = {a for a, p in reach(z, ref)}
                for x, v, fs in H.run(z, ref, m):
                    if unreliable(x) or not known:
                        sure = False
                        continue
                    eq = equal_atoms(fs)
                    d, k = H.atoms(x, v, {c: b for c, b in fs.items() if c[0] not in ("eqseq", "keyeq", "in")})
                    for e in earlier(d | k, eq):
                        why.add("the result depends on %s (%s)" % (e, m0))
                    for q in d | k:
                        if is_gone(q, gone):
                            why.add("the result depends on %s given before" % show_gone(q))
                for e in H.I.events:
                    if e.kind == "maybe_missing" and e.ref.a in z.heap and not handled(e) and \
                            isinstance(z.heap[e.ref.a], DictCell) and z.heap[e.ref.a].summ == e.summ and e.ref.a in now:
                        why.add("%s: whether the entry is there depends on an earlier call (%s)" % (e.where, m0))
            if why:
                return sorted(why), sure
    grows = accumulating(H, st, ref, hit)
    if grows:
        why.add("%s grows with every computation" % ", ".join(grows))
    return sorted(why), sure


def cases(H, z, ref, m, gone=()):
    """[(state, decided)]: the comparisons of leftovers with present data that the computation makes (a reused value's guard),
    each assumed to come out either way; where it comes out equal, what was found equal is replaced by the present data."""
    sets = []
    for x, v, fs in H.run(z, ref, m):
        g = {c: b for c, b in fs.items() if guard(c, z, gone) and not any(a[0] == "it" for a in cond_atoms(c))}
        if g not in sets:
            sets.append(g)
    if len(sets) <= 1 and not any(sets) or len(sets) > 8:
        return [(z, True)]
    out = []
    for g in sets:
        alts = [{}]
        known = True
        for c, b in g.items():
            if b is True:
                ms = solve(c, z, gone)
                if ms is None:
                    known = False
                else:
                    alts = [{**a, **u} for a in alts for u in ms][:6]
        for u in alts:
            y = z
            if u:
                y = H.I.subst_state(z, u)
            else:
                y = z.clone()
            y.facts = dict(y.facts)
            for c, b in g.items():
                if b is not True or not u:
                    y.facts[c] = b
            out.append((y, known))
    return out


def past(atoms, gone):
    return bool(earlier(atoms)) or any(is_gone(a, gone) for a in atoms)


def cond_atoms(c):
    return [a for p in c[1:] if isinstance(p, (tuple, Poly)) for a in walk(p if isinstance(p, tuple) else P(p)) if a]


def guard(c, z, gone):
    """Does the condition compare something of the earlier call with present data?"""
    if c[0] in ("eq", "eqseq", "keyeq"):
        at = cond_atoms(c)
        return past(at, gone)
    if c[0] == "in" and isinstance(c[2], tuple) and c[2][0] == "dict" and isinstance(z.heap.get(c[2][1]), DictCell):
        d = z.heap[c[2][1]]
        return any(past(atoms_of(k), gone) for k, kv, v in d.entries) and not past(atoms_of(c[1]), gone)
    return False


def solve(c, z, gone):
    """Substitutions (one per way) that make the condition true; None if there is none in sight."""
    if c[0] in ("eqseq", "keyeq"):
        a, b = c[1], c[2]
        if past(atoms_of(b), gone):
            a, b = b, a
        u = unify(a, b, gone)
        return None if u is None else [u]
    if c[0] == "in":
        out = [unify(k, c[1], gone) for k, kv, v in z.heap[c[2][1]].entries]
        out = [u for u in out if u is not None]
        return out or None
    p = P(c[1])
    for mo, k in p.t.items():
        if len(mo) == 1 and mo[0][1] == 1 and abs(k) == 1 and past(atoms_of(mo[0][0]), gone):
            rest = p - A(mo[0][0]) * k
            if not past(atoms_of(rest), gone):
                return [{mo[0][0]: as_term(rest * (-k))}]
    return None


def unify(a, b, gone):
    if a == b:
        return {}
    a, b = (as_term(t) if isinstance(t, Poly) else t for t in (a, b))
    if isinstance(a, Poly):
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ("tup", "seq", "tuple", "list") and a[0] == b[0] and len(a) == len(b):
        out = {}
        for s, t in zip(a[1:], b[1:]):
            if isinstance(s, tuple) and s and isinstance(s[0], tuple) and isinstance(t, tuple) and len(s) == len(t):
                us = [unify(y, w, gone) for y, w in zip(s, t)]
            elif s == t:
                continue
            else:
                us = [unify(s, t, gone)]
            for u in us:
                if u is None:
                    return None
                out.update(u)
        return out
    if not isinstance(a, tuple) or not past(atoms_of(a), gone):
        return None
    return {a: b}


def handled(e):
    """The construct stands in a try statement."""
    return any(isinstance(t, ast.Try) and t.lineno <= e.node.lineno <= (t.end_lineno or 0) for t in ast.walk(e.fn.node)) if e.fn else True


def accumulating(H, st, ref, hit):
    """Leftovers whose new content is computed from their old content."""
    out = set()
    y = H.leftover(st, ref)
    for m in sorted(computations(H.cls)):
        for x, v, fs in H.run(y, ref, m):
            for (a, p, f), w in H.changes(y, ref, x).items():
                name = ".".join(p + ((f,) if isinstance(f, str) else ()))
                if name not in hit or f is None:
                    continue
                at = set(H.I.deep_atoms(x, w))
                if any(z and z[0] == "hist" and z[1] == name for z in at) and not isinstance(w, Alt):
                    out.add(name)
    return sorted(out)


def short_val(H, x, k):
    a, p, f = k
    c = x.heap[a]
    return c.fields.get(f) if f is not None else c


def memo(rep, H, names):
    """Memoised operations of an object must not read what can change."""
    I = H.I
    for st, ref in H.objs:
        var = set()
        for n in settings(H.cls):
            try:
                for x in H.set(st, ref, n)[0]:
                    var |= {(a, f) for (a, p, f) in H.changes(st, ref, x)}
            except Missing:
                pass
        at = {p: a for a, p in reversed(reach(st, ref))}
        var |= {(at.get(p), f) for (p, f) in H.W}
        for m in names:
            H.run(st, ref, m)
            memos = {e.callee.qual: e for e in I.events if e.kind == "memoised"}
            for q, e in sorted(memos.items()):
                bad = None
                for r in I.events:
                    if r.kind == "read" and q in r.stack and isinstance(r.ref, Ref) and (r.ref.a, r.attr) in var:
                        bad = "%s is memoised but reads %s, which can change" % (q, r.attr)
                    if r.kind == "draw" and q in r.stack:
                        bad = "%s is memoised but draws random numbers" % q
                (rep.bad if bad else rep.holds)("memoised operations", q, bad or "reads nothing that changes", e.where)


# ---------------------------------------------------------------------------------------- tasks

def leaves(task):
    """What one computation leaves behind: {(path, field): kinds}, or None."""
    import signal
    from .program import Program
    from . import run
    cname, m, limit = task
    signal.signal(signal.SIGALRM, run.alarm)
    signal.alarm(limit)
    try:
        H = Hist(Program(run.REPO), cname)
        W = {}
        for st, ref in H.objs:
            for x, ch in H.history(st, ref, m):
                for (a, p, f), v in ch.items():
                    W.setdefault((p, f), set()).update(H.describe(x, v))
        return cname, W
    except Exception:
        return cname, None
    finally:
        signal.alarm(0)


def c01(prog, tier):
    import multiprocessing
    todo = []
    for c in concrete_classes(prog):
        ms = sorted(computations(c))
        for m in ms:
            # strategies with several computations are the expensive ones: started first
            todo.append((-len(ms) if "simulate" in ms else 1, (c.name, m, 180 if tier == "quick" else 600)))
    todo = [t for _, t in sorted(todo, key=lambda z: z[0])]
    W = {}
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for cname, w in pool.imap(leaves, todo, 1):
            o = W.setdefault(cname, {})
            if w is None or o is None:
                W[cname] = None
                continue
            for k, s in w.items():
                o.setdefault(k, set()).update(s)
    out = []
    for cname, m, _ in todo:
        for s in [None] + sorted(settings(prog.classes[cname])):
            out.append(("t_c01", (cname, s, (m,), W[cname])))
    return out


def effects(rep):
    """A setting takes effect when the result of some computation depends on it."""
    per = {}
    for o in rep.obs:
        if o.rule == "effect of a setting":
            per.setdefault(o.where, []).append(o)
    rep.obs = [o for o in rep.obs if o.rule != "effect of a setting"]
    for w, os_ in sorted(per.items()):
        vs = {o.verdict for o in os_}
        v = True if "holds" in vs else (None if "undecided" in vs else False)
        rep.decide("a new setting takes effect", w, v, "" if v else "no computation depends on the new value", os_[0].loc)


TASKS["C01"] = c01
FINISH = {"C01": effects}
