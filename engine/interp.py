"""Abstract interpreter over the syntax tree of the analysed package.

Domain: value numbers (terms.py) for scalars, sequences as concatenations of symbolic-length
segments, objects with lazily created symbolic fields, dictionaries as key-indexed summaries.
Branches partition the state; loops are summarised by solving the recurrences of the locations
they modify (no unrolling, no solver, no execution of the analysed code)."""
import ast
import copy

from .program import ClassInfo, FuncInfo
from .terms import *
from .terms import as_term
from .values import *

MAXSTATES = 160
MAXDEPTH = 40


class Out:
    def __init__(self):
        self.norm, self.brk, self.cont, self.ret = [], [], [], []

    def merge_flow(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


class FSeq(Val):
    """Immutable snapshot of a sequence (element template of a symbolic segment)."""
    __slots__ = ("kind", "segs", "roots", "er")

    def __init__(self, kind, segs, roots=EMPTY, er=EMPTY):
        self.kind, self.segs, self.roots, self.er = kind, tuple(segs), frozenset(roots), frozenset(er)

    def __repr__(self):
        return "F[%s %s]" % (self.kind, list(self.segs))


class Event:
    def __init__(self, kind, where, st, stack, **data):
        self.kind, self.where, self.data = kind, where, data
        self.facts = dict(st.facts)
        self.ctx = st.ctx
        self.flags = st.flags
        self.stack = stack

    def __getattr__(self, k):
        try:
            return self.__dict__["data"][k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s@%s %s" % (self.kind, self.where, self.data)


class View:
    __slots__ = ("kind", "segs", "roots", "er")

    def __init__(self, kind, segs, roots, er):
        self.kind, self.segs, self.roots, self.er = kind, segs, roots, er


class Interp:
    def __init__(self, prog):
        from . import lib
        self.lib = lib
        self.prog = prog
        self.naddr = 0
        self.nix = 0
        self.nloop = 0
        self.nfid = 0
        self.nhv = 0
        self.events = []
        self.quiet = 0
        self.stack = []          # FuncInfo call stack
        self.exc = [[]]          # exception states
        self.bounds = BOUNDS     # atom -> (lo, hi)
        BOUNDS.clear()
        SEQINFO.clear()
        self.cstack = []         # call sites
        self.loopids = {}
        self.ldeps = {}
        self.loopinfo = {}       # loop -> how its iterations end, per analysed path
        self.bcfacts = {}        # counting pattern -> conditions of the ends of an iteration
        self.owners = {}         # loop that made an entry of one of the tables below
        self.scattered = {}      # list whose entries are added to at computed positions
        self.layout = {}         # list built by extending -> counts added per iteration
        self.phideps = {}        # (loop, carried location) -> draws of one iteration that reach the next
        self.lvdeps = {}
        self.locdeps = {}        # (loop, carried location) -> sources of what it carries
        self.segno = 0
        self.watch_items = None
        self.watch_index = False
        self.model_gaps = []
        self.ext_unmodelled = set()
        self.dictdeps = {}       # dictionary -> sources of what was ever stored in it
        self.rngdeps = {}        # (site, earlier call?) -> [(facts, atoms)]: what the law of a draw depends on
        self.deps = {}           # atom -> frozenset(atoms it depends on by control)
        self.globals = {}        # module level / class level mutable containers
        self.funcs_seen = set()
        self.calls_seen = 0
        self.loops_seen = 0
        self.truncated = 0
        self.watch_hist = False
        self.fresh_globals = False
        self.overlay = None      # cell of module variables and class attributes that functions assign to
        self.loopinfo = {}
        self.vocab = {}          # FuncInfo qual -> handler
        self.basesegs = {}
        self.node_fn = None

    # ------------------------------------------------------------ basics
    def addr(self):
        self.naddr += 1
        return self.naddr

    def ix(self):
        self.nix += 1
        return ("ix", self.nix)

    def nix_next(self):
        self.nix += 1
        return self.nix

    def havoc(self, why="", ty="any", roots=EMPTY):
        self.nhv += 1
        return Unk(("havoc", self.nhv, why), ty, roots)

    def hnum(self, why="", ty="num"):
        self.nhv += 1
        return Num(A(("havoc", self.nhv, why, ty)), ty)

    def alloc(self, st, cell):
        a = self.addr()
        st.heap[a] = cell
        return Ref(a)

    def seq(self, st, kind, segs, roots=EMPTY, er=EMPTY):
        return self.alloc(st, SeqCell(kind, segs, roots, er))

    def seqof(self, st, kind, vals):
        return self.seq(st, kind, [Seg(1, self.ix(), v) for v in vals])

    def event(self, kind, node, st, **data):
        if self.quiet:
            return
        fn = self.stack[-1] if self.stack else None
        where = fn.where(node) if fn else "?"
        self.events.append(Event(kind, where, st, tuple(f.qual for f in self.stack), node=node, fn=fn, **data))

    # ------------------------------------------------------------ views
    def view(self, st, v):
        """Sequence view of a value, or None."""
        if isinstance(v, Ref):
            c = st.heap.get(v.a)
            if isinstance(c, SeqCell):
                if c.kind == "set" and (len(c.segs) > 1 or c.segs and c.segs[0].n.const() not in (0, 1)):
                    # equal elements count once
                    t, i = ("set", self.segs_term(st, c.segs)), self.ix()
                    num = {g.v.ty if isinstance(g.v, Num) else None for g in c.segs}
                    e = Num(item(t, A(i), "int" if num == {"int"} else "num"), "int" if num == {"int"} else "num") \
                        if None not in num else Unk(("item", t, A(i), "any"), "any", c.er, c.er)
                    return View("set", (Seg(seq_len(t), i, e),), c.roots, c.er)
                return View(c.kind, c.segs, c.roots, c.er)
            return None
        if isinstance(v, FSeq):
            return View(v.kind, v.segs, v.roots, v.er)
        if isinstance(v, Unk) and isinstance(v.ty, tuple) and v.ty[0] == "seq":
            i = self.ix()
            return View("unk", (Seg(seq_len(v.t), i, self.elem_of(v.t, A(i), v.ty[1], v.er)),), v.roots, v.er)
        if isinstance(v, Alt):
            vs = [self.view(st, x) for x in v.vs]
            if all(w is not None for w in vs):
                ls = {self.vlen(w) for w in vs}
                t = self.term(st, v)
                n = ls.pop() if len(ls) == 1 else seq_len(t)
                i = self.ix()
                er = frozenset().union(*[w.er for w in vs])
                num = all(isinstance(g.v, Num) for w in vs for g in w.segs)
                ty = {g.v.ty for w in vs for g in w.segs} if num else ()
                e = Num(item(t, A(i), "int" if ty == {"int"} else "num"), ty.pop() if len(ty) == 1 else "num") if num \
                    else Unk(("item", t, A(i), "any"), "any", er, er)
                ks = {w.kind for w in vs}
                return View(ks.pop() if len(ks) == 1 else "mixed", (Seg(n, i, e),),
                            frozenset().union(*[w.roots for w in vs]), er)
            return None
        if isinstance(v, Cst) and isinstance(v.v, str):
            return View("str", tuple(Seg(1, self.ix(), Cst(ch)) for ch in v.v[:50]), EMPTY, EMPTY)
        return None

    def elem_of(self, t, i, ety, er=EMPTY):
        if ety == "int":
            return Num(item(t, i, "int"), "int")
        if ety in ("num", "float", "complex"):
            return Num(item(t, i, "float" if ety == "float" else "num"), ety)
        if isinstance(ety, tuple) and ety[0] == "seq":
            return Unk(("item", as_term(t), P(i), "seq"), ety, er, er)
        return Unk(("item", as_term(t), P(i), "any"), ety, er, er)

    def vlen(self, view):
        r = P(0)
        for s in view.segs:
            r = r + s.n
        return r

    def seg_sum(self, s):
        p = self.to_poly(None, s.v)
        return Sum(s.n, p, s.ix)

    def vsum(self, view):
        r = P(0)
        for s in view.segs:
            if isinstance(s.v, (Num, Cst, CondV)) or (isinstance(s.v, Unk) and not isinstance(s.v.ty, tuple)):
                r = r + self.seg_sum(s)
            else:
                return None
        return r

    def term(self, st, v):
        """Canonical content term of a value."""
        if isinstance(v, Num):
            return as_term(v.p)
        if isinstance(v, Cst):
            return ("cst", repr(v.v))
        if isinstance(v, Unk):
            return v.t
        if isinstance(v, Alt):
            t = self.either(v)
            if t is not None:
                return t
            ts = []
            for x in v.vs:
                t = self.term(st, x)
                if t not in ts:
                    ts.append(t)
            return ts[0] if len(ts) == 1 else ("alt",) + tuple(sorted(ts, key=skey))
        if isinstance(v, EnumV):
            return ("enum", v.cls.name, v.name)
        if isinstance(v, CondV):
            return ("condv", self.cterm(v.c))
        if isinstance(v, Ref):
            c = st.heap.get(v.a)
            if isinstance(c, ObjCell):
                if c.lazy is not None:
                    return c.lazy
                return ("obj", c.cls.name if c.cls else "?", v.a)
            if isinstance(c, DictCell):
                return c.term if c.term is not None else ("dict", v.a)
        w = self.view(st, v)
        if w is not None:
            return self.segs_term(st, w.segs)
        if isinstance(v, (Fn, Bnd)):
            return ("fn", v.info.qual)
        if isinstance(v, ClsV):
            return ("cls", v.info.name)
        if isinstance(v, Ext):
            return ("ext", v.name)
        return ("val", repr(type(v).__name__))

    def either(self, v):
        """Two joined numbers whose choice is known: one number that depends on the condition."""
        if v.g is None or len(v.vs) != 2 or not all(len(g) == 1 for g in v.g):
            return None
        if not all(isinstance(x, (Num, Cst)) for x in v.vs) or all(self.num_ty(x) == "int" for x in v.vs) \
                or not all(self.num_ty(x) in ("int", "float", "num", "complex") for x in v.vs):
            return None
        a, b = (dict(g[0]) for g in v.g)
        for c, y in a.items():
            if c[0] in ("lt", "eq") and b.get(c) == (not y):
                x, z = (self.to_poly(None, w) for w in (v.vs if y else v.vs[::-1]))
                return as_term(ite(c, x, z, "num"))
        return None

    def cterm(self, c):
        if isinstance(c, tuple):
            return tuple(self.cterm(x) if isinstance(x, (tuple, list)) else x for x in c)
        if isinstance(c, list):
            return tuple(self.cterm(x) for x in c)
        return c

    def segs_term(self, st, segs):
        if len(segs) == 1:
            s = segs[0]
            if isinstance(s.v, Num):
                t = as_term(s.v.p)
            elif isinstance(s.v, Unk):
                t = s.v.t
            else:
                t = None
            if isinstance(t, tuple) and t and t[0] == "item" and t[2] == A(s.ix) and \
                    not mentions(t[1], lambda a: a == s.ix) and seq_len(t[1]) == s.n:
                return t[1]
        out = []
        for s in segs:
            if s.n.const() == 0:
                continue
            t = self.term(st, s.v)
            bv = new_bv(t, s.n) if isinstance(t, (tuple, Poly)) else ("bv", 1)
            t2 = subst(t, {s.ix: A(bv)}) if isinstance(t, (tuple, Poly)) else t
            if out and out[-1][1] == t2 and not mentions_bv(t2, bv):
                out[-1] = (out[-1][0] + s.n, t2, bv)
            else:
                out.append((s.n, t2, bv))
        if len(out) == 1 and isinstance(out[0][1], tuple) and out[0][1] and out[0][1][0] == "item" and \
                out[0][1][2] == A(out[0][2]) and not mentions_bv(out[0][1][1], out[0][2]) and \
                seq_len(out[0][1][1]) == out[0][0]:
            return out[0][1][1]
        return ("seq",) + tuple(out)

    def to_poly(self, st, v):
        if isinstance(v, Num):
            return v.p
        if isinstance(v, Cst):
            if isinstance(v.v, (bool, int, float)):
                return P(v.v)
            return A(("cst", repr(v.v)))
        if isinstance(v, CondV):
            if v.c[0] == "const":
                return P(int(v.c[1]))
            if v.c[0] == "c" and v.c[1][0] in ("lt", "eq"):
                return ite(v.c[1], P(1), P(0), "int")
            if v.c[0] == "not" and v.c[1][0] == "c" and v.c[1][1][0] in ("lt", "eq"):
                return ite(v.c[1][1], P(0), P(1), "int")
            return A(("ind", self.cterm(v.c), "bool"))
        if isinstance(v, EnumV):
            return A(("enum", v.cls.name, v.name, "int"))
        if isinstance(v, Unk):
            t = v.t
            if t[0] == "poly":
                return t[1]
            if t[0] in ("item", "attr", "sym", "len", "sum", "call") and isinstance(t[-1], str):
                return A(t)
            return A(("val", t, "num"))
        return A(("val", self.term(st, v) if st is not None else ("ref", repr(v)), "num"))

    def kindof(self, st, v):
        w = self.view(st, v)
        return w.kind if w else None

    def num_ty(self, v):
        if isinstance(v, Num):
            return v.ty
        if isinstance(v, Cst):
            if isinstance(v.v, bool):
                return "int"
            if isinstance(v.v, int):
                return "int"
            if isinstance(v.v, float):
                return "float"
        if isinstance(v, (CondV, EnumV)):
            return "int"
        return "num"

    def roots(self, st, v):
        if isinstance(v, (Unk, FSeq)):
            return v.roots
        if isinstance(v, Alt):
            return frozenset().union(*[self.roots(st, x) for x in v.vs])
        if isinstance(v, Ref):
            c = st.heap.get(v.a)
            return c.roots if c is not None else EMPTY
        return EMPTY

    # ------------------------------------------------------------ freezing / substitution
    def freeze(self, st, v, depth=0):
        if isinstance(v, Ref):
            c = st.heap.get(v.a)
            if isinstance(c, SeqCell) and depth < 6:
                return FSeq(c.kind, [Seg(s.n, s.ix, self.freeze(st, s.v, depth + 1)) for s in c.segs], c.roots, c.er)
        return v

    def sv(self, v, m):
        """Substitute in a value (not through references)."""
        if isinstance(v, Num):
            return Num(subst(v.p, m), v.ty)
        if isinstance(v, Unk):
            t = subst(v.t, m)
            return Unk(t, v.ty, v.roots, v.er)
        if isinstance(v, FSeq):
            return FSeq(v.kind, [self.sseg(s, m) for s in v.segs], v.roots, v.er)
        if isinstance(v, CondV):
            return CondV(self.scond(v.c, m))
        if isinstance(v, Alt):
            g = None
            if v.g is not None:
                g = [tuple(tuple((subst_cond(c, m), b) for c, b in k) for k in x) for x in v.g]
            return Alt([self.sv(x, m) for x in v.vs], g)
        if isinstance(v, SliceV):
            return SliceV(*(self.sv(x, m) if x is not None else None for x in (v.lo, v.hi, v.step)))
        return v

    def sseg(self, s, m):
        return Seg(subst(s.n, m), s.ix, self.sv(s.v, m))

    def scond(self, c, m):
        if c[0] == "c":
            return ("c", self.norm_cond(subst_cond(c[1], m)))
        if c[0] == "not":
            return ("not", self.scond(c[1], m))
        if c[0] in ("and", "or"):
            return (c[0], [self.scond(x, m) for x in c[1]])
        return c

    def scell(self, c, m):
        if isinstance(c, SeqCell):
            return c.with_(segs=tuple(self.sseg(s, m) for s in c.segs))
        if isinstance(c, ObjCell):
            return c.with_fields({k: self.sv(v, m) for k, v in c.fields.items()})
        if isinstance(c, DictCell):
            return c.with_(entries=tuple((subst(k, m), self.sv(kv, m), self.sv(v, m)) for k, kv, v in c.entries),
                           summ=tuple(self.sv(v, m) for v in c.summ))
        return c

    def subst_state(self, st, m):
        s = st.clone()
        keys = set(m)

        def hit(v):
            return any(a in keys for a in self.val_atoms(v))
        for fid, env in st.frames.items():
            ne = None
            for k, v in env.items():
                if hit(v):
                    if ne is None:
                        ne = dict(env)
                    ne[k] = self.sv(v, m)
            if ne is not None:
                s.frames[fid] = ne
        for a, c in st.heap.items():
            if any(x in keys for x in self.cell_atoms(c)):
                s.heap[a] = self.scell(c, m)
        nf = {}
        for c, b in st.facts.items():
            nf[self.norm_cond(subst_cond(c, m))] = b
        s.facts = nf
        return s

    def val_atoms(self, v):
        if isinstance(v, Num):
            yield from walk(v.p)
        elif isinstance(v, Unk):
            yield from walk(v.t)
        elif isinstance(v, FSeq):
            for s in v.segs:
                yield from walk(s.n)
                yield from self.val_atoms(s.v)
        elif isinstance(v, CondV):
            yield from walk(self.cterm(v.c))
        elif isinstance(v, Alt):
            for x in v.vs:
                yield from self.val_atoms(x)
        elif isinstance(v, SliceV):
            for x in (v.lo, v.hi, v.step):
                if x is not None:
                    yield from self.val_atoms(x)

    def cell_atoms(self, c):
        if isinstance(c, SeqCell):
            for s in c.segs:
                yield from walk(s.n)
                yield from self.val_atoms(s.v)
        elif isinstance(c, ObjCell):
            for v in c.fields.values():
                yield from self.val_atoms(v)
        elif isinstance(c, DictCell):
            for k, kv, v in c.entries:
                yield from walk(k)
                yield from self.val_atoms(v)
            for t in c.summ:
                yield from self.val_atoms(t)

    def deep_atoms(self, st, v, seen=None):
        """Atoms of a value through references."""
        seen = set() if seen is None else seen
        yield from self.val_atoms(v)
        if isinstance(v, (Bnd,)) and v.obj is not None:
            yield from self.deep_atoms(st, v.obj, seen)
        if isinstance(v, FSeq):
            for s in v.segs:
                if isinstance(s.v, Ref):
                    yield from self.deep_atoms(st, s.v, seen)
        if isinstance(v, Ref) and v.a not in seen:
            seen.add(v.a)
            c = st.heap.get(v.a)
            yield from self.cell_atoms(c)
            kids = []
            if isinstance(c, SeqCell):
                kids = [s.v for s in c.segs]
            elif isinstance(c, ObjCell):
                kids = list(c.fields.values())
            elif isinstance(c, DictCell):
                kids = [e[2] for e in c.entries] + list(c.summ)
            for k in kids:
                if isinstance(k, (Ref, FSeq, Bnd)):
                    yield from self.deep_atoms(st, k, seen)

    def source(self, a):
        """Atoms whose influence on loop-carried values is recorded."""
        if not a:
            return False
        return a[0] in ("rng", "rngi", "L") or self.watch_hist and (
            a[0] in ("hist", "phi", "lv", "dictv", "attr") or a[0] == "param" and str(a[1]).startswith(("h.", "ctor.", "new.", "old.")))

    def note_deps(self, loop, loc, atoms):
        """Where the value a loop carries in a location comes from."""
        cl = loop.cong.get(loc)
        k = (loop.lid, loop.name(loc) if cl is None else cl)
        o = self.locdeps.get(k)
        self.locdeps[k] = (loop.ctx0, frozenset(atoms) | (o[1] if o else frozenset()))

    def note_draw(self, st, a, values, extra=()):
        """What the law of a draw depends on."""
        if not self.watch_hist:
            return
        ds = frozenset(extra).union(*[self.deep_atoms(st, v) for v in values if v is not None])
        l = self.rngdeps.setdefault((a[1], ("hist", "run") in a[3]), [])
        if len(l) < 200 and not any(o == ds and f == st.facts for f, o in l):
            l.append((dict(st.facts), ds))

    def all_deps(self, atoms, facts=None):
        """Sources (leftovers, arguments, fields, draws) reached from atoms, through data and control dependences of loops."""
        out, seen, ids = set(), set(), set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if not a or id(a) in ids:
                continue
            ids.add(id(a))
            if a[0] in ("hist", "param", "attr", "rng", "rngi"):
                out.add(a)
            if a[0] in ("rng", "rngi"):
                for f, ds in self.rngdeps.get((a[1], ("hist", "run") in a[3]), ()):
                    if (id(ds), "draw") not in seen and (facts is None or all(f.get(c, b) == b for c, b in facts.items())):
                        seen.add((id(ds), "draw"))
                        todo.extend(z for b in ds for z in walk(b))
            if a[0] == "dictv" and a[1][0] == "dict" and a[1] not in seen:
                seen.add(a[1])
                todo.extend(z for b in self.dictdeps.get(a[1][1], ()) for z in walk(b))
            k = src = None
            if a[0] == "L":
                k, src = a[1], self.ldeps
            elif a[0] == "phi":
                k, src = (a[1][1], a[2]), self.locdeps
            elif a[0] == "lv" and isinstance(a[1], tuple) and len(a[1]) > 1 and a[1][0] and a[1][0][0] == "L":
                k, src = (a[1][0][1], a[1][1]), self.locdeps
            if a in self.deps and a not in seen:
                seen.add(a)
                for b in self.deps[a]:
                    todo.extend(walk(b))
            if k is None or (a[0] == "L", k) in seen:
                continue
            seen.add((a[0] == "L", k))
            if k in src:
                for b in src[k][1]:
                    todo.extend(walk(b))
        return out

    def rng_deps(self, atoms):
        """rng atoms reached from atoms, through control dependences of loop indices."""
        out, todo, seen = set(), list(atoms), set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a and a[0] in ("rng", "rngi"):
                out.add(a)
            if a in self.deps:
                for b in self.deps[a]:
                    todo.extend(walk(b))
            if a and a[0] == "L" and a[1] in self.ldeps:
                ctx, ds = self.ldeps[a[1]]
                m = {x: y for x, y in zip(ctx, a[2]) if x != y}
                for b in ds:
                    todo.extend(walk(subst(b, m) if m else b))
        return out

    # ------------------------------------------------------------ conditions
    def norm_cond(self, c):
        t = c[0]
        if t in ("lt", "eq"):
            p = c[1]
            if p.t:
                lead = sorted(p.t, key=skey)
                # scale by the first non-constant monomial
                k = next((m for m in lead if m != ()), None)
                if k is not None:
                    f = p.t[k]
                    if t == "lt":
                        f = abs(f)
                    if f != 1:
                        p = Poly({m: qdiv(v, f) for m, v in p.t.items()})
            return (t, p)
        return c

    def cmp(self, op, a, b):
        d = a - b
        if op == "lt":
            return ("c", self.norm_cond(("lt", d)))
        if op == "gt":
            return ("c", self.norm_cond(("lt", -d)))
        if op == "ge":
            return ("not", ("c", self.norm_cond(("lt", d))))
        if op == "le":
            return ("not", ("c", self.norm_cond(("lt", -d))))
        if op == "eq":
            return ("c", self.norm_cond(("eq", d)))
        return ("not", ("c", self.norm_cond(("eq", d))))

    def nonneg_atom(self, a, depth=0):
        t = a[0]
        if t in ("len", "it", "brk", "T", "fact", "ix", "bcount", "abs2", "bv", "trip"):
            return True
        if t == "sum":
            return self.occ(a[1])
        if t == "item":
            return a[3] == "int" and self.occ(a[1])
        if t == "floordiv":
            return self.lb_nonneg(a[1]) and self.lb_pos(a[2])
        if t == "max":
            return any(self.lb_nonneg(x) for x in a[1:])
        if t == "min":
            return all(self.lb_nonneg(x) for x in a[1:])
        if t == "Sum":
            return self.lb_nonneg(a[2])
        if t in ("rng", "cnt", "anyit", "ind", "abs"):
            return True
        lo, _ = atom_bounds(a)
        return lo is not None and depth < 3 and self.lb_nonneg(lo, (), depth + 1)

    def occ(self, s):
        """Sequence of occupation numbers (never negative)."""
        i = SEQINFO.get(s)
        if i is not None:
            return i.get("lb") is not None and i["lb"] >= 0
        if isinstance(s, tuple) and s:
            if s[0] == "lv":
                return s[5] is not None and s[5] >= 0
            if s[0] == "upd":
                return self.occ(s[1]) and self.lb_nonneg(s[3], (), 2)
            if s[0] in ("sorted", "rev"):
                return self.occ(s[1])
            if s[0] == "perm":
                return self.occ(s[2])
            if s[0] == "seq":
                return all(num_term(g[1]) and self.lb_nonneg(P(g[1]), (), 2) for g in s[1:])
            if s[0] in ("phi", "KEY"):
                return True
        return isinstance(s, tuple) and s and s[0] in ("param", "attr", "item", "call")

    def lb_nonneg(self, p, extra=(), depth=0):
        p = P(p)
        c = p.const()
        if c is not None:
            return c >= 0
        # drop provably nonnegative parts, replace bounded atoms
        q = P(0)
        for m, k in p.t.items():
            if m == ():
                q = q + k
                continue
            if k > 0 and all(isinstance(e, int) and e > 0 and self.nonneg_atom(a) for a, e in m):
                if len(m) == 1 and m[0][1] == 1 and atom_bounds(m[0][0])[0] is not None \
                        and depth < 4:
                    q = q + atom_bounds(m[0][0])[0] * k
                elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("fact",):
                    q = q + k
                continue
            if len(m) == 1 and m[0][1] == 1 and depth < 4 and atom_bounds(m[0][0]) != (None, None):
                lo, hi = atom_bounds(m[0][0])
                if k > 0 and lo is not None:
                    q = q + lo * k
                    continue
                if k < 0 and hi is not None:
                    q = q + hi * k
                    continue
            if len(m) == 1 and m[0][1] == 1 and k < 0 and m[0][0][0] == "min" and depth < 3:
                # -min(a,b) >= -a
                for x in m[0][0][1:]:
                    if self.lb_nonneg(p - Poly({m: k}) + P(x) * k, extra, depth + 1):
                        return True
            if len(m) == 1 and m[0][1] == 1 and k > 0 and m[0][0][0] == "max" and depth < 3:
                for x in m[0][0][1:]:
                    if self.lb_nonneg(p - Poly({m: k}) + P(x) * k, extra, depth + 1):
                        return True
            q = q + Poly({m: k})
        c = q.const()
        if c is not None:
            return c >= 0
        if q != p and depth < 4:
            if self.lb_nonneg(q, extra, depth + 1):
                return True
        for g in extra:
            d = q - g
            dc = d.const()
            if dc is not None and dc >= 0:
                return True
            if depth < 2 and len(d.t) < len(q.t):
                if self.lb_nonneg(d, [h for h in extra if h is not g], depth + 1):
                    return True
        return False

    def lb_pos(self, p):
        return self.lb_nonneg(P(p) - 1)

    def known_nonneg(self, st):
        out = []
        for c, b in st.facts.items():
            if c[0] == "lt":
                if b:
                    out.append(-c[1] - 1 if is_int(c[1]) else -c[1])
                else:
                    out.append(c[1])
            elif c[0] == "eq" and b:
                out.append(c[1])
                out.append(-c[1])
        return out

    def decide(self, st, c):
        if c in st.facts:
            return st.facts[c]
        if c[0] == "lt":
            p = c[1]
            k = p.const()
            if k is not None:
                return k < 0
            ex = self.known_nonneg(st)
            if self.lb_nonneg(p, ex):
                return False
            if is_int(p):
                if self.lb_nonneg(-p - 1, ex):
                    return True
            else:
                # strict facts on the same polynomial
                m = self.norm_cond(("lt", -p))
                if st.facts.get(m) is True:
                    return False
        elif c[0] == "eq":
            p = c[1]
            k = p.const()
            if k is not None:
                return k == 0
            ex = self.known_nonneg(st)
            if is_int(p):
                if self.lb_nonneg(p - 1, ex) or self.lb_nonneg(-p - 1, ex):
                    return False
            for s in (p, -p):
                if st.facts.get(self.norm_cond(("lt", s))) is True:
                    return False
            if self.lb_nonneg(p, ex) and self.lb_nonneg(-p, ex):
                return True
        elif c[0] == "none":
            t = c[1]
            if isinstance(t, tuple) and t and t[0] in ("param",):
                return False
        elif c[0] == "in":
            pass
        return None

    def branch(self, st, c):
        """-> (true states, false states)"""
        if c[0] == "const":
            return ([st], []) if c[1] else ([], [st])
        if c[0] == "not":
            t, f = self.branch(st, c[1])
            return f, t
        if c[0] == "and":
            ts, fs = [st], []
            for x in c[1]:
                nt = []
                for s in ts:
                    a, b = self.branch(s, x)
                    nt += a
                    fs += b
                ts = nt
            return ts, fs
        if c[0] == "or":
            ts, fs = [], [st]
            for x in c[1]:
                nf = []
                for s in fs:
                    a, b = self.branch(s, x)
                    ts += a
                    nf += b
                fs = nf
            return ts, fs
        c = c[1]
        d = self.decide(st, c)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        if not self.quiet and st.ctx and c[0] in ("lt", "eq") and mentions(c[1], lambda a: a[0] in ("rng", "rngi")):
            self.event("rngcmp", None, st, cond=c)
        t, f = st.clone(), st.clone()
        t.facts[c] = True
        f.facts[c] = False
        return [t], [f]

    def truth(self, st, v):
        """Condition tree for the truth value of v."""
        if isinstance(v, CondV):
            return v.c
        if isinstance(v, Cst):
            return ("const", bool(v.v))
        if isinstance(v, Num):
            return self.cmp("ne", v.p, P(0))
        w = self.view(st, v)
        if w is not None and w.kind in ("list", "tuple", "range", "str", "gen", "unk"):
            return ("not", ("c", self.norm_cond(("eq", self.vlen(w)))))
        if isinstance(v, Ref):
            c = st.heap.get(v.a)
            if isinstance(c, ObjCell):
                return ("const", True)
            if isinstance(c, DictCell):
                if c.tag == "empty" and not c.summ:
                    return ("const", bool(c.entries))
                return ("c", ("truth", ("dict", v.a)))
        if isinstance(v, (Fn, Bnd, ClsV, Ext, ExtM, XObj, ModV, EnumV)):
            return ("const", True)
        return ("c", ("truth", self.term(st, v)))

    # ------------------------------------------------------------ statements
    def cap(self, states):
        if len(states) > MAXSTATES:
            self.truncated += 1
            return states[:MAXSTATES]
        return states

    def block(self, stmts, st):
        out = Out()
        cur = [st]
        for s in stmts:
            nxt = []
            for x in cur:
                o = self.stmt(s, x)
                out.merge_flow(o)
                nxt += o.norm
            cur = self.cap(nxt)
            if not cur:
                break
        out.norm = cur
        return out

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            o = Out()
            o.norm = [st]
            return o
        return m(s, st)

    def s_Pass(self, s, st):
        o = Out()
        o.norm = [st]
        return o

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        o = Out()
        scope = {}
        self.prog.imp.__self__ if hasattr(self.prog.imp, "__self__") else None
        fn = self.stack[-1]
        if isinstance(s, ast.Import):
            for a in s.names:
                scope[a.asname or a.name.split(".")[0]] = ("modref", a.name if a.asname else a.name.split(".")[0])
        else:
            base = self.prog.abs_from(fn.mod, s)
            for a in s.names:
                scope[a.asname or a.name] = ("from", base, a.name)
        for k, b in scope.items():
            st.setv(k, self.from_resolved(self.prog.resolve_binding(b), st))
        o.norm = [st]
        return o

    s_ImportFrom = s_Import

    def s_Expr(self, s, st):
        o = Out()
        if isinstance(s.value, ast.Constant):
            o.norm = [st]
            return o
        o.norm = [x for x, _ in self.eval(s.value, st)]
        return o

    def s_Assert(self, s, st):
        o = Out()
        for x, v in self.eval(s.test, st):
            t, f = self.branch(x, self.truth(x, v))
            o.norm += t
            for y in f:
                self.exc[-1].append((y, "AssertionError", s, None))
        return o

    def s_Delete(self, s, st):
        o = Out()
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.delv(t.id)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, vs in self.evals([t.value, t.slice], x):
                        self.lib.del_item(self, y, vs[0], vs[1], s)
                        nxt.append(y)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.eval(t.value, x):
                        if isinstance(b, Ref) and isinstance(y.heap.get(b.a), ObjCell):
                            c = y.heap[b.a]
                            f = dict(c.fields)
                            f.pop(t.attr, None)
                            y.heap[b.a] = c.with_fields(f)
                        nxt.append(y)
                else:
                    nxt.append(x)
            cur = nxt
        o.norm = cur
        return o

    def s_FunctionDef(self, s, st):
        fn = self.stack[-1] if self.stack else None
        info = self.nested_info(s, fn)
        st.setv(s.name, Fn(info, st.cur))
        o = Out()
        o.norm = [st]
        return o

    def nested_info(self, node, fn):
        k = getattr(node, "_finfo", None)
        if k is None:
            k = FuncInfo(fn.mod, node, fn.cls, fn)
            node._finfo = k
        return k

    def s_ClassDef(self, s, st):
        st.setv(s.name, self.havoc("localclass"))
        o = Out()
        o.norm = [st]
        return o

    def s_Return(self, s, st):
        o = Out()
        if s.value is None:
            o.ret = [(st, NONE)]
        else:
            o.ret = list(self.eval(s.value, st))
        return o

    def s_Raise(self, s, st):
        o = Out()
        if s.exc is None:
            self.exc[-1].append((st, "reraise", s, None))
            return o
        e = s.exc
        name = ast.unparse(e.func if isinstance(e, ast.Call) else e).split(".")[-1]
        if isinstance(e, ast.Call):
            for x, _ in self.evals(e.args, st):
                self.exc[-1].append((x, name, s, self.stack[-1] if self.stack else None))
        else:
            self.exc[-1].append((st, name, s, self.stack[-1] if self.stack else None))
        return o

    def s_Break(self, s, st):
        o = Out()
        o.brk = [st]
        return o

    def s_Continue(self, s, st):
        o = Out()
        o.cont = [st]
        return o

    def s_If(self, s, st):
        o = Out()
        for x, v in self.eval(s.test, st):
            t, f = self.branch(x, self.truth(x, v))
            for y in t:
                b = self.block(s.body, y)
                o.norm += b.norm
                o.merge_flow(b)
            for y in f:
                b = self.block(s.orelse, y)
                o.norm += b.norm
                o.merge_flow(b)
        o.norm = self.cap(o.norm)
        return o

    def s_Match(self, s, st):
        o = Out()
        for x, v in self.eval(s.subject, st):
            cur = [x]
            for case in s.cases:
                nxt = []
                for y in cur:
                    p = case.pattern
                    if isinstance(p, ast.MatchAs) and p.pattern is None:
                        if p.name:
                            y.setv(p.name, v)
                        b = self.block(case.body, y)
                        o.norm += b.norm
                        o.merge_flow(b)
                        continue
                    pats = p.patterns if isinstance(p, ast.MatchOr) else [p]
                    c = None
                    for q in pats:
                        if isinstance(q, ast.MatchValue):
                            for _, pv in self.eval(q.value, y.clone()):
                                cc = self.lib.compare(self, y, "eq", v, pv)
                                c = cc if c is None else ("or", [c, cc])
                                break
                        else:
                            self.nhv += 1
                            c = ("c", ("truth", ("havoc", self.nhv)))
                    if case.guard is not None:
                        for _, gv in self.eval(case.guard, y.clone()):
                            c = ("and", [c, self.truth(y, gv)])
                            break
                    t, f = self.branch(y, c)
                    for z in t:
                        b = self.block(case.body, z)
                        o.norm += b.norm
                        o.merge_flow(b)
                    nxt += f
                cur = nxt
            o.norm += cur
        return o

    def s_With(self, s, st):
        cur = [st]
        for it in s.items:
            nxt = []
            for x in cur:
                for y, v in self.eval(it.context_expr, x):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, y, s)
                    else:
                        nxt.append(y)
            cur = nxt
        o = Out()
        for x in cur:
            b = self.block(s.body, x)
            o.norm += b.norm
            o.merge_flow(b)
        return o

    def s_Try(self, s, st):
        o = Out()
        pre = st.clone()
        self.exc.append([])
        b = self.block(s.body, st)
        raised = self.exc.pop()
        inner = Out()
        inner.merge_flow(b)
        for x in b.norm:
            e = self.block(s.orelse, x)
            inner.norm += e.norm
            inner.merge_flow(e)
        pend = []
        for (x, name, node, fn) in raised:
            caught = False
            for h in s.handlers:
                names = self.handler_names(h)
                if names is None or name in names or ("Exception" in names) or "BaseException" in names:
                    if h.name:
                        x.setv(h.name, Unk(("exc", name)))
                    r = self.block(h.body, x)
                    inner.norm += r.norm
                    inner.merge_flow(r)
                    caught = True
                    break
            if not caught:
                pend.append((x, name, node, fn))
        for h in s.handlers:
            x = pre.clone()
            x.flags = x.flags | {"maybe_exc"}
            if h.name:
                x.setv(h.name, Unk(("exc", "?")))
            self.exc.append([])
            r = self.block(h.body, x)
            self.exc.pop()
            inner.norm += r.norm
            inner.merge_flow(r)
        if not s.finalbody:
            self.exc[-1] += pend
            return inner
        for x in inner.norm:
            f = self.block(s.finalbody, x)
            o.norm += f.norm
            o.merge_flow(f)
        for x, v in inner.ret:
            f = self.block(s.finalbody, x)
            o.ret += [(y, v) for y in f.norm]
            o.merge_flow(f)
        for x in inner.brk:
            f = self.block(s.finalbody, x)
            o.brk += f.norm
        for x in inner.cont:
            f = self.block(s.finalbody, x)
            o.cont += f.norm
        for x, name, node, fn in pend:
            f = self.block(s.finalbody, x)
            self.exc[-1] += [(y, name, node, fn) for y in f.norm]
        return o

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {ast.unparse(t).split(".")[-1] for t in ts}

    def s_Assign(self, s, st):
        o = Out()
        for x, v in self.eval(s.value, st):
            cur = [x]
            for t in s.targets:
                cur = [z for y in cur for z in self.assign(t, v, y, s)]
            o.norm += cur
        return o

    def s_AnnAssign(self, s, st):
        o = Out()
        if s.value is None:
            o.norm = [st]
            return o
        for x, v in self.eval(s.value, st):
            o.norm += self.assign(s.target, v, x, s)
        return o

    def declared_global(self, name):
        fn = self.stack[-1] if self.stack else None
        return fn is not None and any(isinstance(n, ast.Global) and name in n.names for n in own_nodes(fn.node))

    def set_global(self, st, name, v, node):
        mod = self.stack[-1].mod
        self.event("global_write", node, st, what="module variable %s.%s" % (mod.name, name))
        self.put_shared(st, ("m", mod.name, name), v)

    def put_shared(self, st, key, v):
        """Module variables and class attributes that functions assign to live in a cell of their own."""
        if self.overlay is not None:
            st.setf(self.overlay, key, v)

    def get_shared(self, st, key):
        if self.overlay is not None:
            return st.heap[self.overlay].fields.get(key)
        return None

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if self.declared_global(t.id):
                self.set_global(st, t.id, v, node)
                if self.overlay is not None:
                    return [st]
            st.setv(t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.eval(t.value, st):
                out += self.set_attr(x, b, self.mangle(t.attr), v, node)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, (b, k) in self.evals([t.value, t.slice], st):
                out += self.lib.set_item(self, x, b, k, v, node)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            cur = [st]
            for i, e in enumerate(t.elts):
                nxt = []
                for x in cur:
                    if star and i >= star[0]:
                        nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, self.havoc("star"), x, node)
                    else:
                        for y, ev in self.lib.get_item(self, x, v, Num(i, "int"), node):
                            nxt += self.assign(e, ev, y, node)
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        return [st]

    def s_AugAssign(self, s, st):
        o = Out()
        t = s.target
        if isinstance(t, ast.Name):
            for x, cur in self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st):
                for y, v in self.eval(s.value, x):
                    for z, r in self.lib.aug(self, y, s.op, cur, v, s):
                        o.norm += self.assign(t, r, z, s)
            return o
        if isinstance(t, ast.Attribute):
            a = self.mangle(t.attr)
            for x, b in self.eval(t.value, st):
                for y, cur in self.get_attr(x, b, a, t):
                    for z, v in self.eval(s.value, y):
                        for w, r in self.lib.aug(self, z, s.op, cur, v, s):
                            o.norm += self.set_attr(w, b, a, r, s)
            return o
        if isinstance(t, ast.Subscript):
            for x, (b, k) in self.evals([t.value, t.slice], st):
                for y, v in self.eval(s.value, x):
                    o.norm += self.lib.aug_item(self, y, s.op, b, k, v, s)
            return o
        o.norm = [st]
        return o

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        o = Out()
        for x, v in self.eval(s.iter, st):
            segs = self.lib.iter_segs(self, x, v, s)
            if isinstance(v, Ref):
                self.event("iterate", s, x, value=v)
            cur = [x]
            brk = []
            small = all(g.n.const() is not None for g in segs) and sum(int(g.n.const()) for g in segs) <= 6 \
                and all(g.n.const() == 1 or not isinstance(g.v, Ref) for g in segs)
            for gi, g in enumerate(segs):
                nxt = []
                for y in cur:
                    self.segno = gi
                    if g.n.const() == 0:
                        nxt.append(y)
                        continue
                    if small:
                        reps = [self.sv(g.v, {g.ix: P(i)}) for i in range(int(g.n.const()))]
                        ys = [y]
                        for rv in reps:
                            ny = []
                            for z in ys:
                                for w in self.assign(s.target, rv, z, s):
                                    b = self.block(s.body, w)
                                    ny += b.norm + b.cont
                                    brk += b.brk
                                    o.ret += b.ret
                            ys = self.cap(ny)
                        nxt += ys
                    else:
                        b = self.loop(y, s, n=g.n, seg=g)
                        nxt += b.norm
                        brk += b.brk
                        o.ret += b.ret
                cur = self.cap(nxt)
            for y in cur:
                e = self.block(s.orelse, y)
                o.norm += e.norm
                o.merge_flow(e)
            o.norm += brk
        o.norm = self.cap(o.norm)
        return o

    s_AsyncFor = s_For

    def s_While(self, s, st):
        self.segno = 0
        b = self.loop(st, s, test=s.test)
        o = Out()
        o.ret = b.ret
        for y in b.norm:
            e = self.block(s.orelse, y)
            o.norm += e.norm
            o.merge_flow(e)
        o.norm += b.brk
        return o

    def iter_body(self, h, s, seg, test, it):
        """One abstract iteration from head state h -> (ends, brk, ret, exits)"""
        exits, starts = [], []
        if test is not None:
            for x, v in self.eval(test, h):
                t, f = self.branch(x, self.truth(x, v))
                starts += t
                exits += f
        else:
            starts = [h]
            if seg is not None:
                ns = []
                for x in starts:
                    ns += self.assign(s.target, self.sv(seg.v, {seg.ix: A(it)}), x, s)
                starts = ns
        ends, brk, ret = [], [], []
        for x in starts:
            b = self.block(s.body, x)
            ends += b.norm + b.cont
            brk += b.brk
            ret += b.ret
        return self.cap(ends), brk, ret, exits

    def loop(self, st, s, n=None, seg=None, test=None):
        """Summarise one loop; returns Out with norm = normal exits, brk = break exits, ret."""
        from .loops import summarise
        self.loops_seen += 1
        return summarise(self, st, s, n, seg, test)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, self.havoc(type(e).__name__))]
        return m(e, st)

    def evals(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in res:
                for y, v in self.eval(e, x):
                    nxt.append((y, vs + [v]))
            res = nxt
        return res

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return [(st, Cst(v))]
        if isinstance(v, int):
            return [(st, Num(v, "int"))]
        if isinstance(v, float):
            return [(st, Num(v, "float"))]
        if isinstance(v, complex):
            p = P(v.real) + P(v.imag) * A(("I",))
            return [(st, Num(p, "complex"))]
        return [(st, self.havoc("const"))]

    def e_JoinedStr(self, e, st):
        return [(st, Unk(("str",)))]

    def e_Name(self, e, st):
        env = st.frames.get(st.cur, {})
        if e.id in env:
            return [(st, env[e.id])]
        # closures
        fid = env.get("$closure")
        while isinstance(fid, int):
            ce = st.frames.get(fid, {})
            if e.id in ce:
                return [(st, ce[e.id])]
            fid = ce.get("$closure")
        fn = self.stack[-1] if self.stack else None
        if fn is None:
            return [(st, self.havoc("noframe"))]
        v = self.get_shared(st, ("m", fn.mod.name, e.id))
        if v is not None:
            return [(st, v)]
        r = self.prog.resolve_name(fn.mod, e.id)
        if r is None:
            self.event("undefined_name", e, st, name=e.id)
            return [(st, self.havoc("undefined " + e.id))]
        return [(st, self.from_resolved(r, st))]

    def from_resolved(self, r, st):
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, ClassInfo):
            return ClsV(r)
        if r is None:
            return self.havoc("unresolved")
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            return self.lib.ext_const(r[1]) or Ext(r[1])
        if r[0] == "const":
            return self.global_value(("m", r[1].name, getattr(r[2], "lineno", 0), getattr(r[2], "col_offset", 0)), r[1], r[2], st)
        return self.havoc("missing")

    def global_value(self, key, mod, expr, st):
        """Module/class level constant.  Mutable containers are shared state."""
        if expr is None:
            return self.havoc("global")
        if isinstance(expr, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)) or \
                (isinstance(expr, ast.Call) and ast.unparse(expr.func).split(".")[-1] in
                 ("dict", "list", "set", "defaultdict", "OrderedDict", "zeros", "array", "deque", "Counter")):
            if key not in self.globals:
                self.globals[key] = self.addr()
            a = self.globals[key]
            if a not in st.heap and self.fresh_globals:
                fi = FuncInfo(mod, ast.parse("def f(): pass").body[0])
                self.stack.append(fi)
                try:
                    r = self.eval(expr, st)
                finally:
                    self.stack.pop()
                if r and isinstance(r[0][1], Ref):
                    st.heap[a] = r[0][0].heap[r[0][1].a]
                    return Ref(a)
            if a not in st.heap:
                if isinstance(expr, ast.Dict) or "ict" in ast.unparse(expr)[:14]:
                    st.heap[a] = DictCell("hist", term=("global",) + key[1:2] + (ast.unparse(expr)[:20],))
                else:
                    t = ("hist", "global " + str(key[1]))
                    st.heap[a] = SeqCell("list", (Seg(seq_len(t), self.ix(), self.havoc("g")),))
                if isinstance(expr, ast.Dict) and expr.keys and all(k is not None for k in expr.keys):
                    ents = []
                    fi = FuncInfo(mod, ast.parse("def f(): pass").body[0])
                    self.stack.append(fi)
                    try:
                        for k, v in zip(expr.keys, expr.values):
                            for _, kv in self.eval(k, st)[:1]:
                                for _, vv in self.eval(v, st)[:1]:
                                    ents.append((self.term(st, kv), kv, vv))
                    finally:
                        self.stack.pop()
                    st.heap[a] = DictCell("hist", ents, term=("global", key[1]))
            return Ref(a)
        fi = FuncInfo(mod, ast.parse("def f(): pass").body[0])
        self.stack.append(fi)
        try:
            r = self.eval(expr, st)
        finally:
            self.stack.pop()
        return r[0][1] if r else self.havoc("global")

    def mangle(self, name):
        fn = self.stack[-1] if self.stack else None
        if fn is not None and fn.cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_" + fn.cls.name.lstrip("_") + name
        return name

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.eval(e.value, st):
            out += self.get_attr(x, b, self.mangle(e.attr), e)
        return out

    def find_member(self, cls, table, name):
        """Class member lookup with name mangling."""
        for c in cls.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
            pre = "_" + c.name.lstrip("_") + "__"
            if name.startswith(pre) and name[len(pre) - 2:] in t:
                return t[name[len(pre) - 2:]]
        return None

    def get_attr(self, st, b, attr, node):
        if isinstance(b, Alt):
            out = []
            for x in b.vs:
                out += self.get_attr(st.clone(), x, attr, node)
            return out
        if isinstance(b, Ref):
            c = st.heap.get(b.a)
            if isinstance(c, ObjCell):
                return self.get_field(st, b, c, attr, node)
            if isinstance(c, DictCell) and attr not in ():
                return [(st, ExtM(b, attr))]
        if isinstance(b, ClsV):
            return [(st, self.class_attr(st, b.info, attr, node))]
        if isinstance(b, SuperV):
            o = st.heap[b.obj.a]
            f = o.cls.find_after(b.after, "getters", attr)
            if f is not None:
                return self.call_fn(f, [b.obj], {}, st, node)
            f = o.cls.find_after(b.after, "methods", attr)
            if f is not None:
                return [(st, Bnd(b.obj, f))]
            return [(st, ExtM(b, attr))]
        if isinstance(b, ModV):
            r = self.prog.resolve_attr(("mod", b.name), attr)
            return [(st, self.from_resolved(r, st))]
        if isinstance(b, Ext):
            n = b.name + "." + attr
            return [(st, self.lib.ext_const(n) or Ext(n))]
        if isinstance(b, EnumV):
            if attr == "value":
                return [(st, Num(A(("enum", b.cls.name, b.name, "int")), "int"))]
            if attr == "name":
                return [(st, Cst(b.name))]
            return [(st, self.havoc("enumattr"))]
        r = self.lib.attr(self, st, b, attr, node)
        if r is not None:
            return [(st, r)]
        return [(st, ExtM(b, attr))]

    def class_attr(self, st, cls, attr, node):
        if cls.is_enum and attr in cls.attrs:
            return EnumV(cls, attr)
        f = self.find_member(cls, "methods", attr)
        if f is not None:
            if f.is_classmethod:
                return Bnd(ClsV(cls), f)
            return Fn(f)
        for c in cls.mro():
            if attr in c.attrs:
                v = self.get_shared(st, ("c", c.name, attr))
                if v is not None:
                    return v
                return self.global_value(("c", c.name, attr), c.mod, c.attrs[attr], st)
        self.event("undefined_attr", node, st, obj="class " + cls.name, attr=attr)
        return self.havoc("classattr " + attr)

    def get_field(self, st, ref, c, attr, node):
        if c.cls is not None:
            g = self.find_member(c.cls, "getters", attr)
            if g is not None and not g.is_abstract:
                return self.call_fn(g, [ref], {}, st, node)
            if attr == "__class__":
                return [(st, ClsV(c.cls))]
            if attr == "__dict__":
                return [(st, self.havoc("dict"))]
        if attr in c.fields:
            v = c.fields[attr]
            self.note_read(st, ref, attr, v, node)
            return [(st, v)]
        if c.cls is not None:
            f = self.find_member(c.cls, "methods", attr)
            if f is not None:
                if f.is_static:
                    return [(st, Fn(f))]
                if f.is_classmethod:
                    return [(st, Bnd(ClsV(c.cls), f))]
                return [(st, Bnd(ref, f))]
            for k in c.cls.mro():
                if attr in k.attrs and not (k.is_dataclass and attr in k.ann):
                    v = self.get_shared(st, ("c", k.name, attr))
                    if v is not None:
                        return [(st, v)]
                    return [(st, self.global_value(("c", k.name, attr), k.mod, k.attrs[attr], st))]
        if c.lazy is not None:
            v = self.lazy_field(st, ref, c, attr)
            if v is not None:
                st.setf(ref.a, attr, v)
                self.note_read(st, ref, attr, v, node)
                return [(st, v)]
        self.event("undefined_attr", node, st, obj=c.cls.name if c.cls else "?", attr=attr, ref=ref)
        return [(st, self.havoc("attr " + attr))]

    def note_read(self, st, ref, attr, v, node):
        if self.quiet:
            return
        self.event("read", node, st, ref=ref, attr=attr, value=v, atoms=None,
                   tainted=self.watch_hist and self.is_tainted(st, v))

    def is_tainted(self, st, v):
        """Value (not the content behind a reference to an object) names leftover state."""
        def bad(v, depth=0):
            if any(a and a[0] in ("hist", "old") for a in self.val_atoms(v)):
                return True
            if isinstance(v, Ref) and depth < 3:
                c = st.heap.get(v.a)
                if isinstance(c, SeqCell):
                    return any(bad(s.v, depth + 1) or any(a and a[0] in ("hist", "old") for a in walk(s.n)) for s in c.segs)
            return False
        return bad(v)

    def lazy_field(self, st, ref, c, attr):
        """Symbolic field of an abstract object, typed from the class declaration."""
        cls = c.cls
        ann = None
        known = False
        if cls is not None:
            g = self.find_member(cls, "getters", attr)
            if g is not None:
                ann, known = g.node.returns, True
            for (n, a, d) in cls.dataclass_fields():
                if n == attr:
                    ann, known = a, True
            if not known:
                return None
            mod = cls.mod
        else:
            return Unk(("attr", c.lazy, attr, "any"), "any", c.roots, c.roots)
        roots = c.roots
        if not roots and c.origin is not None and c.origin[0] in ("sym", "shallow"):
            # data inside an object the caller handed over
            roots = frozenset(["%s of %s" % (attr, c.lazy[1] if c.lazy[0] == "param" else c.lazy[2])])
        return self.typed(st, ("attr", c.lazy, attr), attr, ann, mod, roots)

    # ------------------------------------------------------------ typed symbolic values
    def typed(self, st, term, name, ann, mod, roots=EMPTY):
        """Symbolic value for a parameter/field from its annotation and name."""
        ty = self.ann_type(name, ann, mod)
        if ty in ("int", "float"):
            a = term + (ty,)
            return Num(A(a), ty)
        if ty == "bool":
            return Unk(term + ("bool",), "bool")
        if isinstance(ty, tuple) and ty[0] == "seq":
            return Unk(term + ("seq",), ty, roots, roots)
        if isinstance(ty, ClassInfo):
            if ty.is_enum:
                return Unk(term + ("enum",), "any")
            return self.alloc(st, ObjCell(ty, {}, lazy=term + ("obj",), roots=roots if ty.is_dataclass else EMPTY,
                                          origin=("sym", term)))
        return Unk(term + ("any",), "any", roots, roots)

    def ann_type(self, name, ann, mod):
        low = name.lower()
        if ann is not None:
            txt = ast.unparse(ann) if not isinstance(ann, str) else ann
            if txt.startswith("Optional[") or txt.startswith("typing.Optional["):
                inner = ann.slice
                return self.ann_type(name, inner, mod)
            if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
                return self.ann_type(name, ann.left, mod)
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                try:
                    return self.ann_type(name, ast.parse(ann.value, mode="eval").body, mod)
                except SyntaxError:
                    pass
            if isinstance(ann, (ast.Name, ast.Attribute)):
                r = self.prog.resolve_expr(mod, ann)
                if isinstance(r, ClassInfo):
                    return r
                if isinstance(r, tuple) and r[0] == "mod":
                    # the annotation names a module (as in the configuration dataclass)
                    m = self.prog.mods[r[1]]
                    want = r[1].split(".")[-1].replace("_", "")
                    for v in m.scope.values():
                        if isinstance(v, ClassInfo) and v.mod is m and v.name.lower() == want:
                            return v
                if txt == "int":
                    return "int"
                if txt == "float":
                    return "float"
                if txt == "bool":
                    return "bool"
            if "matrix" in low or txt.count("Sequence[Sequence") or "Sequence[Sequence[complex" in txt:
                if "outcome" not in low and "matrices_number" not in low:
                    return ("seq", ("seq", "num"))
            if txt.startswith(("List[Tuple", "List[Sequence", "Iterable[Iterable", "List[List", "List[ndarray", "List[Iterable",
                               "Sequence[Sequence", "Sequence[Tuple")):
                return ("seq", ("seq", "int"))
            if txt.startswith(("List[float", "Sequence[float")):
                return ("seq", "float")
            if txt.startswith("ndarray") or txt.startswith("numpy.ndarray") or txt.startswith("np.ndarray"):
                return ("seq", "int" if ("state" in low or "outcome" in low or "input" in low or "output" in low) else "num")
            if txt.startswith(("Sequence", "List", "Tuple", "Iterable")):
                return ("seq", "int" if "int" in txt else "any")
            if txt.startswith("Dict"):
                return "any"
        if "matrix" in low:
            return ("seq", ("seq", "num"))
        if low.endswith("state"):
            return ("seq", "int")
        if low.endswith("_number") or low.startswith("number_of"):
            return "int"
        if "outcomes" in low:
            return ("seq", ("seq", "int"))
        if ann is None:
            # no annotation: the package's own vocabulary
            if low in ("m", "n", "k") or low.endswith("hierarchy_level"):
                return "int"
            if low.endswith("transmissivity") or low in ("accuracy", "eta"):
                return "float"
            for end, cls in (("permanent_calculator", "BSPermanentCalculatorInterface"), ("network_simulation_strategy", "NetworkSimulationStrategy"),
                             ("experiment_configuration", "BosonSamplingExperimentConfiguration"), ("configuration", "BosonSamplingExperimentConfiguration"),
                             ("strategy", "SimulationStrategyInterface")):
                if low.endswith(end) and cls in self.prog.classes:
                    return self.prog.classes[cls]
        return "any"

    def set_attr(self, st, b, attr, v, node):
        if isinstance(b, Alt):
            out = []
            for x in b.vs:
                out += self.set_attr(st.clone(), x, attr, v, node)
            return out
        if isinstance(b, Ref):
            c = st.heap.get(b.a)
            if isinstance(c, ObjCell):
                if c.cls is not None:
                    f = self.find_member(c.cls, "setters", attr)
                    if f is not None and not f.is_abstract:
                        return [x for x, _ in self.call_fn(f, [b, v], {}, st, node)]
                    if f is None:
                        g = self.find_member(c.cls, "getters", attr)
                        if g is not None and not g.is_abstract:
                            self.event("undefined_attr", node, st, obj=c.cls.name, attr=attr + " (no setter)", ref=b)
                if c.roots:
                    self.event("mutate", node, st, roots=c.roots, what="attribute %s" % attr)
                self.event("write", node, st, ref=b, attr=attr, value=v)
                st.setf(b.a, attr, v)
                return [st]
            self.event("mutate", node, st, roots=self.roots(st, b), what="attribute %s" % attr)
            return [st]
        if isinstance(b, ClsV):
            self.event("global_write", node, st, what="class attribute %s.%s" % (b.info.name, attr))
            own = next((k for k in b.info.mro() if isinstance(k, ClassInfo) and attr in k.attrs), b.info)
            self.put_shared(st, ("c", own.name, attr), v)
            return [st]
        if isinstance(b, Unk) and b.roots:
            self.event("mutate", node, st, roots=b.roots, what="attribute %s" % attr)
        if isinstance(b, ModV):
            self.event("global_write", node, st, what="module attribute %s.%s" % (b.name, attr))
        return [st]

    def e_BinOp(self, e, st):
        out = []
        for x, (a, b) in self.evals([e.left, e.right], st):
            out += self.lib.binop(self, x, e.op, a, b, e)
        return out

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.eval(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((x, CondV(("not", self.truth(x, v)))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, (Num, Cst)):
                    out.append((x, Num(-self.to_poly(x, v), self.num_ty(v))))
                else:
                    out += self.lib.binop(self, x, ast.Mult(), Num(-1, "int"), v, e)
            else:
                out.append((x, v))
        return out

    def e_BoolOp(self, e, st):
        """Short circuit; the value is the deciding operand."""
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        # if every operand is a plain condition keep one condition value
        vals = []
        res = [(st, [])]
        pure = True
        snap_exc = len(self.exc[-1])
        trial = [(st.clone(), [])]
        self.quiet += 1
        try:
            for v in e.values:
                nxt = []
                for x, vs in trial:
                    for y, r in self.eval(v, x):
                        nxt.append((y, vs + [r]))
                trial = nxt
                if len(trial) != 1:
                    pure = False
                    break
        finally:
            self.quiet -= 1
            del self.exc[-1][snap_exc:]
        if pure and len(trial) == 1 and all(isinstance(v, CondV) for v in trial[0][1]) and \
                self.cheap(e):
            # evaluate for real, in order
            for x, vs in self.evals(e.values, st):
                out.append((x, CondV(("and" if isand else "or", [v.c for v in vs]))))
            return out
        for i, v in enumerate(e.values):
            nxt = []
            for x in cur:
                for y, r in self.eval(v, x):
                    if i == len(e.values) - 1:
                        out.append((y, r))
                        continue
                    t, f = self.branch(y, self.truth(y, r))
                    go, stop = (t, f) if isand else (f, t)
                    nxt += go
                    for z in stop:
                        out.append((z, Cst(not isand) if isinstance(r, CondV) else r))
            cur = nxt
        return out

    def cheap(self, e):
        return not any(isinstance(n, (ast.Call, ast.NamedExpr)) and not (
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "sum", "int", "isclose", "max", "min", "abs"))
            for n in ast.walk(e))

    def e_Compare(self, e, st):
        out = []
        for x, vs in self.evals([e.left] + e.comparators, st):
            cs = []
            for i, op in enumerate(e.ops):
                cs.append(self.lib.compare_op(self, x, op, vs[i], vs[i + 1], e))
            if len(cs) == 1:
                c = cs[0]
                out.append((x, c if isinstance(c, Val) else CondV(c)))
            else:
                out.append((x, CondV(("and", [c.c if isinstance(c, CondV) else c for c in cs]))))
        return out

    def e_IfExp(self, e, st):
        out = []
        for x, v in self.eval(e.test, st):
            t, f = self.branch(x, self.truth(x, v))
            for y in t:
                out += self.eval(e.body, y)
            for y in f:
                out += self.eval(e.orelse, y)
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.eval(e.value, st):
            x.setv(e.target.id, v)
            out.append((x, v))
        return out

    def e_Lambda(self, e, st):
        info = self.nested_info(e, self.stack[-1])
        return [(st, Fn(info, st.cur))]

    def e_List(self, e, st):
        return self.display("list", e, st)

    def e_Tuple(self, e, st):
        return self.display("tuple", e, st)

    def display(self, kind, e, st):
        out = []
        es = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for x, vs in self.evals(es, st):
            segs = []
            er = EMPTY
            for n, v in zip(e.elts, vs):
                if isinstance(n, ast.Starred):
                    w = self.view(x, v)
                    segs += self.lib.iter_segs(self, x, v, e)
                    er |= w.er if w is not None else self.roots(x, v)
                else:
                    segs.append(Seg(1, self.ix(), v))
                    er |= self.roots(x, v)
            out.append((x, self.seq(x, kind, segs, er=er)))
        return out

    def e_Set(self, e, st):
        return self.display("set", e, st)

    def e_Dict(self, e, st):
        out = []
        if any(k is None for k in e.keys):
            for x, _ in self.evals(e.values, st):
                out.append((x, self.alloc(x, DictCell("sym"))))
            return out
        for x, vs in self.evals([z for kv in zip(e.keys, e.values) for z in kv], st):
            ents = tuple((self.term(x, vs[i]), vs[i], vs[i + 1]) for i in range(0, len(vs), 2))
            out.append((x, self.alloc(x, DictCell("empty", ents))))
        return out

    def e_Subscript(self, e, st):
        out = []
        for x, (b, k) in self.evals([e.value, e.slice], st):
            out += self.lib.get_item(self, x, b, k, e)
        return out

    def e_Slice(self, e, st):
        parts = [p for p in (e.lower, e.upper, e.step)]
        out = []
        for x, vs in self.evals([p for p in parts if p is not None], st):
            it = iter(vs)
            a = [next(it) if p is not None else None for p in parts]
            out.append((x, SliceV(*a)))
        return out

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # comprehensions are loops with an accumulator
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen")

    def e_SetComp(self, e, st):
        return [(x, Unk(("setcomp", self.term(x, v)))) for x, v in self.comp(e, st, "list")]

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        key = "_desugar"
        if not hasattr(e, key):
            acc = "$acc%d" % id(e)
            if kind == "dict":
                body = [ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), e.key, ast.Store())], e.value)]
            else:
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))]
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for b in body:
                for n in ast.walk(b):
                    if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
                        n.lineno, n.col_offset = e.lineno, e.col_offset
                        n.end_lineno, n.end_col_offset = e.lineno, e.col_offset
            names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            e._desugar = (acc, body[0], names)
        acc, loop, names = e._desugar
        saved = {n: st.getv(n) for n in names}
        if kind == "dict":
            st.setv(acc, self.alloc(st, DictCell("empty")))
        else:
            st.setv(acc, self.seq(st, "list", ()))
        o = self.stmt(loop, st)
        out = []
        for x in o.norm:
            v = x.getv(acc)
            x.delv(acc)
            for n, old in saved.items():
                if old is None:
                    x.delv(n)
                else:
                    x.setv(n, old)
            if kind == "gen" and isinstance(v, Ref):
                x.heap[v.a] = x.heap[v.a].with_(kind="gen")
            out.append((x, v))
        return out

    def e_Yield(self, e, st):
        return [(st, self.havoc("yield"))]

    e_YieldFrom = e_Yield

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.frames.get(st.cur, {}):
            fn = self.stack[-1]
            f0 = fn
            while f0.outer is not None:
                f0 = f0.outer
            ps = f0.params()
            obj = st.getv(ps[0][0]) if ps else None
            return [(st, SuperV(obj, f0.cls))]
        for x, f in self.eval(e.func, st):
            argn = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwn = [k.value for k in e.keywords]
            for y, vs in self.evals(argn + kwn, x):
                args, star = [], False
                for n, v in zip(e.args, vs):
                    if isinstance(n, ast.Starred):
                        w = self.view(y, v)
                        if w is not None and all(s.n.const() == 1 for s in w.segs):
                            args += [s.v for s in w.segs]
                        else:
                            star = True
                            args.append(v)
                    else:
                        args.append(v)
                kw = {}
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        c = y.heap.get(v.a) if isinstance(v, Ref) else None
                        if isinstance(c, DictCell) and c.tag == "empty" and not c.summ:
                            for kt, kv, vv in c.entries:
                                if isinstance(kv, Cst):
                                    kw[kv.v] = vv
                        else:
                            star = True
                    else:
                        kw[k.arg] = v
                if star:
                    kw["$star"] = True
                out += self.call(f, args, kw, y, e)
        return self.cap(out)

    def call(self, f, args, kw, st, node):
        self.calls_seen += 1
        if isinstance(f, Alt):
            out = []
            for x in f.vs:
                out += self.call(x, list(args), dict(kw), st.clone(), node)
            return out
        if isinstance(f, Fn):
            return self.call_fn(f.info, args, kw, st, node, f.fid)
        if isinstance(f, Bnd):
            return self.call_fn(f.info, [f.obj] + args, kw, st, node, f.fid)
        if isinstance(f, ClsV):
            return self.instantiate(f.info, args, kw, st, node)
        if isinstance(f, (Ext, ExtM)):
            kw = {k: v for k, v in kw.items() if k != "$star"}
            if isinstance(f, Ext):
                return self.lib.call_ext(self, st, f.name, args, kw, node)
            return self.lib.call_method(self, st, f.obj, f.name, args, kw, node)
        if isinstance(f, XObj) and f.kind == "partial":
            return self.call(f.data["f"], f.data["args"] + args, dict(f.data["kw"], **kw), st, node)
        if isinstance(f, Ref):
            c = st.heap.get(f.a)
            if isinstance(c, ObjCell) and c.cls is not None:
                m = c.cls.find_method("__call__")
                if m is not None:
                    return self.call_fn(m, [f] + args, kw, st, node)
        kw = {k: v for k, v in kw.items() if k != "$star"}
        self.event("opaque_call", node, st, f=f)
        return [(st, Unk(("call", self.term(st, f)) + tuple(self.term(st, a) for a in args) +
                        tuple((k, self.term(st, v)) for k, v in sorted(kw.items())), "any"))]

    def bind(self, info, args, kw, st, node):
        """-> list of (st, env) or None when the arguments do not fit."""
        ps = info.params()
        env = {}
        kw = dict(kw)
        star = kw.pop("$star", False)
        pos = [p for p in ps if p[3] == "pos"]
        var = [p for p in ps if p[3] == "var"]
        varkw = [p for p in ps if p[3] == "varkw"]
        if len(args) > len(pos):
            if var:
                env[var[0][0]] = self.seqof(st, "tuple", args[len(pos):])
            elif not star:
                self.event("bad_call", node, st, callee=info.qual, why="too many positional arguments")
            args = args[: len(pos)]
        elif var:
            env[var[0][0]] = self.seqof(st, "tuple", [])
        for p, a in zip(pos, args):
            env[p[0]] = a
        for k in list(kw):
            if any(p[0] == k and p[3] in ("pos", "kw") for p in ps):
                if k in env:
                    self.event("bad_call", node, st, callee=info.qual, why="argument %s given twice" % k)
                env[k] = kw.pop(k)
        if varkw:
            env[varkw[0][0]] = self.alloc(st, DictCell("empty", [(("cst", repr(k)), Cst(k), v) for k, v in kw.items()]))
        elif kw and not star:
            self.event("bad_call", node, st, callee=info.qual, why="unexpected keyword %s" % sorted(kw))
        for p in ps:
            if p[0] in env or p[3] in ("var", "varkw"):
                continue
            if p[2] is not None:
                d = p[2]
                if isinstance(d, (ast.List, ast.Dict, ast.Set)) or \
                        (isinstance(d, ast.Call) and ast.unparse(d.func) in ("list", "dict", "set", "defaultdict")):
                    env[p[0]] = self.global_value(("d", info.qual, p[0]), info.mod, d, st)
                else:
                    self.stack.append(info)
                    try:
                        r = self.eval(d, st)
                    finally:
                        self.stack.pop()
                    env[p[0]] = r[0][1]
            else:
                if not star:
                    self.event("bad_call", node, st, callee=info.qual, why="missing argument %s" % p[0])
                env[p[0]] = self.havoc("missing arg")
        return env

    def call_fn(self, info, args, kw, st, node, closure=None):
        h = self.vocab.get(info.qual if info.cls else info.mod.name + "." + info.name)
        if h is not None and self.stack:
            r = h(self, info, args, kw, st, node)
            if r is not None:
                return r
        if info.cls is not None and args and isinstance(args[0], Ref):
            # abstract operation of a symbolic object
            c = st.heap.get(args[0].a)
            if isinstance(c, ObjCell) and c.lazy is not None and (info.is_abstract or c.lazy[0] != "concrete"):
                r = self.lib.interface_call(self, info, args, kw, st, node)
                if r is not None:
                    return r
        if any(f is info for f in self.stack) or len(self.stack) > MAXDEPTH:
            t = ("rec", info.qual) + tuple(self.term(st, a) for a in args)
            ty = self.ann_type("", getattr(info.node, "returns", None), info.mod) if getattr(info.node, "returns", None) is not None else "any"
            if isinstance(ty, ClassInfo):
                ty = "any"
            self.event("recursion", node, st, callee=info.qual)
            if ty in ("int", "float"):
                return [(st, Num(A(("val", t, ty)), ty))]
            return [(st, Unk(t, ty))]
        gen = generator_body(info.node)
        if gen == "endless":
            st.flags = st.flags | {"endless generator"}
            t = ("gencall", info.qual) + tuple(self.term(st, a) for a in args)
            return [(st, Unk(t, ("seq", "any")))]
        env = self.bind(info, args, kw, st, node)
        for d in info.decos:
            if d.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "cached_property"):
                self.event("memoised", node, st, callee=info)
        self.event("call", node, st, callee=info, args=args, kw=kw, env=env)
        self.funcs_seen.add(info)
        self.nfid += 1
        fid = self.nfid
        caller = st.cur
        env["$closure"] = closure
        st.frames[fid] = env
        st.cur = fid
        self.stack.append(info)
        self.cstack.append(id(node))
        try:
            if isinstance(info.node, ast.Lambda):
                rets = self.eval(info.node.body, st)
                norm = []
            else:
                if gen is not None:
                    st.setv("$gen", self.seq(st, "list", ()))
                o = self.block(info.node.body if gen is None else gen, st)
                rets, norm = o.ret, o.norm
                if gen is not None:
                    # what was yielded, produced at once as a generator expression is
                    rets, norm = [(x, x.getv("$gen")) for x in [y for y, _ in rets] + norm], []
                    for x, v in rets:
                        if isinstance(v, Ref) and isinstance(x.heap.get(v.a), SeqCell):
                            x.heap[v.a] = x.heap[v.a].with_(kind="gen")
        finally:
            self.stack.pop()
            self.cstack.pop()
        out = [(x, v) for x, v in rets] + [(x, NONE) for x in norm]
        keep = any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for n in own_nodes(info.node))
        for x, v in out:
            x.cur = caller
            if not keep:
                x.frames.pop(fid, None)
            self.event("return", node, x, callee=info, value=v, implicit=any(x is z for z in norm))
        return self.cap(out)

    def instantiate(self, cls, args, kw, st, node):
        if cls.is_enum:
            return [(st, Unk(("enumcall", cls.name)))]
        if cls.is_dataclass:
            fields = {}
            fs = cls.dataclass_fields()
            kw2 = {k: v for k, v in kw.items() if k != "$star"}
            if len(args) > len(fs) or any(k not in [f[0] for f in fs] for k in kw2):
                self.event("bad_call", node, st, callee=cls.name, why="no such field")
            for (n, a, d), v in zip(fs, args):
                fields[n] = v
            for k, v in kw2.items():
                fields[k] = v
            for n, a, d in fs:
                if n not in fields:
                    if d is not None:
                        fields[n] = self.global_value(("dc", cls.name, n), cls.mod, d, st)
                    else:
                        self.event("bad_call", node, st, callee=cls.name, why="missing field %s" % n)
                        fields[n] = self.havoc("missing field")
            r = self.alloc(st, ObjCell(cls, fields))
            self.event("new", node, st, cls=cls, args=args, kw=kw, env=dict(fields), ref=r)
            return [(st, r)]
        ab = cls.abstract_names()
        if ab:
            self.event("bad_call", node, st, callee=cls.name, why="abstract class (%s)" % ", ".join(sorted(ab)))
        r = self.alloc(st, ObjCell(cls, {}))
        init = cls.find_method("__init__")
        if init is None:
            if args or kw:
                self.event("bad_call", node, st, callee=cls.name, why="constructor takes no arguments")
            self.event("new", node, st, cls=cls, args=args, kw=kw, env={}, ref=r)
            return [(st, r)]
        env = self.bind(init, [r] + args, dict(kw), st.clone(), node) if not self.quiet else {}
        self.event("new", node, st, cls=cls, args=args, kw=kw, env=env, ref=r)
        return [(x, r) for x, _ in self.call_fn(init, [r] + args, kw, st, node)]


def mentions_bv(t, bv):
    return isinstance(t, (tuple, Poly)) and mentions(t, lambda a: a == bv)


def subst_cond(c, m):
    return tuple(subst(x, m) if isinstance(x, (Poly, tuple)) else x for x in c)


class Yields(ast.NodeTransformer):
    """yield x is an append to the sequence the call produces."""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def call(self, n, how, arg):
        c = ast.Call(ast.Attribute(ast.Name("$gen", ast.Load()), how, ast.Load()), [arg], [])
        for x in (c, c.func, c.func.value):
            ast.copy_location(x, n)
        return c

    def visit_Yield(self, n):
        self.generic_visit(n)
        return self.call(n, "append", n.value if n.value is not None else ast.copy_location(ast.Constant(None), n))

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return self.call(n, "extend", n.value)


def generator_body(fn):
    """None: not a generator; "endless": its end is not bounded; else its statements with the yields collected."""
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    if not hasattr(fn, "_genbody"):
        fn._genbody = None
        ns = list(own_nodes(fn))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ns):
            if any(isinstance(n, ast.While) and isinstance(n.test, ast.Constant) for n in ns) or \
                    any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in ns if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign))
                        for n in ast.walk(s)):
                fn._genbody = "endless"
            else:
                t = Yields()
                fn._genbody = [t.visit(s) for s in copy.deepcopy(fn.body)]
    return fn._genbody


def own_nodes(fn):
    """Nodes of a function body without nested functions' bodies."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
