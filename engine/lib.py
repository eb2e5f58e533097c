"""Transfer functions for Python and numpy operations used by the analysed package.

Everything not modelled here yields an uninterpreted term of its arguments, so an unknown
operation makes a result undecided, never wrong."""
import ast
import math

from .terms import *
from .terms import as_term
from .values import *
from .program import ClassInfo, FuncInfo
from .interp import FSeq, View, Out

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "fill", "resize", "itemset",
            "put", "partition", "setfield", "update", "setdefault", "popitem", "add", "discard", "appendleft",
            "popleft", "byteswap", "setflags", "__setitem__", "__delitem__", "__iadd__"}


# ------------------------------------------------------------------ small helpers

def arg(args, kw, i, name=None, default=None):
    if i is not None and i < len(args):
        return args[i]
    if name is not None and name in kw:
        return kw[name]
    return default


def one(st, v):
    return [(st, v)]


def num(I, st, v):
    return I.to_poly(st, v)


def tyjoin(*ts):
    if any(t == "complex" for t in ts):
        return "complex"
    if any(t in ("num", "any") for t in ts):
        return "num"
    if any(t == "float" for t in ts):
        return "float"
    if any(t == "fint" for t in ts):
        return "fint"
    return "int"


def dtype_ty(I, v):
    """Element type asked for by a dtype argument; None when not given, '?' when unknown."""
    if v is None or (isinstance(v, Cst) and v.v is None):
        return None
    name = None
    if isinstance(v, Ext):
        name = v.name.split(".")[-1]
    elif isinstance(v, Cst) and isinstance(v.v, str):
        name = v.v
    if name is None:
        return "?"
    if name.startswith(("int", "uint", "i8", "i4", "intc", "intp", "long")):
        return "int"
    if name.startswith(("float", "f8", "double", "f4", "single", "half")):
        return "float"
    if name.startswith(("complex", "c16", "cdouble", "cfloat", "csingle", "clongdouble")):
        return "complex"
    if name.startswith("bool"):
        return "int"
    if name == "object":
        return None
    return "?"


def cast(v, ty, I=None):
    """Value converted to an element type."""
    if ty is None:
        return v
    if ty == "?":
        ty = "num"
    if isinstance(v, Num):
        if ty == "int" and v.ty not in ("int", "fint") and not is_int(v.p):
            return Num(A(("int", v.p, "int")), "int")
        return Num(v.p, ty)
    if isinstance(v, Cst) and isinstance(v.v, (bool, int, float)):
        return Num(P(v.v), ty)
    if isinstance(v, FSeq):
        return FSeq("nd", [Seg(s.n, s.ix, cast(s.v, ty, I)) for s in v.segs])
    if isinstance(v, Unk) and isinstance(v.ty, tuple):
        return Unk(v.t, ("seq", ty) if not isinstance(v.ty[1], tuple) else ("seq", ("seq", ty)))
    if isinstance(v, CondV) and I is not None:
        return Num(I.to_poly(None, v), ty)
    return v


def elem_ty(I, v):
    if isinstance(v, (Num, Cst, CondV, EnumV)):
        return I.num_ty(v)
    return "any"


def is_matrix(I, st, v):
    w = I.view(st, v)
    return w is not None and any(I.view(st, s.v) is not None for s in w.segs)


def isseq(I, st, v):
    return I.view(st, v) is not None


def fseq(I, st, kind, segs, tag=None, er=EMPTY):
    r = I.seq(st, kind, segs, er=er)
    if tag:
        st.heap[r.a] = st.heap[r.a].with_(tag=tag)
    return r


def tagof(st, v):
    if isinstance(v, Ref):
        c = st.heap.get(v.a)
        if isinstance(c, SeqCell):
            return c.tag
    return None


def fz(I, st, v):
    return I.freeze(st, v)


def seq_term_value(I, st, t, ety, kind="nd", tag=None, roots=EMPTY, er=EMPTY):
    """A heap sequence whose content is named by a term."""
    i = I.ix()
    r = I.seq(st, kind, [Seg(seq_len(t), i, I.elem_of(t, A(i), ety, er))], roots, er)
    if tag:
        st.heap[r.a] = st.heap[r.a].with_(tag=tag)
    return r


def mutated(I, st, v, what, node):
    r = I.roots(st, v)
    if isinstance(v, Ref):
        c = st.heap.get(v.a)
        if isinstance(c, SeqCell) and c.kind == "tuple":
            r = EMPTY
    I.event("mutate", node, st, roots=r, what=what, value=v)


def materialise(I, st, v):
    """Give an unknown or frozen sequence a heap cell, replacing it wherever the state holds it."""
    w = I.view(st, v)
    if w is None:
        return v
    kind = w.kind
    ref = I.alloc(st, SeqCell(kind, w.segs, w.roots, w.er))

    def hit(x):
        return x is v or (isinstance(v, Unk) and isinstance(x, Unk) and x.t == v.t)
    for fid, env in list(st.frames.items()):
        if any(hit(x) for x in env.values()):
            st.frames[fid] = {k: (ref if hit(x) else x) for k, x in env.items()}
    for a, c in list(st.heap.items()):
        if isinstance(c, ObjCell) and any(hit(x) for x in c.fields.values()):
            st.heap[a] = c.with_fields({k: (ref if hit(x) else x) for k, x in c.fields.items()})
        elif isinstance(c, SeqCell) and any(hit(s.v) and s.n.const() == 1 for s in c.segs):
            st.heap[a] = c.with_(segs=tuple(Seg(s.n, s.ix, ref) if hit(s.v) and s.n.const() == 1 else s for s in c.segs))
    return ref


def tobj(I, st, v):
    """Reference to a mutable cell for v (materialising when needed)."""
    if isinstance(v, Ref):
        return v
    if isinstance(v, (FSeq, Unk)) and I.view(st, v) is not None:
        return materialise(I, st, v)
    return v


# ------------------------------------------------------------------ segments

def ge0(I, st, p):
    return I.lb_nonneg(p, I.known_nonneg(st))


def norm_index(I, st, k, n):
    """Index with negative constants counted from the end."""
    c = k.const()
    if c is not None:
        return n + k if c < 0 else k
    if not ge0(I, st, k) and ge0(I, st, -k - 1):
        return n + k
    return k


def window(I, st, segs, lo, cnt):
    """Segments of cnt elements from offset lo (both within range); None if not resolvable."""
    out = []
    total = P(0)
    for s in segs:
        total = total + s.n
    if len(segs) == 1:
        s = segs[0]
        if not lo.t:
            return [Seg(cnt, s.ix, s.v)]
        j = I.ix()
        return [Seg(cnt, j, I.sv(s.v, {s.ix: A(j) + lo}))]
    if not lo.t and cnt == total:
        return list(segs)
    off = P(0)
    end = lo + cnt
    for s in segs:
        a, b = off, off + s.n
        off = b
        # part of [a,b) inside [lo,end)
        if ge0(I, st, lo - b) or ge0(I, st, a - end):
            continue
        if ge0(I, st, a - lo):
            st_ = a
        elif ge0(I, st, lo - a):
            st_ = lo
        else:
            return None
        if ge0(I, st, end - b):
            en = b
        elif ge0(I, st, b - end):
            en = end
        else:
            return None
        n = en - st_
        if not n.t:
            continue
        d = st_ - a
        if not d.t:
            out.append(Seg(n, s.ix, s.v))
        else:
            j = I.ix()
            out.append(Seg(n, j, I.sv(s.v, {s.ix: A(j) + d})))
    return out


def ety_of(I, segs):
    ts = set()
    for s in segs:
        if isinstance(s.v, (Num, Cst, CondV)):
            ts.add(I.num_ty(s.v))
        elif isinstance(s.v, Unk) and isinstance(s.v.ty, tuple):
            ts.add(s.v.ty)
        elif isinstance(s.v, FSeq):
            ts.add(("seq", ety_of(I, s.v.segs)))
        else:
            ts.add("any")
    if len(ts) == 1:
        return ts.pop()
    if ts and all(isinstance(t, str) and t != "any" for t in ts):
        return tyjoin(*ts)
    return "any"


def at(I, st, w, k, node=None):
    """Element of a view at index k (Poly)."""
    n = I.vlen(w)
    k = norm_index(I, st, k, n)
    if node is not None and w.segs:
        if I.watch_index:
            I.event("index", node, st, index=k, length=n, store=False)
        if ge0(I, st, k - n):
            I.event("oob", node, st, index=k, length=n)
    segs = [s for s in w.segs if s.n.const() != 0]
    if not segs:
        return I.havoc("empty index")
    if len(segs) == 1:
        return I.sv(segs[0].v, {segs[0].ix: k})
    off = P(0)
    for s in segs:
        d = k - off
        if ge0(I, st, d) and ge0(I, st, s.n - d - 1):
            return I.sv(s.v, {s.ix: d})
        off = off + s.n
    if all(isinstance(s.v, (Num, Cst)) for s in segs):
        t = I.segs_term(st, segs)
        ty = ety_of(I, segs)
        return Num(item(t, k, "int" if ty == "int" else "num"), ty)
    vs = []
    for s in segs:
        v = I.sv(s.v, {s.ix: A(("anyit", I.nix_next(), "int"))}) if s.n.const() != 1 else I.sv(s.v, {s.ix: P(0)})
        vs.append(v)
    if len(vs) > 8:
        return Unk(("item", I.segs_term(st, segs), k, "any"), "any", w.er, w.er)
    return Alt(vs)


def put(I, st, ref, k, v, node):
    """Element store into a heap sequence."""
    c = st.heap[ref.a]
    w = View(c.kind, c.segs, c.roots, c.er)
    n = I.vlen(w)
    k = norm_index(I, st, k, n)
    if I.watch_index and c.segs:
        I.event("index", node, st, index=k, length=n, store=True)
    if ge0(I, st, k - n) and c.segs:
        I.event("oob", node, st, index=k, length=n)
    if c.kind == "nd":
        ty = ety_of(I, c.segs)
        if ty == "int" and isinstance(v, (Num, Cst)):
            v = cast(v, "int", I) if I.num_ty(v) in ("int", "fint") or is_int(I.to_poly(st, v)) else Num(A(("int", I.to_poly(st, v), "int")), "int")
    er = c.er | I.roots(st, v)
    segs = [s for s in c.segs if s.n.const() != 0]
    off = P(0)
    for i, s in enumerate(segs):
        d = k - off
        if s.n.const() == 1 and not d.t:
            segs[i] = Seg(1, I.ix(), v)
            st.heap[ref.a] = c.with_(segs=tuple(segs), er=er)
            return
        if (k.const() is not None or len(segs) > 1) and ge0(I, st, d) and (len(segs) == 1 or ge0(I, st, s.n - d - 1)) \
                and (d.const() is not None or (s.n - d).const() is not None):
            left = window(I, st, [s], P(0), d) if d.t else []
            r = s.n - d - 1
            right = window(I, st, [s], d + 1, r) if r.t else []
            segs[i:i + 1] = left + [Seg(1, I.ix(), v)] + right
            st.heap[ref.a] = c.with_(segs=tuple(segs), er=er)
            return
        off = off + s.n
    t = I.segs_term(st, segs)
    ety = ety_of(I, segs)
    if isinstance(ety, str) and ety != "any" and isinstance(v, (Num, Cst)):
        ty = tyjoin(ety, I.num_ty(v)) if c.kind != "nd" else ety
        u = ("upd", t, k, I.to_poly(st, v), ty if ty in ("int", "float") else "num")
    else:
        fv = fz(I, st, v)
        ty = "any" if not (isinstance(ety, tuple) and I.view(st, fv) is not None) else ety
        u = ("updv", t, k, I.term(st, fv))
        SEQINFO[u] = {"len": n, "sum": None, "ty": "any", "lb": None}
    i = I.ix()
    st.heap[ref.a] = c.with_(segs=(Seg(n, i, I.elem_of(u, A(i), ty, er)),), er=er)


def put_window(I, st, ref, lo, hi, v, node):
    """Slice store a[lo:hi] = v with v scalar (numpy) or a sequence of the same length."""
    c = st.heap[ref.a]
    w = View(c.kind, c.segs, c.roots, c.er)
    n = I.vlen(w)
    lo2, cnt = slice_range(I, st, lo, hi, n)
    left = window(I, st, c.segs, P(0), lo2)
    right = window(I, st, c.segs, lo2 + cnt, n - lo2 - cnt)
    if left is None or right is None:
        t = I.segs_term(st, c.segs)
        ety = ety_of(I, c.segs)
        u = ("updw", t, lo2, cnt, I.term(st, v))
        SEQINFO[u] = {"len": n, "sum": None, "ty": ety if isinstance(ety, str) else "any", "lb": None}
        i = I.ix()
        st.heap[ref.a] = c.with_(segs=(Seg(n, i, I.elem_of(u, A(i), ety)),))
        return
    vw = I.view(st, v)
    if vw is None:
        mid = [Seg(cnt, I.ix(), v)]
    else:
        mid = list(vw.segs)
        if c.kind == "nd" and len(mid) == 1:
            mid = [Seg(cnt, mid[0].ix, mid[0].v)]
    st.heap[ref.a] = c.with_(segs=tuple([s for s in list(left) + mid + list(right) if s.n.const() != 0]))


def slice_range(I, st, lo, hi, n):
    """(start, count) of a slice with Python's clipping."""
    def end(v, dflt):
        if v is None or (isinstance(v, Cst) and v.v is None):
            return dflt
        p = I.to_poly(st, v)
        c = p.const()
        if c is not None and c < 0:
            p = n + p
            return p if ge0(I, st, p) else pmax(0, p)
        if not ge0(I, st, p) and ge0(I, st, -p - 1):
            p = n + p
            return p if ge0(I, st, p) else pmax(0, p)
        return p
    a = end(lo, P(0))
    b = end(hi, n)
    if not ge0(I, st, n - a):
        a = pmin(a, n)
    if b != n and not ge0(I, st, n - b):
        b = pmin(b, n)
    cnt = b - a
    if not ge0(I, st, cnt):
        # pmin(h,n) - 0 with h unknown sign stays; otherwise clip
        cnt = pmax(0, cnt) if (a.t or not plausible_nonneg(cnt)) else cnt
    return a, cnt


def plausible_nonneg(p):
    """min(x, n) of named quantities (sizes, levels): used as a length as it stands."""
    t = as_term(p)
    return isinstance(t, tuple) and t and t[0] in ("min", "attr", "param", "sym")


def iter_segs(I, st, v, node):
    if isinstance(v, Ref):
        c = st.heap.get(v.a)
        if isinstance(c, DictCell):
            return dict_keys(I, st, v, c)
        if isinstance(c, ObjCell):
            return [Seg(A(("len", I.term(st, v))), I.ix(), I.havoc("iter obj"))]
    w = I.view(st, v)
    if w is not None:
        return list(w.segs)
    t = I.term(st, v)
    i = I.ix()
    r = I.roots(st, v)
    er = v.er if isinstance(v, Unk) else EMPTY
    return [Seg(seq_len(t), i, Unk(("item", t, A(i), "any"), "any", r | er, r | er))]


def dict_keys(I, st, ref, c):
    if c.tag == "empty" and not c.summ:
        return [Seg(1, I.ix(), k[1]) for k in c.entries]
    t = ("keys", c.term if c.term is not None else ("dict", ref.a))
    i = I.ix()
    return [Seg(seq_len(t), i, Unk(("item", t, A(i), "any")))]


# ------------------------------------------------------------------ elementwise operations

def refine(I, st, a, b):
    """Common refinement of two segment lists of equal total length, or None."""
    a, b = [s for s in a if s.n.const() != 0], [s for s in b if s.n.const() != 0]
    out = []
    guard = 0
    while a and b and guard < 60:
        guard += 1
        x, y = a[0], b[0]
        if x.n == y.n:
            out.append((x.n, x, y))
            a.pop(0)
            b.pop(0)
            continue
        if len(a) == 1 and len(b) == 1:
            return None
        if ge0(I, st, y.n - x.n) or len(b) == 1:
            n = x.n
            r = window(I, st, [y], n, y.n - n)
            out.append((n, x, Seg(n, y.ix, y.v)))
            a.pop(0)
            b[0:1] = r
        elif ge0(I, st, x.n - y.n) or len(a) == 1:
            n = y.n
            r = window(I, st, [x], n, x.n - n)
            out.append((n, Seg(n, x.ix, x.v), y))
            b.pop(0)
            a[0:1] = r
        else:
            return None
    if a or b:
        return None
    return out


def ewise2(I, st, f, a, b):
    """Elementwise f over two views (broadcasting scalars); list of segs or None."""
    wa, wb = I.view(st, a), I.view(st, b)
    if wa is not None and wb is not None:
        r = refine(I, st, list(wa.segs), list(wb.segs))
        if r is None:
            return None
        out = []
        for n, x, y in r:
            j = I.ix()
            out.append(Seg(n, j, f(I.sv(x.v, {x.ix: A(j)}), I.sv(y.v, {y.ix: A(j)}))))
        return out
    if wa is not None:
        return [Seg(s.n, s.ix, f(s.v, b)) for s in wa.segs]
    return [Seg(s.n, s.ix, f(a, s.v)) for s in wb.segs]


def scalar_op(I, op, x, y):
    """Arithmetic on two scalar values, or None."""
    if not isinstance(x, (Num, Cst, CondV, EnumV, Unk)) or not isinstance(y, (Num, Cst, CondV, EnumV, Unk)):
        return None
    if isinstance(x, Cst) and not isinstance(x.v, (bool, int, float)):
        return None
    if isinstance(y, Cst) and not isinstance(y.v, (bool, int, float)):
        return None
    if (isinstance(x, Unk) and isinstance(x.ty, tuple)) or (isinstance(y, Unk) and isinstance(y.ty, tuple)):
        return None
    a, b = I.to_poly(None, x), I.to_poly(None, y)
    tx, ty = I.num_ty(x), I.num_ty(y)
    t = tyjoin(tx, ty)
    if op == "Add":
        return Num(a + b, t)
    if op == "Sub":
        return Num(a - b, t)
    if op == "Mult":
        return Num(a * b, t)
    if op == "Div":
        if not b.t:
            return Num(A(("div0", a, "num")), "float")
        return Num(a / b, "complex" if t == "complex" else ("num" if t == "num" else "float"))
    if op == "FloorDiv":
        if not b.t:
            return Num(A(("div0", a, "num")), t)
        return Num(floordiv(a, b), "int" if t == "int" else t)
    if op == "Mod":
        if not b.t:
            return Num(A(("div0", a, "num")), t)
        return Num(mod(a, b), t)
    if op == "Pow":
        return Num(power(a, b), t if not (t == "int" and (b.const() is None or b.const() < 0)) else ("int" if I.lb_nonneg(b) else "num"))
    return None


OPSYM = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "fdiv", "Mod": "mod", "Pow": "pow",
         "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "shl", "RShift": "shr"}


def concat(I, st, kind, vs, tag=None):
    segs, er = [], EMPTY
    for v in vs:
        w = I.view(st, v)
        if w is None:
            return None
        segs += [s for s in w.segs if s.n.const() != 0]
        er |= w.er
    return fseq(I, st, kind, merge(segs), tag, er)


def merge(segs):
    """Join neighbouring equal constant segments."""
    out = []
    for s in segs:
        if out and isinstance(s.v, Num) and isinstance(out[-1].v, Num) and s.v.p == out[-1].v.p and s.v.ty == out[-1].v.ty \
                and not mentions(s.v.p, lambda a: a == s.ix or a == out[-1].ix):
            out[-1] = Seg(out[-1].n + s.n, out[-1].ix, out[-1].v)
        else:
            out.append(s)
    return out


def flat_matmul(a, b):
    xs = list(a[1:]) if isinstance(a, tuple) and a and a[0] == "matmul" else [a]
    ys = list(b[1:]) if isinstance(b, tuple) and b and b[0] == "matmul" else [b]
    out = []
    for x in xs + ys:
        out.append(x)
    return ("matmul",) + tuple(out)


def mat_ty(I, st, v):
    w = I.view(st, v)
    if isinstance(v, Unk):
        return v.ty
    if w is None:
        return "any"
    return ("seq", ety_of(I, w.segs))


def matmul(I, st, a, b, node):
    ta, tb = I.term(st, a), I.term(st, b)
    t = flat_matmul(ta, tb)
    mb, ma = is_matrix(I, st, b), is_matrix(I, st, a)
    if isinstance(b, Unk) and isinstance(b.ty, tuple) and isinstance(b.ty[1], tuple):
        mb = True
    I.event("matmul", node, st, term=t, a=a, b=b)
    if ma and not mb and I.view(st, b) is not None:
        return seq_term_value(I, st, t, "num", "nd", tagof(st, b))
    if not ma and not mb and I.view(st, a) is not None and I.view(st, b) is not None:
        segs = ewise2(I, st, lambda x, y: scalar_op(I, "Mult", x, y) or I.havoc("mul"), a, b)
        if segs is not None:
            s = I.vsum(View("nd", segs, EMPTY, EMPTY))
            if s is not None:
                return Num(s, "num")
        return Num(A(("val", t, "num")), "num")
    return Unk(t, ("seq", ("seq", "num")))


def alts(v):
    """(value, guard) alternatives of a value."""
    if not isinstance(v, Alt):
        return [(v, ())]
    return list(zip(v.vs, v.g if v.g is not None else [()] * len(v.vs)))


def binop(I, st, op, a, b, node):
    if isinstance(a, Alt) or isinstance(b, Alt):
        if all(isinstance(x, (Num, Cst)) for v in (a, b) if isinstance(v, Alt) for x in v.vs):
            vs, gs = [], []
            for x, g in alts(a):
                for y, k in alts(b):
                    vs.append(scalar_op(I, type(op).__name__, x, y))
                    gs.append(tuple(c + d for c in g or ((),) for d in k or ((),)))
            if all(v is not None for v in vs):
                return one(st, Alt(vs, gs) if any(any(c) for g in gs for c in g) else Alt(vs))
    name = type(op).__name__
    if isinstance(a, ClsV) or isinstance(b, ClsV) or isinstance(a, (Fn, Bnd)) or isinstance(b, (Fn, Bnd)):
        return one(st, I.havoc("op"))
    for x, rx in ((a, b), (b, a)):
        if isinstance(x, Ref):
            c = st.heap.get(x.a)
            if isinstance(c, ObjCell) and c.cls is not None:
                meth = {"MatMult": "__matmul__", "Add": "__add__", "Mult": "__mul__", "Sub": "__sub__"}.get(name)
                f = c.cls.find_method(meth) if meth and x is a else None
                if f is not None:
                    return I.call_fn(f, [x, rx], {}, st, node)
                return one(st, I.havoc("objop"))
            if isinstance(c, DictCell):
                return one(st, I.alloc(st, DictCell("sym", term=("dictop", name, I.term(st, a), I.term(st, b)))))
    if name == "MatMult":
        return one(st, matmul(I, st, a, b, node))
    wa, wb = I.view(st, a), I.view(st, b)
    if wa is None and wb is None:
        if isinstance(a, Cst) and isinstance(a.v, (str, bytes)) or isinstance(b, Cst) and isinstance(b.v, (str, bytes)):
            return one(st, Unk(("strop", I.term(st, a), I.term(st, b))))
        r = scalar_op(I, name, a, b)
        if r is None:
            ta, tb = I.term(st, a), I.term(st, b)
            r = Unk((OPSYM.get(name, name), ta, tb))
        elif name in ("Div", "Mod", "FloorDiv"):
            bp = I.to_poly(st, b)
            I.event("divide", node, st, by=bp)
        return one(st, r)
    if isinstance(a, Cst) and isinstance(a.v, str) or isinstance(b, Cst) and isinstance(b.v, str):
        return one(st, Unk(("strop", I.term(st, a), I.term(st, b))))
    pylike = ("list", "tuple", "range", "str")
    # list/tuple concatenation and repetition
    if name == "Add" and wa is not None and wb is not None and (wa.kind in pylike or wb.kind in pylike) \
            and wa.kind != "nd" and wb.kind != "nd":
        kind = wa.kind if wa.kind in pylike else wb.kind
        return one(st, concat(I, st, kind, [a, b]))
    if name == "Add":
        for x, y, w in ((a, wa, wb), (b, wb, wa)):
            if y is None and w is not None and w.kind in pylike and not isinstance(x, (Num, Cst)):
                return one(st, I.havoc("op"))       # concatenation with something unknown (a list, a tuple or an array)
    if name == "Mult" and (wa is None) != (wb is None):
        s, k, w = (a, b, wa) if wa is not None else (b, a, wb)
        if w.kind in ("list", "tuple"):
            n = I.to_poly(st, k)
            nn = n if ge0(I, st, n) else (n if plausible_nonneg(n) else pmax(0, n))
            segs = [x for x in w.segs if x.n.const() != 0]
            if len(segs) == 1 and (segs[0].n.const() == 1 or not any(z == segs[0].ix for z in I.val_atoms(segs[0].v))):
                sg = segs[0]
                v = sg.v if nn.const() == 1 else fz(I, st, sg.v)
                if isinstance(sg.v, Ref) and nn.const() != 1:
                    I.event("aliased", node, st, value=sg.v)
                return one(st, fseq(I, st, w.kind, [Seg(sg.n * nn, I.ix(), v)], er=w.er))
            if not segs:
                return one(st, fseq(I, st, w.kind, []))
            t = ("rep", I.term(st, s), nn)
            SEQINFO[t] = {"len": I.vlen(w) * nn, "sum": None, "ty": "any", "lb": None}
            return one(st, seq_term_value(I, st, t, ety_of(I, segs), w.kind))
    # numpy elementwise
    tag = tagof(st, a) or tagof(st, b)
    segs = None
    if not (is_matrix(I, st, a) or is_matrix(I, st, b)):
        bad = []

        def f(x, y):
            r = scalar_op(I, name, x, y)
            if r is None:
                bad.append(1)
                return I.havoc("op")
            return r
        segs = ewise2(I, st, f, a, b)
        if bad:
            segs = None
    if segs is not None:
        return one(st, fseq(I, st, "nd", segs, tag))
    ta, tb = I.term(st, a), I.term(st, b)
    t = ("ew", name, ta, tb)
    big = a if wa is not None else b
    SEQINFO[t] = {"len": I.vlen(wa if wa is not None else wb), "sum": None, "ty": "any", "lb": None}
    ety = mat_ty(I, st, big)
    return one(st, Unk(t, ety if isinstance(ety, tuple) else ("seq", "num")))


def aug(I, st, op, cur, v, node):
    """x op= v: in place for lists and arrays."""
    name = type(op).__name__
    w = I.view(st, cur)
    if w is not None and w.kind not in ("tuple", "str", "range", "mixed"):
        inplace = w.kind in ("nd", "unk") or (w.kind == "list" and name in ("Add", "Mult"))
        if w.kind == "gen":
            inplace = False
        if inplace:
            mutated(I, st, cur, "augmented assignment", node)
        r = binop(I, st, op, cur, v, node)
        if isinstance(cur, Ref) and inplace:
            out = []
            for x, rv in r:
                w2 = I.view(x, rv)
                c = x.heap[cur.a]
                if w2 is None:
                    out.append((x, rv))
                    continue
                kind = c.kind
                segs = w2.segs
                if kind == "nd" and ety_of(I, c.segs) == "int" and name == "Div":
                    pass
                x.heap[cur.a] = c.with_(segs=tuple(segs), er=c.er | w2.er)
                out.append((x, cur))
            return out
        return r
    if isinstance(cur, Ref) and isinstance(st.heap.get(cur.a), DictCell):
        mutated(I, st, cur, "augmented assignment", node)
        st.heap[cur.a] = DictCell("sym", roots=st.heap[cur.a].roots)
        return one(st, cur)
    return binop(I, st, op, cur, v, node)


def aug_item(I, st, op, b, k, v, node):
    out = []
    if st.ctx and not I.quiet:
        I.event("augitem", node, st, key=I.term(st, k), amount=I.term(st, v))
    for x, cur in get_item(I, st, b, k, node, quiet_missing=True):
        b2 = b
        for y, r in aug(I, x, op, cur, v, node):
            if r is cur and isinstance(cur, Ref):
                out.append(y)
                continue
            out += set_item(I, y, b2, k, r, node)
    return out


# ------------------------------------------------------------------ items

def is_scalar_key(I, st, k):
    return isinstance(k, (Num, Cst, EnumV, CondV)) or (isinstance(k, Unk) and not isinstance(k.ty, tuple))


def key_differs(a, b):
    """Definitely different dictionary keys."""
    if a == b:
        return False
    pa = a if isinstance(a, Poly) else (A(a) if isinstance(a, tuple) else None)
    pb = b if isinstance(b, Poly) else (A(b) if isinstance(b, tuple) else None)
    for x in (a, b):
        if isinstance(x, tuple) and x and x[0] in ("cst", "enum", "cls"):
            y = b if x is a else a
            if isinstance(y, tuple) and y and y[0] in ("cst", "enum", "cls"):
                return True
    if isinstance(a, Poly) and isinstance(b, Poly) or (pa is not None and pb is not None and
                                                        (isinstance(a, Poly) or isinstance(b, Poly))):
        try:
            d = (pa - pb).const()
            return d is not None and d != 0
        except Exception:
            return False
    return False


def kterm(I, st, k):
    t = I.term(st, k)
    if isinstance(t, Poly):
        return t
    return t


def dict_get(I, st, ref, k, node, default=None, missing=None):
    """-> list of (st, value); missing: value when the key is absent (None: KeyError path dropped)."""
    c = st.heap[ref.a]
    kt = kterm(I, st, k)
    if c.tag == "hist" and I.watch_hist:
        I.event("read", node, st, ref=ref, attr="[]", value=None, atoms=None, tainted=False)
    for et, kv, v in reversed(c.entries):
        if et == kt:
            return one(st, v)
        if key_differs(et, kt):
            continue
        # may be the same key
        if isinstance(k, (Unk, Num)) and isinstance(kv, EnumV) and isinstance(k, Unk):
            # symbolic key over constant keys: partition
            out = []
            x = st
            for et2, kv2, v2 in c.entries:
                cond = ("c", ("keyeq", kt, et2))
                t, f = I.branch(x, cond)
                out += [(y, v2) for y in t]
                if not f:
                    return out
                x = f[0]
            if missing is not None:
                out.append((x, missing))
            return out
        break
    else:
        et = None
    known = st.facts.get(("in", kt, ("dict", ref.a)))
    if et is not None:
        # aliasing unknown among written entries
        vs = [I.sv(v, {}) for _, _, v in c.entries]
        t = ("dictv", c.term if c.term is not None else ("dict", ref.a), kt)
        return one(st, dict_unknown(I, st, c, vs + [instantiate_tmpl(I, s, kt) for s in c.summ], t))
    if c.summ:
        from_run = known is True and c.tag == "empty"
        comp = any(p[1] == ref.a and st.facts.get(("in", kt, ("dict", p[0]))) is True and
                   st.heap[p[0]].tag == "empty" for p in st.comp)
        if c.tag == "hist" and not comp:
            I.event("hist_get", node, st, ref=ref, key=kt)
        if I.watch_hist and c.tag == "empty" and known is not True and not comp and missing is None and c.default is None:
            I.event("maybe_missing", node, st, ref=ref, key=kt, summ=c.summ, entries=c.entries)
        if from_run or comp or c.tag in ("empty", "sym", "hist"):
            vs = [instantiate_tmpl(I, s, kt) for s in c.summ]
            v = vs[0] if len(vs) == 1 else Alt(vs)
            if isinstance(v, Unk) and v.t[0] == "summ_any":
                # an entry known to be written in this run does not come from what the dictionary held before
                t = ("dictv", c.term if c.term is not None and not from_run and not comp else ("dict", ref.a), kt)
                if I.watch_hist:
                    I.deps[t] = frozenset((v.t[1],))
                v = Unk(t, v.ty)
            return one(st, v)
    if c.tag == "hist":
        I.event("hist_get", node, st, ref=ref, key=kt)
        name = c.term[1] if isinstance(c.term, tuple) and c.term[0] == "hist" else "dict entry"
        return one(st, Unk(("hist", name, "entry", kt), "any"))
    if c.tag == "sym":
        t = ("dictv", c.term if c.term is not None else ("dict", ref.a), kt)
        return one(st, Unk(t, "any", c.roots, c.roots))
    # key cannot be there
    if c.default is not None:
        out = []
        for x, v in I.call(c.default, [], {}, st, node):
            cc = x.heap[ref.a]
            x.heap[ref.a] = cc.with_(entries=cc.entries + ((kt, k, v),))
            out.append((x, v))
        return out
    if missing is not None:
        return one(st, missing)
    I.event("key_missing", node, st, key=kt)
    I.exc[-1].append((st, "KeyError", node, I.stack[-1] if I.stack else None))
    return []


def dict_unknown(I, st, c, vs, t):
    kinds = [I.view(st, v) for v in vs]
    if vs and all(w is not None for w in kinds):
        e = {ety_of(I, w.segs) for w in kinds if w.segs}
        return Unk(t, ("seq", e.pop() if len(e) == 1 else "any"))
    if vs and all(isinstance(v, Num) for v in vs):
        ty = {v.ty for v in vs}
        tt = ty.pop() if len(ty) == 1 else "num"
        return Num(A(("val", t, tt)), tt)
    if vs and len(vs) <= 12 and all(isinstance(v, (Fn, Bnd, ClsV)) for v in vs):
        return Alt(vs)
    return Unk(t, "any")


def instantiate_tmpl(I, tmpl, kt):
    return I.sv(tmpl, {("KEY",): kt})


def dict_set(I, st, ref, k, v, node):
    c = st.heap[ref.a]
    mutated(I, st, ref, "item store", node)
    kt = kterm(I, st, k)
    I.event("dict_store", node, st, ref=ref, key=kt, value=v)
    if I.watch_hist:
        I.dictdeps.setdefault(ref.a, set()).update(a for a in I.deep_atoms(st, v) if I.source(a))
        I.dictdeps[ref.a].update(a for a in walk(kt) if I.source(a))
    ents = [e for e in c.entries if e[0] != kt]
    st.heap[ref.a] = c.with_(entries=tuple(ents) + ((kt, k, v),))


def get_item(I, st, b, k, node, quiet_missing=False):
    if isinstance(b, Alt):
        out = []
        for x in b.vs:
            out += get_item(I, st.clone(), x, k, node)
        if all(isinstance(v, Num) for _, v in out) and len(out) > 1 and len({id(s) for s, _ in out}) == len(out):
            vs = [v for _, v in out]
            return one(out[0][0], vs[0] if all(v.p == vs[0].p for v in vs) else Alt(vs))
        return out
    if isinstance(b, Ref):
        c = st.heap.get(b.a)
        if isinstance(c, DictCell):
            return dict_get(I, st, b, k, node)
        if isinstance(c, ObjCell):
            if c.cls is not None:
                m = c.cls.find_method("__getitem__")
                if m is not None:
                    return I.call_fn(m, [b, k], {}, st, node)
            return one(st, I.havoc("objitem"))
    if isinstance(b, (Ext, ExtM, ClsV)):
        return one(st, b if not isinstance(b, ExtM) else I.havoc("extitem"))
    w = I.view(st, b)
    roots = I.roots(st, b)
    if I.watch_items is not None and isinstance(b, Unk) and b.t in I.watch_items and \
            not (isinstance(k, (Num, Cst)) and I.to_poly(st, k).const() == 0):
        I.event("elem", node, st, base=b.t)
    if isinstance(k, SliceV) and w is not None:
        return one(st, slice_get(I, st, b, w, k, node))
    if isinstance(k, Alt):
        out = [get_item(I, st, b, x, node)[0][1] for x in k.vs]
        return one(st, Alt(out, k.g))
    if isinstance(k, Ref) or isinstance(k, FSeq) or (isinstance(k, Unk) and isinstance(k.ty, tuple)):
        kw_ = I.view(st, k)
        if kw_ is not None:
            if kw_.kind == "tuple" and all(s.n.const() == 1 for s in kw_.segs):
                return multi_get(I, st, b, [s.v for s in kw_.segs], node)
            # fancy indexing
            t = ("fancy", I.term(st, b), I.term(st, k))
            SEQINFO[t] = {"len": I.vlen(kw_), "sum": None, "ty": "any", "lb": None}
            ety = mat_ty(I, st, b)
            return one(st, Unk(t, ety if isinstance(ety, tuple) else ("seq", "any")))
    if w is None:
        t = I.term(st, b)
        if isinstance(b, Unk):
            r = b.roots | b.er
            return one(st, Unk(("item", t, I.to_poly(st, k) if isinstance(k, (Num,)) else I.term(st, k), "any"), "any", r, r))
        return one(st, I.havoc("item"))
    if isinstance(k, (Num, Cst, CondV, EnumV)) and not (isinstance(k, Cst) and not isinstance(k.v, (int, bool))):
        v = at(I, st, w, I.to_poly(st, k), node)
        return one(st, v)
    if isinstance(k, Cst) and k.v is None:
        return one(st, Unk(("newaxis", I.term(st, b)), ("seq", "any")))
    v = at(I, st, w, I.to_poly(st, k), node)
    return one(st, v)


def slice_get(I, st, b, w, k, node):
    n = I.vlen(w)
    kind = w.kind
    full = all(x is None or (isinstance(x, Cst) and x.v is None) for x in (k.lo, k.hi, k.step))
    keep = w.roots if kind in ("nd", "unk") else EMPTY
    if k.step is not None and not (isinstance(k.step, Cst) and k.step.v is None):
        sp = I.to_poly(st, k.step)
        if sp == P(-1) and k.lo is None and k.hi is None:
            t = ("rev", I.term(st, b))
            return seq_term_value(I, st, t, ety_of(I, w.segs), kind if kind != "unk" else "list", tagof(st, b), keep, w.er)
        if sp != P(1):
            t = ("stride", I.term(st, b), tuple(I.term(st, x) if x is not None else None for x in (k.lo, k.hi, k.step)))
            return Unk(t, ("seq", ety_of(I, w.segs)), keep, w.er)
    if full:
        r = I.seq(st, kind, w.segs, keep, w.er)
        st.heap[r.a] = st.heap[r.a].with_(tag=tagof(st, b))
        return r
    lo, cnt = slice_range(I, st, k.lo, k.hi, n)
    if isinstance(b, Unk) and w.kind == "unk":
        pass
    segs = window(I, st, w.segs, lo, cnt)
    if segs is None:
        t = ("slice", I.segs_term(st, w.segs), lo, cnt)
        SEQINFO[t] = {"len": cnt, "sum": None, "ty": ety_of(I, w.segs) if isinstance(ety_of(I, w.segs), str) else "any", "lb": None}
        i = I.ix()
        segs = [Seg(cnt, i, I.elem_of(t, A(i), ety_of(I, w.segs), w.er))]
    r = I.seq(st, kind, segs, keep, w.er)
    st.heap[r.a] = st.heap[r.a].with_(tag=tagof(st, b))
    return r


def multi_get(I, st, b, ks, node):
    if len(ks) == 2:
        i, j = ks
        full = lambda x: isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None
        if isinstance(i, (Num, Unk)) and isinstance(j, (Num, Unk)) and not isinstance(getattr(i, "ty", None), tuple) \
                and not isinstance(getattr(j, "ty", None), tuple):
            out = []
            for x, row in get_item(I, st, b, i, node):
                out += get_item(I, x, row, j, node)
            return out
        if full(j) and isinstance(i, Unk) and isinstance(i.ty, tuple) and I.view(st, i) is not None or \
                full(j) and isinstance(i, (Ref, FSeq)) and I.view(st, i) is not None:
            return one(st, Unk(("rows", I.term(st, b), I.term(st, i)), ("seq", ("seq", "num"))))
        if full(j) and isinstance(i, (Num, Unk)):
            return get_item(I, st, b, i, node)
        if full(i) and (I.view(st, j) is not None):
            t = ("cols", I.term(st, b), I.term(st, j))
            I.event("cols", node, st, base=b, index=j)
            return one(st, Unk(t, ("seq", ("seq", "num"))))
        if full(i) and isinstance(j, Num):
            t = ("item", ("Tr", I.term(st, b)), j.p, "seq")
            return one(st, Unk(t, ("seq", "num")))
        if isinstance(i, SliceV) and isinstance(j, SliceV):
            t = ("submat", I.term(st, b)) + tuple(I.term(st, x) if x is not None else None
                                                for x in (i.lo, i.hi, j.lo, j.hi))
            w = I.view(st, b)
            if w is not None:
                lo, cnt = slice_range(I, st, i.lo, i.hi, I.vlen(w))
                SEQINFO[t] = {"len": cnt, "sum": None, "ty": "any", "lb": None}
            return one(st, Unk(t, ("seq", ("seq", "num")), I.roots(st, b)))
    t = ("multi", I.term(st, b)) + tuple("slice" if isinstance(k, SliceV) else I.term(st, k) for k in ks)
    return one(st, Unk(t, "any", I.roots(st, b)))


def set_item(I, st, b, k, v, node):
    if isinstance(b, Alt):
        out = []
        for x in b.vs:
            out += set_item(I, st.clone(), x, k, v, node)
        return out
    if isinstance(b, Ref):
        c = st.heap.get(b.a)
        if isinstance(c, DictCell):
            dict_set(I, st, b, k, v, node)
            return [st]
        if isinstance(c, ObjCell):
            return [st]
    mutated(I, st, b, "item store", node)
    w = I.view(st, b)
    if w is None:
        return [st]
    if isinstance(b, (FSeq, Unk)):
        b = materialise(I, st, b)
    if not isinstance(b, Ref):
        return [st]
    c = st.heap[b.a]
    if st.ctx and not I.quiet and isinstance(k, (Num, Cst)):
        I.event("store", node, st, target=I.term(st, b), key=I.to_poly(st, k), value=I.term(st, v))
    kw_ = I.view(st, k) if not isinstance(k, (SliceV, Num, Cst)) else None
    if isinstance(k, SliceV):
        put_window(I, st, b, k.lo, k.hi, v, node)
        return [st]
    if kw_ is not None:
        t = I.segs_term(st, c.segs)
        if kw_.kind == "tuple":
            parts = []
            for s in kw_.segs:
                if isinstance(s.v, SliceV):
                    parts.append(("slice",) + tuple(I.term(st, x) if x is not None else None for x in (s.v.lo, s.v.hi)))
                else:
                    parts.append(I.term(st, s.v))
            u = ("updm", t, tuple(parts), I.term(st, v))
        else:
            u = ("updf", t, I.term(st, k), I.term(st, v))
        SEQINFO[u] = {"len": I.vlen(View(c.kind, c.segs, EMPTY, EMPTY)), "sum": None, "ty": "any", "lb": None}
        ety = ety_of(I, c.segs)
        i = I.ix()
        st.heap[b.a] = c.with_(segs=(Seg(SEQINFO[u]["len"], i, I.elem_of(u, A(i), ety)),))
        return [st]
    put(I, st, b, I.to_poly(st, k), v, node)
    return [st]


def del_item(I, st, b, k, node):
    mutated(I, st, b, "item deletion", node)
    if isinstance(b, Ref):
        c = st.heap.get(b.a)
        if isinstance(c, DictCell):
            kt = kterm(I, st, k)
            st.heap[b.a] = c.with_(entries=tuple(e for e in c.entries if e[0] != kt))
            return
        if isinstance(c, SeqCell):
            if isinstance(k, SliceV):
                n = I.vlen(View(c.kind, c.segs, EMPTY, EMPTY))
                lo, cnt = slice_range(I, st, k.lo, k.hi, n)
                left = window(I, st, c.segs, P(0), lo)
                right = window(I, st, c.segs, lo + cnt, n - lo - cnt)
                if left is not None and right is not None:
                    st.heap[b.a] = c.with_(segs=tuple(s for s in left + right if s.n.const() != 0))
                return
            if st.ctx and not I.quiet:
                I.event("popped", node, st, target=I.term(st, b), key=I.to_poly(st, k))
            st.heap[b.a] = c.with_(segs=tuple(remove_at(I, st, c.segs, I.to_poly(st, k))))


def remove_at(I, st, segs, k):
    n = P(0)
    for s in segs:
        n = n + s.n
    k = norm_index(I, st, k, n)
    left = window(I, st, segs, P(0), k)
    right = window(I, st, segs, k + 1, n - k - 1)
    if left is None or right is None:
        t = ("without", I.segs_term(st, segs), k)
        SEQINFO[t] = {"len": n - 1, "sum": None, "ty": ety_of(I, segs) if isinstance(ety_of(I, segs), str) else "any",
                      "lb": 0 if I.occ(I.segs_term(st, segs)) else None}
        i = I.ix()
        return [Seg(n - 1, i, I.elem_of(t, A(i), ety_of(I, segs)))]
    return [s for s in list(left) + list(right) if s.n.const() != 0]


# ------------------------------------------------------------------ comparisons

def compare(I, st, op, a, b):
    """Equality condition tree."""
    if isinstance(a, Alt) or isinstance(b, Alt):
        xs = a.vs if isinstance(a, Alt) else (a,)
        ys = b.vs if isinstance(b, Alt) else (b,)
        if len(xs) * len(ys) <= 16:
            cs = [compare(I, st, "eq", x, y) for x in xs for y in ys]
            if all(c == ("const", False) for c in cs):
                return ("const", False)
        return ("c", ("truth", ("eqalt", I.term(st, a), I.term(st, b))))
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        return ("const", a == b)
    if isinstance(a, Cst) and isinstance(b, Cst):
        return ("const", a.v == b.v)
    if isinstance(a, (Num, CondV)) and isinstance(b, (Num, Cst, CondV)) or isinstance(b, Num) and isinstance(a, Cst):
        if isinstance(a, Cst) and not isinstance(a.v, (int, float, bool)) or isinstance(b, Cst) and not isinstance(b.v, (int, float, bool)):
            return ("const", False)
        if isinstance(a, CondV) and isinstance(b, Cst) and isinstance(b.v, bool):
            return a.c if b.v else ("not", a.c)
        return I.cmp("eq", I.to_poly(st, a), I.to_poly(st, b))
    wa, wb = I.view(st, a), I.view(st, b)
    if wa is not None and wb is not None:
        ta, tb = I.term(st, a), I.term(st, b)
        if ta == tb:
            return ("const", True)
        la, lb = I.vlen(wa), I.vlen(wb)
        d = (la - lb).const()
        if d is not None and d != 0:
            return ("const", False)
        if not la.t:
            return ("c", I.norm_cond(("eq", lb)))
        if not lb.t:
            return ("c", I.norm_cond(("eq", la)))
        return ("c", ("eqseq",) + tuple(sorted([ta, tb], key=skey)))
    if isinstance(a, Num) and isinstance(b, Unk) or isinstance(b, Num) and isinstance(a, Unk):
        return I.cmp("eq", I.to_poly(st, a), I.to_poly(st, b))
    ta, tb = I.term(st, a), I.term(st, b)
    if ta == tb:
        return ("const", True)
    if isinstance(a, ClsV) and isinstance(b, ClsV):
        return ("const", a.info is b.info)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, EnumV) and isinstance(y, Unk):
            return ("c", ("keyeq", I.term(st, y), I.term(st, x)))
        if isinstance(x, Cst) and x.v is None and isinstance(y, (Num, Ref, FSeq, EnumV, Fn, Bnd, ClsV)):
            return ("const", False)
    return ("c", ("eqv",) + tuple(sorted([ta, tb], key=skey)))


def compare_op(I, st, op, a, b, node):
    name = type(op).__name__
    if name in ("Is", "IsNot"):
        c = is_same(I, st, a, b)
        return c if name == "Is" else ("not", c)
    if name in ("In", "NotIn"):
        c = contains(I, st, a, b, node)
        return c if name == "In" else ("not", c)
    nda = I.kindof(st, a) in ("nd",) or I.kindof(st, b) in ("nd",)
    if nda and name in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
        t = ("cmpv", name, I.term(st, a), I.term(st, b))
        wa, wb = I.view(st, a), I.view(st, b)
        w = wa if wa is not None else wb
        SEQINFO[t] = {"len": I.vlen(w), "sum": None, "ty": "bool", "lb": 0}
        return XCmp(t, name, a, b, I, st)
    if name in ("Eq", "NotEq"):
        c = compare(I, st, "eq", a, b)
        return c if name == "Eq" else ("not", c)
    o = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[name]
    if isinstance(a, (Num, Cst, CondV, Unk, EnumV)) and isinstance(b, (Num, Cst, CondV, Unk, EnumV)):
        return I.cmp(o, I.to_poly(st, a), I.to_poly(st, b))
    return ("c", ("truth", (o, I.term(st, a), I.term(st, b))))


def XCmp(t, name, a, b, I, st):
    return Unk(t, ("seq", "bool"))


def is_same(I, st, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Cst) and x.v is None:
            if isinstance(y, Cst):
                return ("const", y.v is None)
            if isinstance(y, Unk):
                return ("c", ("none", y.t))
            if isinstance(y, Ref):
                c = st.heap.get(y.a)
                if isinstance(c, ObjCell) and c.lazy is not None and c.lazy[0] == "attr":
                    return ("c", ("none", c.lazy))
            if isinstance(y, Alt):
                return ("c", ("none", I.term(st, y)))
            return ("const", False)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return ("const", a.a == b.a)
    return compare(I, st, "eq", a, b)


def contains(I, st, a, b, node):
    if isinstance(b, Ref):
        c = st.heap.get(b.a)
        if isinstance(c, DictCell):
            kt = kterm(I, st, a)
            if any(e[0] == kt for e in c.entries):
                return ("const", True)
            if c.tag == "empty" and not c.summ and all(key_differs(e[0], kt) for e in c.entries):
                return ("const", False)
            if c.tag == "hist":
                I.event("hist_in", node, st, ref=b, key=kt)
            return ("c", ("in", kt, ("dict", b.a)))
    w = I.view(st, b)
    if w is not None:
        if not I.vlen(w).t:
            return ("const", False)
        if len(w.segs) <= 6 and all(s.n.const() == 1 for s in w.segs):
            cs = [compare(I, st, "eq", a, s.v) for s in w.segs]
            return ("or", cs)
    return ("c", ("in", I.term(st, a), I.term(st, b)))


# ------------------------------------------------------------------ attributes

def attr(I, st, b, name, node):
    if isinstance(b, Alt):
        return None
    w = I.view(st, b)
    if w is not None:
        if name == "shape":
            return shape(I, st, b, w)
        if name == "size":
            if is_matrix(I, st, b):
                t = I.term(st, b)
                return Num(seq_len(t) * seq_len(("item", t, P(0), "seq")), "int")
            return Num(I.vlen(w), "int")
        if name == "T":
            return transpose(I, st, b)
        if name in ("real",):
            return b
        if name == "ndim":
            return Num(2 if (is_matrix(I, st, b) or tagof(st, b) == "col") else 1, "int")
        if name == "flat":
            return b
        if name == "dtype":
            return Unk(("dtype", I.term(st, b)))
    elif isinstance(b, Unk) and name in ("shape", "T", "size", "real", "imag", "dtype"):
        if name == "shape":
            t = ("attr", b.t, "shape", "seq")
            return Unk(t, ("seq", "int"))
        return Unk(("attr", b.t, name, "any"), "any", b.roots)
    if isinstance(b, Num) and name in ("real",):
        return b
    if isinstance(b, Num) and name == "imag":
        return Num(A(("imag", b.p, "num")), "float")
    if isinstance(b, XObj) and name in b.data:
        return b.data[name]
    return None


def shape(I, st, b, w):
    t = I.term(st, b)
    if tagof(st, b) == "col":
        return I.seqof(st, "tuple", [Num(I.vlen(w), "int"), Num(1, "int")])
    if is_matrix(I, st, b) or (isinstance(b, Unk) and isinstance(b.ty[1], tuple)):
        inner = None
        if isinstance(b, Ref) and w.segs:
            iw = I.view(st, w.segs[0].v)
            if iw is not None:
                inner = I.vlen(iw)
        if inner is None:
            inner = seq_len(("item", t, P(0), "seq"))
        return I.seqof(st, "tuple", [Num(I.vlen(w), "int"), Num(inner, "int")])
    return I.seqof(st, "tuple", [Num(I.vlen(w), "int")])


def transpose(I, st, b):
    t = I.term(st, b)
    if isinstance(t, tuple) and t[0] == "Tr":
        return Unk(t[1], ("seq", ("seq", "num")), I.roots(st, b))
    if not is_matrix(I, st, b):
        return b
    return Unk(("Tr", t), ("seq", ("seq", "num")), I.roots(st, b))


EXT_CONST = {
    "numpy.pi": ("sym", "pi", "float"), "math.pi": ("sym", "pi", "float"), "scipy.pi": ("sym", "pi", "float"),
    "numpy.e": ("sym", "e", "float"), "math.e": ("sym", "e", "float"), "math.tau": None,
    "numpy.inf": ("sym", "inf", "float"), "math.inf": ("sym", "inf", "float"),
}


def ext_const(name):
    if name in ("numpy.newaxis", "builtins.None"):
        return NONE
    if name in ("numpy.True_",):
        return Cst(True)
    if name == "math.tau":
        return Num(A(("sym", "pi", "float")) * 2, "float")
    if name in EXT_CONST:
        return Num(A(EXT_CONST[name]), "float")
    return None


# ------------------------------------------------------------------ random numbers

def rng_site(I, node):
    f = I.stack[-1] if I.stack else None
    return "%s:%s:%s" % (f.qual if f else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))


def rng_float(I, st, node, fname, idx=None):
    st.rngn += 1
    return ("rng", rng_site(I, node), st.rngn, st.ctx, P(idx) if idx is not None else None, "float")


def rng_int(I, st, node, lo, hi, idx=None):
    st.rngn += 1
    return ("rngi", rng_site(I, node), st.rngn, st.ctx, P(idx) if idx is not None else None, P(lo), P(hi), "int")


def draw_floats(I, st, node, fname, n, ty="float"):
    """n independent draws."""
    i = I.ix()
    a = rng_float(I, st, node, fname, A(i))
    I.event("draw", node, st, fname=fname, atom=a, count=n)
    return fseq(I, st, "nd", [Seg(n, i, Num(A(a), ty))])


def draw_float(I, st, node, fname):
    a = rng_float(I, st, node, fname)
    I.event("draw", node, st, fname=fname, atom=a, count=P(1))
    return Num(A(a), "float")


def shape_arg(I, st, v):
    """None (scalar) | Poly | list of Polys | '?'"""
    if v is None or (isinstance(v, Cst) and v.v is None):
        return None
    if isinstance(v, (Num, CondV)):
        return I.to_poly(st, v)
    w = I.view(st, v)
    if w is not None and all(s.n.const() == 1 for s in w.segs):
        ps = [I.to_poly(st, s.v) for s in w.segs]
        return ps[0] if len(ps) == 1 else (None if not ps else ps)
    if isinstance(v, Unk) and not isinstance(v.ty, tuple):
        return I.to_poly(st, v)
    return "?"


def r_uniform(I, st, args, kw, node, fname):
    if fname.endswith(".rand"):
        if not args:
            return one(st, draw_float(I, st, node, fname))
        if len(args) == 1:
            return one(st, draw_floats(I, st, node, fname, I.to_poly(st, args[0])))
        a = rng_float(I, st, node, fname)
        I.event("draw", node, st, fname=fname, atom=a, count=P(1))
        return one(st, Unk(("rngmat", a), ("seq", ("seq", "num"))))
    if fname.endswith(".uniform"):
        lo, hi = arg(args, kw, 0, "low"), arg(args, kw, 1, "high")
        size = shape_arg(I, st, arg(args, kw, 2, "size"))
        d = draw_float(I, st, node, fname) if size is None else None
        if d is None:
            if isinstance(size, Poly):
                d = draw_floats(I, st, node, fname, size)
            else:
                return one(st, Unk(("rngmat", rng_float(I, st, node, fname)), ("seq", ("seq", "num"))))
        lo = lo or Num(0, "float")
        hi = hi or Num(1, "float")
        r = []
        for x, w in binop(I, st, ast.Sub(), hi, lo, node):
            for y, s in binop(I, x, ast.Mult(), w, d, node):
                r += binop(I, y, ast.Add(), s, lo, node)
        return r
    size = shape_arg(I, st, arg(args, kw, 0, "size"))
    if size is None:
        return one(st, draw_float(I, st, node, fname))
    if isinstance(size, Poly):
        return one(st, draw_floats(I, st, node, fname, size))
    a = rng_float(I, st, node, fname)
    I.event("draw", node, st, fname=fname, atom=a, count=P(1))
    return one(st, Unk(("rngmat", a), ("seq", ("seq", "num"))))


def r_int(I, st, args, kw, node, fname):
    lo, hi = arg(args, kw, 0, "low"), arg(args, kw, 1, "high")
    size = shape_arg(I, st, arg(args, kw, 2, "size"))
    if fname in ("random.randint", "random.randrange"):
        lo, hi = arg(args, kw, 0, "a"), arg(args, kw, 1, "b")
        if hi is None:
            lo, hi = arg(args, kw, 0, "start"), arg(args, kw, 1, "stop")
    if hi is None or (isinstance(hi, Cst) and hi.v is None):
        lo, hi = Num(0, "int"), lo
    a, b = I.to_poly(st, lo), I.to_poly(st, hi)
    top = b if fname == "random.randint" or fname.endswith("random_integers") else b - 1
    if "endpoint" in kw and isinstance(kw["endpoint"], Cst) and kw["endpoint"].v:
        top = b
    if isinstance(size, Poly):
        i = I.ix()
        at_ = rng_int(I, st, node, a, top, A(i))
        I.event("draw", node, st, fname=fname, atom=at_, count=size)
        return one(st, fseq(I, st, "nd", [Seg(size, i, Num(A(at_), "int"))]))
    at_ = rng_int(I, st, node, a, top)
    I.event("draw", node, st, fname=fname, atom=at_, count=P(1))
    return one(st, Num(A(at_), "int"))


def r_choice(I, st, args, kw, node, fname):
    a = arg(args, kw, 0, "a") or arg(args, kw, 0, "seq") or arg(args, kw, 0, "population")
    if fname.startswith("random.choices"):
        p, size = arg(args, kw, 1, "weights"), kw.get("k")
        if "cum_weights" in kw:
            p = Unk(("cumw", I.term(st, kw["cum_weights"])))
        if size is None:
            size = Num(1, "int")
    else:
        size, p = arg(args, kw, 1, "size"), arg(args, kw, 3, "p")
    if isinstance(p, Cst) and p.v is None:
        p = None
    w = I.view(st, a)
    if w is None:
        n = I.to_poly(st, a)
    else:
        n = I.vlen(w)
    sz = shape_arg(I, st, size)
    pf = fz(I, st, p) if p is not None else None
    i = I.ix() if isinstance(sz, Poly) else None
    at_ = rng_int(I, st, node, P(0), n - 1, A(i) if i else None)
    I.event("draw", node, st, fname=fname, atom=at_, count=sz if isinstance(sz, Poly) else P(1))
    I.note_draw(st, at_, (p,))
    I.event("select", node, st, cand=fz(I, st, a), ncand=n, weights=pf, atom=at_, fname=fname)

    def val(x):
        if w is None:
            return Num(A(at_), "int")
        return at(I, x, w, A(at_))
    if sz is None:
        return one(st, val(st))
    if isinstance(sz, Poly):
        rep = kw.get("replace")
        return one(st, fseq(I, st, "list" if fname.startswith("random.") else "nd", [Seg(sz, i, val(st))]))
    return one(st, Unk(("rngmat", at_), ("seq", ("seq", "int"))))


def r_multi(I, st, args, kw, node, fname):
    """binomial / multinomial / poisson / normal draws"""
    I.note_draw(st, ("rng", rng_site(I, node), None, st.ctx), list(args) + list(kw.values()))
    base = fname.split(".")[-1]
    if base == "binomial":
        n, p = arg(args, kw, 0, "n"), arg(args, kw, 1, "p")
        size = shape_arg(I, st, arg(args, kw, 2, "size"))
        wn = I.view(st, n)
        if wn is not None and size is None:
            i = I.ix()
            elem = at(I, st, wn, A(i))
            at_ = rng_int(I, st, node, P(0), I.to_poly(st, elem), A(i))
            I.event("draw", node, st, fname=fname, atom=at_, count=I.vlen(wn))
            I.event("binomial", node, st, n=I.to_poly(st, elem), p=I.to_poly(st, p), atom=at_)
            return one(st, fseq(I, st, "nd", [Seg(I.vlen(wn), i, Num(A(at_), "int"))]))
        i = I.ix() if isinstance(size, Poly) else None
        at_ = rng_int(I, st, node, P(0), I.to_poly(st, n), A(i) if i else None)
        I.event("draw", node, st, fname=fname, atom=at_, count=size if isinstance(size, Poly) else P(1))
        I.event("binomial", node, st, n=I.to_poly(st, n), p=I.to_poly(st, p), atom=at_)
        if isinstance(size, Poly):
            return one(st, fseq(I, st, "nd", [Seg(size, i, Num(A(at_), "int"))]))
        if size is None:
            return one(st, Num(A(at_), "int"))
    if base == "multinomial":
        n, p = arg(args, kw, 0, "n"), arg(args, kw, 1, "pvals")
        size = shape_arg(I, st, arg(args, kw, 2, "size"))
        wp = I.view(st, p)
        a = rng_float(I, st, node, fname)
        I.event("draw", node, st, fname=fname, atom=a, count=P(1))
        ln = I.vlen(wp) if wp is not None else seq_len(I.term(st, p))
        if size is None:
            t = ("lv", ("multinomial", a), "int", ln, I.to_poly(st, n), 0)
            return one(st, seq_term_value(I, st, t, "int", "nd"))
    a = rng_float(I, st, node, fname)
    I.event("draw", node, st, fname=fname, atom=a, count=P(1))
    size = None
    if base in ("normal", "gauss", "standard_normal", "randn", "exponential"):
        size = shape_arg(I, st, kw.get("size") or (args[2] if len(args) > 2 else None))
        if base == "randn" and args:
            size = I.to_poly(st, args[0]) if len(args) == 1 else "?"
    if size is None:
        return one(st, Num(A(a), "float"))
    if isinstance(size, Poly):
        i = I.ix()
        return one(st, fseq(I, st, "nd", [Seg(size, i, Num(A(a[:4] + (A(i),) + a[5:]), "float"))]))
    return one(st, Unk(("rngmat", a), ("seq", ("seq", "num"))))


def r_shuffle(I, st, args, kw, node, fname):
    x = arg(args, kw, 0, "x")
    a = rng_float(I, st, node, fname)
    w = I.view(st, x)
    base = fname.split(".")[-1]
    if base == "shuffle":
        mutated(I, st, x, "shuffle", node)
        I.event("draw", node, st, fname=fname, atom=a, count=P(1))
        if w is not None:
            x = tobj(I, st, x)
            if isinstance(x, Ref):
                c = st.heap[x.a]
                t = ("perm", a, I.segs_term(st, c.segs))
                ety = ety_of(I, c.segs)
                i = I.ix()
                st.heap[x.a] = c.with_(segs=(Seg(I.vlen(w), i, I.elem_of(t, A(i), ety, c.er)),))
        return one(st, NONE)
    I.event("draw", node, st, fname=fname, atom=a, count=P(1))
    if base == "sample":
        k = I.to_poly(st, arg(args, kw, 1, "k"))
        t = ("rngsample", a, I.term(st, x), k)
        SEQINFO[t] = {"len": k, "sum": None, "ty": "any", "lb": None}
        return one(st, seq_term_value(I, st, t, ety_of(I, w.segs) if w else "any", "list"))
    if w is None:
        n = I.to_poly(st, x)
        i = I.ix()
        src = fseq(I, st, "nd", [Seg(n, i, Num(A(i), "int"))])
        w = I.view(st, src)
        x = src
    t = ("perm", a, I.term(st, x))
    return one(st, seq_term_value(I, st, t, ety_of(I, w.segs), "nd"))


def r_seed(I, st, args, kw, node, fname):
    if not args and not kw:
        I.event("seeding", node, st, fname=fname, fresh=True)
    else:
        I.event("seeding", node, st, fname=fname, fresh=False)
    return one(st, NONE)


def r_generator(I, st, args, kw, node, fname):
    a = arg(args, kw, 0, "seed") or arg(args, kw, 0, "x")
    seeded = a is not None and not (isinstance(a, Cst) and a.v is None)
    g = XObj("generator", name=fname, seeded=seeded, seed=a, ctx=st.ctx)
    I.event("generator", node, st, fname=fname, seeded=seeded, seed=a)
    return one(st, g)


RNG = {}
for _m in ("numpy.random.", "random.", "scipy.random."):
    for _n in ("random", "random_sample", "ranf", "sample", "rand", "uniform"):
        RNG[_m + _n] = r_uniform
    for _n in ("randint", "randrange", "random_integers", "integers"):
        RNG[_m + _n] = r_int
    for _n in ("choice", "choices"):
        RNG[_m + _n] = r_choice
    for _n in ("shuffle", "permutation", "permuted"):
        RNG[_m + _n] = r_shuffle
    for _n in ("binomial", "multinomial", "normal", "poisson", "gauss", "standard_normal", "randn", "exponential"):
        RNG[_m + _n] = r_multi
    for _n in ("seed", "set_state", "setstate"):
        RNG[_m + _n] = r_seed
RNG["random.sample"] = r_shuffle
for _n in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random",
           "random.SystemRandom", "numpy.random.PCG64", "numpy.random.SeedSequence", "numpy.random.MT19937"):
    RNG[_n] = r_generator


# ------------------------------------------------------------------ builtin and numpy functions

def f_len(I, st, args, kw, node, name):
    v = args[0]
    if isinstance(v, Alt):
        ls = [f_len(I, st, [x], {}, node, name)[0][1] for x in v.vs]
        if all(isinstance(x, Num) and x.p == ls[0].p for x in ls):
            return one(st, ls[0])
        return one(st, Alt(ls))
    if isinstance(v, Ref):
        c = st.heap.get(v.a)
        if isinstance(c, DictCell):
            if c.tag == "empty" and not c.summ:
                return one(st, Num(len(c.entries), "int"))
            I.nhv += 1
            return one(st, Num(A(("len", ("dict", v.a, I.nhv))), "int"))
        if isinstance(c, ObjCell) and c.cls is not None:
            m = c.cls.find_method("__len__")
            if m is not None:
                return I.call_fn(m, [v], {}, st, node)
    w = I.view(st, v)
    if w is not None:
        return one(st, Num(I.vlen(w), "int"))
    return one(st, Num(seq_len(I.term(st, v)), "int"))


def f_sum(I, st, args, kw, node, name):
    v = arg(args, kw, 0, "a")
    start = arg(args, kw, 1, "start") if name == "builtins.sum" else None
    if isinstance(v, Alt):
        vs = [f_sum(I, st, [x] + args[1:], kw, node, name)[0][1] for x in v.vs]
        if all(isinstance(x, Num) and x.p == vs[0].p for x in vs):
            return one(st, vs[0])
        if all(isinstance(x, Num) for x in vs):
            return one(st, Alt(vs))
        return one(st, I.havoc("sum"))
    if isinstance(start, Ref):
        w = I.view(st, start)
        if w is not None and w.kind == "list":
            # sum of lists: concatenation
            wv = I.view(st, v)
            if wv is not None:
                segs = list(w.segs)
                ok = True
                for s in wv.segs:
                    iw = I.view(st, s.v)
                    if iw is None:
                        ok = False
                        break
                    segs += flatten_seg(I, st, s, iw)
                if ok:
                    return one(st, fseq(I, st, "list", segs))
            return one(st, I.havoc("sumlist"))
    w = I.view(st, v)
    if w is not None and "axis" not in kw and not (len(args) > 1 and name != "builtins.sum"):
        s = I.vsum(w)
        ty = ety_of(I, w.segs) if w.segs else "int"
        if s is not None:
            if start is not None:
                s = s + I.to_poly(st, start)
            if not isinstance(ty, str) or ty == "any":
                ty = "num"
            return one(st, Num(s, ty))
    t = I.term(st, v)
    if "axis" in kw or (len(args) > 1 and name != "builtins.sum"):
        return one(st, Unk(("sumaxis", t, tuple(I.term(st, x) for x in args[1:]) + tuple(I.term(st, x) for x in kw.values())),
                           ("seq", "num")))
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a), DictCell):
        return one(st, Num(A(("val", ("sumd", t), "num")), "num"))
    ty = "int" if int_seq(t) else "num"
    return one(st, Num(seq_sum(t), ty))


def flatten_seg(I, st, s, iw):
    """Segment of sequences -> segments of their elements."""
    if s.n.const() == 1:
        return [Seg(I_subst(x.n, s.ix, P(0)), x.ix, I.sv(x.v, {s.ix: P(0)})) for x in iw.segs]
    inner = I.vlen(iw)
    if len(iw.segs) == 1 and not mentions(inner, lambda a: a == s.ix):
        j = I.ix()
        q = floordiv(A(j), inner)
        x = iw.segs[0]
        v = I.sv(I.sv(x.v, {x.ix: A(j) - inner * q}), {s.ix: q})
        return [Seg(s.n * inner, j, v)]
    j = I.ix()
    tot = Sum(s.n, inner, s.ix)
    vs = [I.sv(I.sv(x.v, {x.ix: A(("anyit", I.nix_next(), "int"))}), {s.ix: A(("anyit", I.nix_next(), "int"))}) for x in iw.segs]
    return [Seg(tot, j, vs[0] if len(vs) == 1 else Alt(vs))]


def I_subst(p, ix, v):
    return subst(p, {ix: v})


def f_range(I, st, args, kw, node, name):
    ps = [I.to_poly(st, a) for a in args]
    isr = name == "builtins.range"
    ty = "int" if all(I.num_ty(a) == "int" for a in args) else ("int" if isr else "num")
    lo, hi, step = P(0), None, P(1)
    if len(ps) == 1:
        hi = ps[0]
    elif len(ps) == 2:
        lo, hi = ps
    elif len(ps) >= 3:
        lo, hi, step = ps[:3]
    else:
        return one(st, I.havoc("range"))
    sc = step.const()
    i = I.ix()
    if sc in (1, -1):
        n = hi - lo if sc == 1 else lo - hi
        if not ge0(I, st, n):
            n = n if plausible_len(n) else pmax(0, n)
    elif sc not in (None, 0):
        k = abs(sc)
        n = floordiv((hi - lo if sc > 0 else lo - hi) + (k - 1), P(k))
        if not ge0(I, st, n):
            n = pmax(0, n)
    else:
        n = A(("trip", lo, hi, step))
    return one(st, fseq(I, st, "range" if isr else "nd", [Seg(n, i, Num(lo + A(i) * step, ty))]))


def plausible_len(p):
    """Trip counts that are sizes by name (numbers of modes, particles, photons)."""
    t = as_term(p)
    if isinstance(t, tuple) and t and t[0] in ("attr",):
        return True
    return False


def f_enumerate(I, st, args, kw, node, name):
    start = arg(args, kw, 1, "start")
    off = I.to_poly(st, start) if start is not None else P(0)
    out = []
    for s in iter_segs(I, st, args[0], node):
        j = I.ix()
        v = FSeq("tuple", [Seg(1, I.ix(), Num(A(j) + off, "int")), Seg(1, I.ix(), I.sv(s.v, {s.ix: A(j)}))])
        out.append(Seg(s.n, j, v))
        off = off + s.n
    return one(st, fseq(I, st, "gen", out))


def f_zip(I, st, args, kw, node, name):
    if not args:
        return one(st, fseq(I, st, "gen", []))
    segs = [[s for s in iter_segs(I, st, a, node) if s.n.const() != 0] for a in args]
    cur = [(s.n, [s]) for s in segs[0]]
    for other in segs[1:]:
        lens = P(0)
        for n, _ in cur:
            lens = lens + n
        ol = P(0)
        for s in other:
            ol = ol + s.n
        a = [Seg(n, I.ix(), xs) for n, xs in cur]
        if lens != ol and len(a) == 1 and len(other) == 1:
            m = pmin(lens, ol)
            if ge0(I, st, ol - lens):
                m = lens
            elif ge0(I, st, lens - ol):
                m = ol
            cur = [(m, a[0].v + [other[0]])]
            continue
        r = refine_raw(I, st, cur, other)
        if r is None:
            t = ("zip",) + tuple(I.term(st, x) for x in args)
            return one(st, Unk(t, ("seq", "any")))
        cur = r
    out = []
    for n, xs in cur:
        j = I.ix()
        out.append(Seg(n, j, FSeq("tuple", [Seg(1, I.ix(), I.sv(s.v, {s.ix: A(j)})) for s in xs])))
    return one(st, fseq(I, st, "gen", out))


def refine_raw(I, st, cur, other):
    out = []
    a = [(n, list(xs)) for n, xs in cur]
    b = list(other)
    g = 0
    while a and b and g < 60:
        g += 1
        n, xs = a[0]
        y = b[0]
        if n == y.n:
            out.append((n, xs + [y]))
            a.pop(0)
            b.pop(0)
        elif ge0(I, st, y.n - n) or (len(b) == 1 and len(a) > 1):
            out.append((n, xs + [Seg(n, y.ix, y.v)]))
            b[0:1] = window(I, st, [y], n, y.n - n)
            a.pop(0)
        elif ge0(I, st, n - y.n) or (len(a) == 1 and len(b) > 1):
            m = y.n
            out.append((m, [Seg(m, s.ix, s.v) for s in xs] + [y]))
            a[0] = (n - m, [window(I, st, [Seg(n, s.ix, s.v)], m, n - m)[0] for s in xs])
            b.pop(0)
        else:
            return None
    return out


def f_tolist(I, st, args, kw, node, name):
    kind = {"builtins.list": "list", "builtins.tuple": "tuple", "builtins.reversed": "list"}.get(name, "list")
    if not args:
        return one(st, fseq(I, st, kind, []))
    v = args[0]
    if isinstance(v, Alt):
        out = []
        for x in v.vs:
            out.append(I.freeze(st, f_tolist(I, st, [x], {}, node, name)[0][1]))
        return one(st, Alt(out))
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a), DictCell):
        return one(st, fseq(I, st, kind, dict_keys(I, st, v, st.heap[v.a])))
    w = I.view(st, v)
    if w is None:
        if isinstance(v, Unk):
            t = v.t
            i = I.ix()
            er = v.er | v.roots
            return one(st, fseq(I, st, kind, [Seg(seq_len(t), i, Unk(("item", t, A(i), "any"), "any", er, er))], er=er))
        return one(st, I.havoc("list"))
    if name == "builtins.reversed":
        t = ("rev", I.term(st, v))
        if len(w.segs) == 1:
            s = w.segs[0]
            j = I.ix()
            return one(st, fseq(I, st, "list", [Seg(s.n, j, I.sv(s.v, {s.ix: s.n - 1 - A(j)}))], er=w.er))
        return one(st, seq_term_value(I, st, t, ety_of(I, w.segs), "list", er=w.er))
    return one(st, fseq(I, st, kind, w.segs, er=w.er))


def f_sorted(I, st, args, kw, node, name):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a), DictCell):
        t = ("sorted", ("keys", I.term(st, v)))
        return one(st, Unk(t, ("seq", "any")))
    w = I.view(st, v)
    if w is not None and 1 <= len(w.segs) <= 3 and all(g.n.const() == 1 and isinstance(g.v, (Num, Cst)) and
            I.num_ty(g.v) in ("int", "float") for g in w.segs) and "key" not in kw and set(kw) <= {"reverse"} and \
            all(isinstance(x, Cst) for x in kw.values()):
        ps, ty = [I.to_poly(st, g.v) for g in w.segs], ety_of(I, w.segs)
        out = ps if len(ps) == 1 else [pmin(*ps), pmax(*ps)] if len(ps) == 2 else \
            [pmin(*ps), pmax(pmin(ps[0], ps[1]), pmin(pmax(ps[0], ps[1]), ps[2])), pmax(*ps)]
        if any(x.v for x in kw.values()):
            out = out[::-1]
        return one(st, I.seqof(st, "list" if name == "builtins.sorted" else "nd", [Num(p, ty) for p in out]))
    t = ("sorted", I.term(st, v))
    extra = tuple((k, I.term(st, x)) for k, x in sorted(kw.items()))
    if extra:
        t = ("sorted", I.term(st, v), extra)
    if w is None:
        return one(st, Unk(t, ("seq", "any")))
    return one(st, seq_term_value(I, st, t, ety_of(I, w.segs), "list" if name == "builtins.sorted" else "nd", er=w.er))


def f_dict(I, st, args, kw, node, name):
    if name.endswith("defaultdict"):
        d = args[0] if args else None
        if isinstance(d, Cst):
            d = None
        return one(st, I.alloc(st, DictCell("empty", default=d)))
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.a), DictCell):
            c = st.heap[v.a]
            return one(st, I.alloc(st, c.with_(roots=EMPTY, term=c.term if c.term is not None else ("dict", v.a))))
        w = I.view(st, v)
        if w is not None and all(s.n.const() == 1 for s in w.segs):
            ents = []
            for s in w.segs:
                iw = I.view(st, s.v)
                if iw is None or len(iw.segs) != 2:
                    break
                ents.append((kterm(I, st, iw.segs[0].v), iw.segs[0].v, iw.segs[1].v))
            else:
                return one(st, I.alloc(st, DictCell("empty", ents)))
        return one(st, I.alloc(st, DictCell("sym", term=("dictof", I.term(st, v)))))
    ents = [(("cst", repr(k)), Cst(k), v) for k, v in kw.items()]
    return one(st, I.alloc(st, DictCell("empty", ents)))


def f_int(I, st, args, kw, node, name):
    if not args:
        return one(st, Num(0, "int"))
    v = args[0]
    if isinstance(v, Alt):
        return one(st, Alt([f_int(I, st, [x], kw, node, name)[0][1] for x in v.vs], v.g))
    p = I.to_poly(st, v)
    if I.num_ty(v) in ("int", "fint") or is_int(p):
        return one(st, Num(p, "int"))
    c = p.const()
    if c is not None:
        return one(st, Num(int(c), "int"))
    if isinstance(v, CondV):
        return one(st, Num(p, "int"))
    w = I.view(st, v)
    if w is not None and not name.startswith("builtins"):
        return one(st, fseq(I, st, "nd", [Seg(s.n, s.ix, cast(s.v, "int", I)) for s in w.segs]))
    if isinstance(v, Unk) and v.t[0] in ("attr", "param", "item") and v.ty == "any":
        return one(st, Num(p, "int"))
    return one(st, Num(A(("int", p, "int")), "int"))


def f_float(I, st, args, kw, node, name):
    ty = "complex" if "complex" in name else "float"
    if not args:
        return one(st, Num(0, ty))
    v = args[0]
    w = I.view(st, v)
    if w is not None and not isinstance(v, Cst):
        return one(st, fseq(I, st, "nd", [Seg(s.n, s.ix, cast(s.v, ty, I)) for s in w.segs]))
    if ty == "complex" and len(args) == 2:
        return one(st, Num(I.to_poly(st, v) + I.to_poly(st, args[1]) * A(("I",)), ty))
    return one(st, Num(I.to_poly(st, v), ty))


def f_bool(I, st, args, kw, node, name):
    return one(st, CondV(I.truth(st, args[0])) if args else Cst(False))


def f_abs(I, st, args, kw, node, name):
    return ew1(I, st, args[0], lambda v: Num(pabs(I.to_poly(None, v)), "int" if I.num_ty(v) == "int" else "float"), ("abs",))


def ew1(I, st, v, f, tag):
    """Elementwise unary function."""
    if isinstance(v, Alt):
        return one(st, Alt([ew1(I, st, x, f, tag)[0][1] for x in v.vs], v.g))
    w = I.view(st, v)
    if w is None:
        return one(st, f(v))
    if is_matrix(I, st, v):
        t = ("ewt", I.term(st, v)) + tag
        return one(st, Unk(t, ("seq", ("seq", "num"))))
    return one(st, fseq(I, st, "nd", [Seg(s.n, s.ix, f(s.v)) for s in w.segs], tagof(st, v)))


def f_ufun(tagname, ty):
    def h(I, st, args, kw, node, name):
        def f(v):
            p = I.to_poly(None, v) if not isinstance(v, Ref) else A(("val", I.term(st, v), "num"))
            if tagname == "exp" and not p.t:
                return Num(1, "float")
            if tagname == "log" and len(args) > 1:
                return Num(A((tagname, p, "num")) * power(A((tagname, I.to_poly(st, args[1]), "num")), -1), ty)
            return Num(A((tagname, p, "num")), ty)
        return ew1(I, st, args[0], f, (tagname,))
    return h


def f_sqrt(I, st, args, kw, node, name):
    return ew1(I, st, args[0], lambda v: Num(power(I.to_poly(None, v), Fraction(1, 2)), "float"), ("sqrt",))


def f_square(I, st, args, kw, node, name):
    return binop(I, st, ast.Mult(), args[0], args[0], node)


def f_conj(I, st, args, kw, node, name):
    def f(v):
        p = I.to_poly(None, v)
        if I.num_ty(v) in ("int", "float", "fint"):
            return v
        return Num(A(("conj", p, "num")), I.num_ty(v))
    if is_matrix(I, st, args[0]):
        return one(st, Unk(("conjm", I.term(st, args[0])), ("seq", ("seq", "num"))))
    return ew1(I, st, args[0], f, ("conj",))


def f_pow(I, st, args, kw, node, name):
    if len(args) == 3:
        return one(st, I.havoc("pow3"))
    return binop(I, st, ast.Pow(), args[0], args[1], node)


def f_op(opcls):
    def h(I, st, args, kw, node, name):
        return binop(I, st, opcls(), args[0], args[1], node)
    return h


def f_fact(I, st, args, kw, node, name):
    return ew1(I, st, args[0], lambda v: Num(fact(I.to_poly(None, v)), "int" if name.startswith("math") else "fint"), ("fact",))


def f_binom(I, st, args, kw, node, name):
    a, b = args[0], args[1]
    ty = "int" if name in ("math.comb",) else "fint"

    def f(x, y):
        return Num(binom(I.to_poly(None, x), I.to_poly(None, y)), ty)
    if I.view(st, a) is not None or I.view(st, b) is not None:
        segs = ewise2(I, st, f, a, b)
        if segs is None:
            return one(st, Unk(("ewbinom", I.term(st, a), I.term(st, b)), ("seq", "num")))
        return one(st, fseq(I, st, "nd", segs))
    if isinstance(a, Alt) or isinstance(b, Alt):
        return one(st, I.hnum("binom"))
    return one(st, f(a, b))


def f_binompmf(I, st, args, kw, node, name):
    k, n, p = args[0], arg(args, kw, 1, "n"), arg(args, kw, 2, "p")

    def f(x):
        kk, nn, pp = I.to_poly(None, x), I.to_poly(st, n), I.to_poly(st, p)
        return Num(binom(nn, kk) * power(pp, kk) * power(1 - pp, nn - kk), "float")
    return ew1(I, st, k, f, ("pmf",))


def f_maxmin(I, st, args, kw, node, name):
    mx = "max" in name.split(".")[-1]
    fn = pmax if mx else pmin
    if len(args) >= 2 and not (name.startswith("numpy") and not name.endswith(("maximum", "minimum"))):
        if all(isinstance(a, (Num, Cst, CondV, Unk)) and I.view(st, a) is None for a in args):
            ps = [I.to_poly(st, a) for a in args]
            # drop alternatives that are never the result
            keep = list(ps)
            for i, p in enumerate(ps):
                for j, q in enumerate(ps):
                    if i != j and p in keep and q in keep and p is not q and len(keep) > 1:
                        d = (q - p) if mx else (p - q)
                        if ge0(I, st, d) and (p != q):
                            keep.remove(p)
                            break
            return one(st, Num(fn(*keep), tyjoin(*[I.num_ty(a) for a in args])))
        if name.endswith(("maximum", "minimum")):
            segs = ewise2(I, st, lambda x, y: Num(fn(I.to_poly(None, x), I.to_poly(None, y)), "num"), args[0], args[1])
            if segs is not None:
                return one(st, fseq(I, st, "nd", segs))
        return one(st, I.hnum("max"))
    v = args[0]
    w = I.view(st, v)
    t = I.term(st, v)
    if w is not None and w.segs and len(w.segs) <= 4 and all(s.n.const() == 1 for s in w.segs) and \
            all(isinstance(s.v, (Num, Cst)) for s in w.segs):
        return one(st, Num(fn(*[I.to_poly(st, s.v) for s in w.segs]), ety_of(I, w.segs)))
    ety = ety_of(I, w.segs) if w is not None and w.segs else "num"
    ety = ety if ety in ("int", "float") else "num"
    extra = tuple((k, I.term(st, x)) for k, x in sorted(kw.items()))
    a = ("maxel" if mx else "minel", t) + extra + (ety,)
    if ety == "int" and I.occ(t):
        BOUNDS[a] = (P(0), None)
    return one(st, Num(A(a), ety))


def f_allany(I, st, args, kw, node, name):
    v = args[0]
    al = name.split(".")[-1] == "all"
    if isinstance(v, Unk) and v.t[0] == "cmpv" and v.t[1] in ("Eq", "NotEq"):
        ta, tb = v.t[2], v.t[3]
        if ta == tb:
            return one(st, CondV(("const", (v.t[1] == "Eq"))))
        c = ("c", ("eqseq",) + tuple(sorted([ta, tb], key=skey)))
        if al and v.t[1] == "Eq":
            return one(st, CondV(c))
        if not al and v.t[1] == "NotEq":
            return one(st, CondV(("not", c)))
    w = I.view(st, v)
    if w is not None and len(w.segs) <= 6 and all(s.n.const() == 1 for s in w.segs):
        cs = [I.truth(st, s.v) for s in w.segs]
        return one(st, CondV(("and" if al else "or", cs)))
    if w is not None and len(w.segs) == 1 and isinstance(w.segs[0].v, CondV):
        s = w.segs[0]
        # all(a[i] == b[i] for i) over two sequences
        c = s.v.c
        if c[0] == "c" and c[1][0] == "eq" and al:
            xs = [m for m in c[1][1].t]
            if len(xs) == 2 and all(len(m) == 1 and m[0][0][0] == "item" and m[0][1] == 1 and m[0][0][2] == A(s.ix) for m in xs):
                ts = [m[0][0][1] for m in xs]
                if seq_len(ts[0]) == s.n or seq_len(ts[1]) == s.n:
                    return one(st, CondV(("c", ("eqseq",) + tuple(sorted(ts, key=skey)))))
        t = ("all" if al else "any", s.n, I.cterm(I.scond(c, {s.ix: A(("bv", 90))})))
        return one(st, CondV(("c", ("truth", t))))
    return one(st, CondV(("c", ("truth", ("all" if al else "any", I.term(st, v))))))


def f_array_equal(I, st, args, kw, node, name):
    return one(st, CondV(compare(I, st, "eq", args[0], args[1])))


def f_isclose(I, st, args, kw, node, name):
    if I.view(st, args[0]) is not None:
        if name.endswith("allclose"):
            return one(st, CondV(("c", ("truth", ("allclose", I.term(st, args[0]), I.term(st, args[1]))))))
        return one(st, Unk(("iscloser", I.term(st, args[0]), I.term(st, args[1])), ("seq", "bool")))
    d = I.to_poly(st, args[0]) - I.to_poly(st, args[1])
    k = d.const()
    if k is not None:
        return one(st, CondV(("const", abs(k) < Fraction(1, 10 ** 8))))
    c = I.norm_cond(("eq", d))
    return one(st, CondV(("c", ("isclose", c[1]))))


def f_isinstance(I, st, args, kw, node, name):
    v, c = args[0], args[1]
    cs = [s.v for s in I.view(st, c).segs] if I.view(st, c) is not None else [c]
    res = []
    for c in cs:
        if isinstance(c, ClsV):
            if isinstance(v, Ref) and isinstance(st.heap.get(v.a), ObjCell) and st.heap[v.a].cls is not None:
                oc = st.heap[v.a]
                if c.info in oc.cls.mro():
                    return one(st, Cst(True))
                if oc.lazy is None:
                    res.append(False)
                    continue
            if isinstance(v, EnumV):
                res.append(v.cls is c.info)
                continue
            if isinstance(v, (Num, Cst, FSeq)):
                res.append(False)
                continue
        if isinstance(c, Ext):
            n = c.name.split(".")[-1]
            k = I.kindof(st, v)
            if k in ("list", "tuple", "nd", "range"):
                m = {"list": "list", "tuple": "tuple", "ndarray": "nd", "range": "range"}.get(n)
                if m is not None:
                    if m == k:
                        return one(st, Cst(True))
                    res.append(False)
                    continue
                if n in ("int", "float", "str", "dict"):
                    res.append(False)
                    continue
            if isinstance(v, Num) and v.ty == "int" and n in ("int", "integer", "Integral", "int64"):
                res.append(None)
                continue
            if isinstance(v, Cst) and v.v is None and n != "NoneType":
                res.append(False)
                continue
        res.append(None)
    if all(r is False for r in res):
        return one(st, Cst(False))
    return one(st, CondV(("c", ("truth", ("isinstance", I.term(st, v), tuple(I.term(st, c) for c in cs))))))


def run_loop(I, st, seqv, fnv, node, mode="map", star=False, init=None):
    """for x in seq: acc.append(f(x)) analysed as a loop; -> list of (st, acc)."""
    key = "%s%s" % (mode, star)
    cache = I.__dict__.setdefault("_maploops", {})
    if key not in cache:
        call = "_f(*_x)" if star else "_f(_x)"
        src = {"map": "for _x in _s:\n _a.append(%s)" % call,
               "filter": "for _x in _s:\n if %s:\n  _a.append(_x)" % call,
               "reduce": "for _x in _s:\n _a = _f(_a, _x)"}[mode]
        cache[key] = ast.parse(src).body[0]
    loop = cache[key]
    I.nfid += 1
    fid = I.nfid
    caller = st.cur
    env = {"_f": fnv, "_s": seqv, "_a": init if mode == "reduce" else I.seq(st, "list", ()), "$closure": None}
    st.frames[fid] = env
    st.cur = fid
    I.cstack.append(id(node))
    try:
        o = I.stmt(loop, st)
    finally:
        I.cstack.pop()
    out = []
    for x in o.norm:
        v = x.frames[fid]["_a"]
        x.cur = caller
        x.frames.pop(fid, None)
        out.append((x, v))
    return out


def f_map(I, st, args, kw, node, name):
    if len(args) == 2:
        r = run_loop(I, st, args[1], args[0], node)
    else:
        (x, z), = f_zip(I, st, args[1:], {}, node, "zip")
        r = run_loop(I, x, z, args[0], node, star=True)
    for x, v in r:
        if isinstance(v, Ref):
            x.heap[v.a] = x.heap[v.a].with_(kind="gen")
    return r


def f_filter(I, st, args, kw, node, name):
    return run_loop(I, st, args[1], args[0], node, "filter")


def f_reduce(I, st, args, kw, node, name):
    f, s = args[0], args[1]
    init = arg(args, kw, 2, "initial")
    fn = None
    if isinstance(f, Ext):
        fn = {"operator.mul": "mul", "numpy.multiply": "mul", "operator.add": "add", "numpy.add": "add"}.get(f.name)
    if isinstance(f, Fn) and isinstance(f.info.node, ast.Lambda):
        b = f.info.node.body
        if isinstance(b, ast.BinOp) and isinstance(b.left, ast.Name) and isinstance(b.right, ast.Name):
            fn = {"Mult": "mul", "Add": "add"}.get(type(b.op).__name__)
    w = I.view(st, s)
    if fn and w is not None and all(isinstance(g.v, (Num, Cst)) or (isinstance(g.v, Unk) and not isinstance(g.v.ty, tuple))
                                    for g in w.segs):
        r = I.to_poly(st, init) if init is not None else P(1 if fn == "mul" else 0)
        for g in w.segs:
            p = I.to_poly(st, g.v)
            r = r * Prod(g.n, p, g.ix) if fn == "mul" else r + Sum(g.n, p, g.ix)
        return one(st, Num(r, "num"))
    if w is not None and fn == "add" and init is not None and I.view(st, init) is not None:
        return f_sum(I, st, [s, init], {}, node, "builtins.sum")
    return one(st, I.hnum("reduce"))


def f_prod(I, st, args, kw, node, name):
    w = I.view(st, args[0])
    if w is not None and not kw and all(isinstance(g.v, (Num, Cst)) for g in w.segs):
        r = P(1)
        for g in w.segs:
            r = r * Prod(g.n, I.to_poly(st, g.v), g.ix)
        ty = ety_of(I, w.segs) if w.segs else "int"
        return one(st, Num(r, ty if isinstance(ty, str) and ty != "any" else "num"))
    return one(st, I.hnum("prod"))


def f_divmod(I, st, args, kw, node, name):
    a, b = I.to_poly(st, args[0]), I.to_poly(st, args[1])
    if not b.t:
        return one(st, I.havoc("div0"))
    return one(st, I.seqof(st, "tuple", [Num(floordiv(a, b), "int"), Num(mod(a, b), "int")]))


def f_round(I, st, args, kw, node, name):
    v = args[0]
    if I.num_ty(v) in ("int", "fint") or (I.view(st, v) is None and is_int(I.to_poly(st, v))):
        return one(st, Num(I.to_poly(st, v), "int"))
    if I.view(st, v) is not None:
        return ew1(I, st, v, lambda z: Num(A(("round", I.to_poly(None, z), "num")), I.num_ty(z)), ("round",))
    p = I.to_poly(st, v)
    return one(st, Num(A(("round", p, "int")), "int" if len(args) == 1 else "float"))


def deep_copy(I, st, v, memo=None, depth=0):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.a in memo:
            return memo[v.a]
        c = st.heap.get(v.a)
        if isinstance(c, ObjCell):
            r = I.alloc(st, ObjCell(c.cls, {}, c.lazy, EMPTY, origin=("copy", v.a)))
            memo[v.a] = r
            f = {k: deep_copy(I, st, x, memo, depth + 1) for k, x in c.fields.items()}
            st.heap[r.a] = ObjCell(c.cls, f, c.lazy, EMPTY, ("copy", v.a))
            return r
        if isinstance(c, SeqCell):
            r = I.alloc(st, SeqCell(c.kind, (), tag=c.tag))
            memo[v.a] = r
            segs = [Seg(s.n, s.ix, deep_copy(I, st, s.v, memo, depth + 1)) for s in c.segs]
            st.heap[r.a] = SeqCell(c.kind, segs, tag=c.tag)
            return r
        if isinstance(c, DictCell):
            r = I.alloc(st, c.with_(roots=EMPTY))
            memo[v.a] = r
            st.heap[r.a] = c.with_(roots=EMPTY, entries=tuple((k, kv, deep_copy(I, st, x, memo, depth + 1))
                                                              for k, kv, x in c.entries))
            return r
        return v
    if isinstance(v, FSeq):
        return FSeq(v.kind, [Seg(s.n, s.ix, deep_copy(I, st, s.v, memo, depth + 1)) for s in v.segs])
    if isinstance(v, Unk):
        if isinstance(v.ty, tuple):
            if depth == 0:
                w = I.view(st, v)
                return I.seq(st, "unk", [Seg(s.n, s.ix, strip(s.v)) for s in w.segs])
            return Unk(v.t, v.ty)
        return Unk(v.t, v.ty)
    if isinstance(v, Alt):
        return Alt([deep_copy(I, st, x, memo, depth + 1) for x in v.vs], v.g)
    if isinstance(v, Bnd):
        return Bnd(deep_copy(I, st, v.obj, memo, depth + 1), v.info, v.fid)
    return v


def strip(v):
    """Same value without caller ownership."""
    if isinstance(v, Unk):
        return Unk(v.t, v.ty)
    if isinstance(v, FSeq):
        return FSeq(v.kind, [Seg(s.n, s.ix, strip(s.v)) for s in v.segs])
    return v


def f_deepcopy(I, st, args, kw, node, name):
    return one(st, deep_copy(I, st, args[0]))


def f_copy(I, st, args, kw, node, name):
    v = args[0]
    if isinstance(v, Alt):
        return one(st, Alt([f_copy(I, st, [x], kw, node, name)[0][1] for x in v.vs], v.g))
    if isinstance(v, Ref):
        c = st.heap.get(v.a)
        if isinstance(c, ObjCell):
            return one(st, I.alloc(st, ObjCell(c.cls, dict(c.fields), c.lazy, EMPTY, ("shallow", v.a))))
        if isinstance(c, DictCell):
            return one(st, I.alloc(st, c.with_(roots=EMPTY)))
    w = I.view(st, v)
    if w is not None:
        r = I.seq(st, w.kind, w.segs, EMPTY, w.er)
        st.heap[r.a] = st.heap[r.a].with_(tag=tagof(st, v))
        return one(st, r)
    if isinstance(v, Unk):
        return one(st, Unk(v.t, v.ty, EMPTY, v.er))
    return one(st, v)


def np_array(I, st, args, kw, node, name):
    v = arg(args, kw, 0, "object") or arg(args, kw, 0, "a")
    dt = dtype_ty(I, arg(args, kw, 1, "dtype"))
    base = name.split(".")[-1]
    alias = base in ("asarray", "asanyarray", "ascontiguousarray", "atleast_1d")
    if base == "array" and isinstance(kw.get("copy"), Cst) and kw["copy"].v is False:
        alias = True
    if isinstance(v, Alt):
        return one(st, Alt([I.freeze(st, np_array(I, st, [x] + args[1:], kw, node, name)[0][1]) for x in v.vs], v.g))
    w = I.view(st, v)
    if w is None:
        if isinstance(v, (Num, Cst)):
            return one(st, Unk(("arr0", I.term(st, v)), "any"))
        if isinstance(v, Unk):
            return one(st, Unk(v.t, v.ty, v.roots if alias else EMPTY, v.er if alias else EMPTY))
        return one(st, I.havoc("array"))
    if isinstance(v, Unk) and isinstance(v.ty[1], tuple):
        return one(st, Unk(v.t, v.ty, v.roots if alias else EMPTY, v.er if alias else EMPTY))
    segs = [Seg(s.n, s.ix, cast(fz(I, st, s.v), dt, I)) for s in w.segs]
    if not alias:
        segs = [Seg(s.n, s.ix, strip(s.v)) for s in segs]
    ety = ety_of(I, segs)
    if dt is None and isinstance(ety, str) and ety not in ("any", "num"):
        segs = [Seg(s.n, s.ix, cast(s.v, ety, I)) if ety != "int" else s for s in segs]
    r = I.seq(st, "nd", segs, w.roots if alias and w.kind in ("nd", "unk") else EMPTY, w.er if alias else EMPTY)
    st.heap[r.a] = st.heap[r.a].with_(tag=tagof(st, v))
    return one(st, r)


def np_fill(I, st, args, kw, node, name):
    base = name.split(".")[-1]
    like = base.endswith("_like")
    val = {"zeros": P(0), "ones": P(1), "empty": None, "full": "arg"}[base.split("_")[0]]
    if val == "arg":
        fv = arg(args, kw, 1, "fill_value")
        dt = dtype_ty(I, arg(args, kw, 2, "dtype"))
    else:
        dt = dtype_ty(I, arg(args, kw, 1, "dtype"))
        fv = None
    if like:
        src = arg(args, kw, 0, "a")
        w = I.view(st, src)
        if w is None:
            return one(st, Unk((base, I.term(st, src)), getattr(src, "ty", "any")))
        if is_matrix(I, st, src) or isinstance(getattr(src, "ty", None), tuple) and isinstance(src.ty[1], tuple):
            return one(st, Unk(("zeros_like", I.term(st, src), base), ("seq", ("seq", "num"))))
        ety = dt or ety_of(I, w.segs)
        if not isinstance(ety, str) or ety == "any":
            ety = "num"
        n = I.vlen(w)
        tag = tagof(st, src)
    else:
        n = shape_arg(I, st, arg(args, kw, 0, "shape"))
        ety = dt or "float"
        tag = None
    if ety == "?":
        ety = "num"
    if fv is not None:
        v = fv if dt is None else cast(fv, dt, I)
    elif val is None:
        v = I.hnum("empty", ety)
    else:
        v = Num(val, ety)
    if isinstance(n, list):
        inner = n[1:]
        val_ = v
        for d in reversed(inner):
            val_ = FSeq("nd", [Seg(d, I.ix(), val_)])
        return one(st, fseq(I, st, "nd", [Seg(n[0], I.ix(), val_)]))
    if n == "?" or n is None:
        return one(st, Unk(("fill", base, I.term(st, args[0]) if args else ""), ("seq", "num")))
    return one(st, fseq(I, st, "nd", [Seg(n, I.ix(), v)], tag))


def np_stack(I, st, args, kw, node, name):
    base = name.split(".")[-1]
    v = arg(args, kw, 0, "tup") or arg(args, kw, 0, "arrays")
    axis = arg(args, kw, 1, "axis")
    w = I.view(st, v)
    if w is None:
        return one(st, Unk((base, I.term(st, v)), ("seq", "any")))
    parts = []
    for s in w.segs:
        if s.n.const() != 1:
            iw = I.view(st, s.v)
            if iw is not None and base in ("hstack", "concatenate") and not is_matrix(I, st, s.v) and axis is None:
                parts.append(fseq(I, st, "nd", flatten_seg(I, st, s, iw)))
                continue
            return one(st, Unk((base, I.term(st, v)), ("seq", "any")))
        parts.append(s.v)
    views = [I.view(st, p) for p in parts]
    mats = [is_matrix(I, st, p) for p in parts]
    tags = [tagof(st, p) for p in parts]
    ac = I.to_poly(st, axis).const() if isinstance(axis, (Num,)) else (None if axis is not None and not isinstance(axis, Num) else 0)
    if all(x is not None for x in views) and not any(mats):
        if all(t == "col" for t in tags):
            if base == "vstack" or base in ("concatenate", "row_stack") and ac == 0:
                return one(st, concat(I, st, "nd", parts, "col"))
        elif not any(t == "col" for t in tags):
            if base == "hstack" or base in ("concatenate", "append", "r_") and (axis is None or ac == 0):
                r = concat(I, st, "nd", parts)
                c = st.heap[r.a]
                e = ety_of(I, [s for s in c.segs if s.n.const() != 0])
                if isinstance(e, str) and e not in ("any",):
                    # one common element type; an empty plain list makes the result float
                    if any(not I.vlen(x).t and x.kind == "list" for x in views) and e == "int":
                        e = "float"
                    st.heap[r.a] = c.with_(segs=tuple(Seg(s.n, s.ix, cast(s.v, e, I)) for s in c.segs))
                return one(st, r)
            if base in ("vstack", "stack", "row_stack") and (axis is None or ac == 0):
                return one(st, fseq(I, st, "nd", [Seg(1, I.ix(), FSeq("nd", I.view(st, p).segs)) for p in parts], "rows"))
    return one(st, Unk((base,) + tuple(I.term(st, p) for p in parts), ("seq", ("seq", "num"))))


def np_delete(I, st, args, kw, node, name):
    v, k = args[0], arg(args, kw, 1, "obj")
    ax = arg(args, kw, 2, "axis")
    w = I.view(st, v)
    if w is None or (is_matrix(I, st, v)):
        return one(st, Unk(("delete", I.term(st, v), I.term(st, k)), getattr(v, "ty", ("seq", "any")) if isinstance(v, Unk) else ("seq", "any")))
    if I.view(st, k) is not None or isinstance(k, SliceV):
        kv = I.view(st, k)
        t = ("delete", I.term(st, v), I.term(st, k))
        if kv is not None and len(kv.segs) == 1 and isinstance(kv.segs[0].v, Num):
            s = kv.segs[0]
            d = kv.segs[0].v.p - A(s.ix)
            if not mentions(d, lambda a: a == s.ix):
                # contiguous range d .. d+n
                n = I.vlen(w)
                left = window(I, st, w.segs, P(0), d)
                right = window(I, st, w.segs, d + s.n, n - d - s.n)
                if left is not None and right is not None:
                    return one(st, fseq(I, st, "nd", [x for x in left + right if x.n.const() != 0]))
        SEQINFO[t] = {"len": I.vlen(w) - (I.vlen(kv) if kv is not None else P(0)), "sum": None, "ty": "any", "lb": None}
        return one(st, seq_term_value(I, st, t, ety_of(I, w.segs), "nd"))
    tag = tagof(st, v) if ax is not None and not isinstance(ax, Cst) else None
    return one(st, fseq(I, st, "nd", remove_at(I, st, w.segs, I.to_poly(st, k)), tag))


def np_insert(I, st, args, kw, node, name):
    v, k, x = args[0], args[1], args[2]
    w = I.view(st, v)
    if w is None or is_matrix(I, st, v) or I.view(st, k) is not None:
        return one(st, Unk(("insert", I.term(st, v), I.term(st, k), I.term(st, x)), ("seq", "any")))
    return one(st, fseq(I, st, "nd", insert_at(I, st, w.segs, I.to_poly(st, k), x)))


def insert_at(I, st, segs, k, x):
    n = P(0)
    for s in segs:
        n = n + s.n
    k = norm_index(I, st, k, n)
    left = window(I, st, segs, P(0), k) if k.t else []
    right = window(I, st, segs, k, n - k)
    xs = I.view(st, x)
    mid = list(xs.segs) if xs is not None else [Seg(1, I.ix(), x)]
    if left is None or right is None:
        t = ("insert", I.segs_term(st, segs), k, I.term(st, x))
        SEQINFO[t] = {"len": n + 1, "sum": None, "ty": "any", "lb": None}
        i = I.ix()
        return [Seg(n + 1, i, I.elem_of(t, A(i), ety_of(I, segs)))]
    return [s for s in list(left) + mid + list(right) if s.n.const() != 0]


def np_append(I, st, args, kw, node, name):
    a, b = args[0], args[1]
    if I.view(st, a) is None or is_matrix(I, st, a):
        return one(st, Unk(("npappend", I.term(st, a), I.term(st, b)), ("seq", "any")))
    wb = I.view(st, b)
    segs = list(I.view(st, a).segs) + (list(wb.segs) if wb is not None else [Seg(1, I.ix(), b)])
    return one(st, fseq(I, st, "nd", [s for s in segs if s.n.const() != 0]))


def np_eye(I, st, args, kw, node, name):
    n = I.to_poly(st, args[0])
    return one(st, Unk(("eye", n), ("seq", ("seq", "num"))))


def np_diag(I, st, args, kw, node, name):
    v = args[0]
    if is_matrix(I, st, v):
        t = ("diagof", I.term(st, v))
        SEQINFO[t] = {"len": seq_len(I.term(st, v)), "sum": None, "ty": "num", "lb": None}
        return one(st, Unk(t, ("seq", "num")))
    return one(st, Unk(("diag", I.term(st, v)), ("seq", ("seq", "num"))))


def np_dot(I, st, args, kw, node, name):
    base = name.split(".")[-1]
    if base == "multi_dot":
        w = I.view(st, args[0])
        if w is None or not all(s.n.const() == 1 for s in w.segs):
            return one(st, I.havoc("multidot"))
        vs = [s.v for s in w.segs]
        r = vs[0]
        for x in vs[1:]:
            r = matmul(I, st, r, x, node)
        return one(st, r)
    return one(st, matmul(I, st, args[0], args[1], node))


def np_transpose(I, st, args, kw, node, name):
    return one(st, transpose(I, st, args[0]))


def np_svd(I, st, args, kw, node, name):
    t = I.term(st, args[0])
    n = seq_len(t)
    s = ("svd_s", t)
    SEQINFO[s] = {"len": n, "sum": None, "ty": "float", "lb": None}
    u, v = ("svd_u", t), ("svd_v", t)
    SEQINFO[u] = {"len": n, "sum": None, "ty": "any", "lb": None}
    SEQINFO[v] = {"len": n, "sum": None, "ty": "any", "lb": None}
    mt = ("seq", ("seq", "num"))
    return one(st, I.seqof(st, "tuple", [Unk(u, mt), Unk(s, ("seq", "float")), Unk(v, mt)]))


def np_nonzero(I, st, args, kw, node, name):
    t = ("nonzero", I.term(st, args[0]))
    base = name.split(".")[-1]
    if base == "flatnonzero":
        return one(st, Unk(t, ("seq", "int")))
    return one(st, I.seqof(st, "tuple", [Unk(t, ("seq", "int"))]))


def np_cumsum(I, st, args, kw, node, name):
    v = args[0]
    w = I.view(st, v)
    if w is not None and len(w.segs) == 1 and isinstance(w.segs[0].v, Num):
        s = w.segs[0]
        j = I.ix()
        return one(st, fseq(I, st, "nd", [Seg(s.n, j, Num(Sum(A(j) + 1, s.v.p, s.ix), s.v.ty))]))
    t = ("cumsum", I.term(st, v))
    SEQINFO[t] = {"len": I.vlen(w) if w is not None else seq_len(I.term(st, v)), "sum": None, "ty": "num", "lb": None}
    return one(st, Unk(t, ("seq", "num")))


def np_searchsorted(I, st, args, kw, node, name):
    a, v = args[0], args[1]
    w = I.view(st, a)
    n = I.vlen(w) if w is not None else seq_len(I.term(st, a))
    t = ("ssorted", I.term(st, a), I.term(st, v), P(n), "int")
    I.deps[t] = frozenset(I.deep_atoms(st, v)) | frozenset(I.deep_atoms(st, a))
    I.event("search", node, st, weights=fz(I, st, a), value=v, atom=t, n=n)
    return one(st, Num(A(t), "int"))


def np_split(I, st, args, kw, node, name):
    v, k = args[0], args[1]
    w = I.view(st, v)
    kp = I.to_poly(st, k)
    t = ("asplit", I.term(st, v), kp)
    SEQINFO[t] = {"len": kp, "sum": None, "ty": "any", "lb": None}
    return one(st, Unk(t, ("seq", ("seq", ety_of(I, w.segs) if w is not None else "any"))))


def np_tile(I, st, args, kw, node, name):
    return one(st, Unk(("tile",) + tuple(I.term(st, a) for a in args), ("seq", "num")))


def np_flip(I, st, args, kw, node, name):
    return f_tolist(I, st, [args[0]], {}, node, "builtins.reversed")


def np_linspace(I, st, args, kw, node, name):
    n = arg(args, kw, 2, "num")
    t = ("linspace",) + tuple(I.term(st, a) for a in args)
    SEQINFO[t] = {"len": I.to_poly(st, n) if n is not None else P(50), "sum": None, "ty": "float", "lb": None}
    return one(st, Unk(t, ("seq", "float")))


def np_clip(I, st, args, kw, node, name):
    v, lo, hi = args[0], arg(args, kw, 1, "a_min"), arg(args, kw, 2, "a_max")

    def f(x):
        p = I.to_poly(None, x)
        if lo is not None and not (isinstance(lo, Cst) and lo.v is None):
            p = pmax(I.to_poly(st, lo), p)
        if hi is not None and not (isinstance(hi, Cst) and hi.v is None):
            p = pmin(I.to_poly(st, hi), p)
        return Num(p, I.num_ty(x))
    return ew1(I, st, v, f, ("clip",))


def np_where(I, st, args, kw, node, name):
    if len(args) == 1:
        return np_nonzero(I, st, args, kw, node, name)
    t = ("where",) + tuple(I.term(st, a) for a in args)
    w = next((I.view(st, a) for a in args if I.view(st, a) is not None), None)
    if w is not None:
        SEQINFO[t] = {"len": I.vlen(w), "sum": None, "ty": "any", "lb": None}
        return one(st, Unk(t, ("seq", "num")))
    return one(st, Unk(t))


def np_inplace(I, st, args, kw, node, name):
    """copyto, put, place, fill_diagonal: first argument is written."""
    mutated(I, st, args[0], name.split(".")[-1], node)
    x = tobj(I, st, args[0])
    if isinstance(x, Ref) and isinstance(st.heap.get(x.a), SeqCell):
        c = st.heap[x.a]
        t = (name.split(".")[-1],) + tuple(I.term(st, a) for a in args)
        SEQINFO[t] = {"len": I.vlen(View(c.kind, c.segs, EMPTY, EMPTY)), "sum": None, "ty": "any", "lb": None}
        i = I.ix()
        st.heap[x.a] = c.with_(segs=(Seg(SEQINFO[t]["len"], i, I.elem_of(t, A(i), ety_of(I, c.segs))),))
    return one(st, NONE)


def np_reshape(I, st, args, kw, node, name):
    if not args[1:]:
        return reshape(I, st, args[0], [kw.get("newshape") or kw.get("shape")], node)
    return reshape(I, st, args[0], args[1:2], node)


def reshape(I, st, v, shp, node):
    dims = []
    for s in shp:
        w = I.view(st, s) if s is not None else None
        if w is not None and all(g.n.const() == 1 for g in w.segs):
            dims += [I.to_poly(st, g.v) for g in w.segs]
        elif isinstance(s, Num):
            dims.append(s.p)
        else:
            return one(st, Unk(("reshape", I.term(st, v)), ("seq", "any"), I.roots(st, v)))
    w = I.view(st, v)
    if w is None:
        return one(st, Unk(("reshape", I.term(st, v)) + tuple(dims), ("seq", "any"), I.roots(st, v)))
    keep = w.roots if w.kind in ("nd", "unk") else EMPTY
    flat = flat_segs(I, st, v, w)
    if len(dims) == 1 and flat is not None:
        return one(st, I.seq(st, "nd", flat, keep))
    if len(dims) == 2 and dims[1].const() == 1 and flat is not None:
        r = I.seq(st, "nd", flat, keep)
        st.heap[r.a] = st.heap[r.a].with_(tag="col")
        return one(st, r)
    if len(dims) == 2 and dims[0].const() in (2,) and flat is not None and dims[1].const() != -1:
        a = window(I, st, flat, P(0), dims[1])
        b = window(I, st, flat, dims[1], dims[1])
        if a is not None and b is not None:
            return one(st, fseq(I, st, "nd", [Seg(1, I.ix(), FSeq("nd", a)), Seg(1, I.ix(), FSeq("nd", b))], "rows"))
    t = ("reshape", I.term(st, v)) + tuple(dims)
    if dims and dims[0].const() != -1:
        SEQINFO[t] = {"len": dims[0], "sum": None, "ty": "any", "lb": None}
    return one(st, Unk(t, ("seq", ("seq", "num")) if len(dims) == 2 else ("seq", "any"), keep))


def flat_segs(I, st, v, w):
    """Segments of the flattened array, or None."""
    if not is_matrix(I, st, v):
        return list(w.segs)
    out = []
    for s in w.segs:
        iw = I.view(st, s.v)
        if iw is None or (s.n.const() != 1):
            return None
        out += iw.segs
    return [s for s in out if s.n.const() != 0]


# vocabulary of quantities that stay symbolic
def f_cpu_count(I, st, args, kw, node, name):
    a = ("sym", "cpu_count", "int")
    BOUNDS[a] = (P(1), None)
    return one(st, Num(A(a), "int"))


def f_print(I, st, args, kw, node, name):
    return one(st, NONE)


def f_next(I, st, args, kw, node, name):
    v = args[0]
    w = I.view(st, v)
    if w is None or not w.segs:
        return one(st, I.havoc("next"))
    n = I.vlen(w)
    first = [s for s in w.segs if s.n.const() != 0]
    el = I.sv(first[0].v, {first[0].ix: P(0)}) if first else I.havoc("next")
    if I.lb_nonneg(n - 1):
        return one(st, el)
    if len(args) < 2:
        I.event("next", node, st, n=n)
        return one(st, el)
    yes, no = I.branch(st, I.cmp("gt", n, P(0)))
    return [(x, el) for x in yes] + [(x, args[1]) for x in no]


def f_id(I, st, args, kw, node, name):
    return one(st, args[0] if args else NONE)


def f_partial(I, st, args, kw, node, name):
    return one(st, XObj("partial", f=args[0], args=args[1:], kw=kw))


def f_chain(I, st, args, kw, node, name):
    if name.endswith("from_iterable"):
        w = I.view(st, args[0])
        if w is None:
            return one(st, Unk(("chain", I.term(st, args[0])), ("seq", "any")))
        segs = []
        for s in w.segs:
            iw = I.view(st, s.v)
            if iw is None:
                return one(st, Unk(("chain", I.term(st, args[0])), ("seq", "any")))
            segs += flatten_seg(I, st, s, iw)
        return one(st, fseq(I, st, "gen", segs))
    r = concat(I, st, "gen", args)
    return one(st, r if r is not None else Unk(("chain",) + tuple(I.term(st, a) for a in args), ("seq", "any")))


def f_combinations(I, st, args, kw, node, name):
    t = (name.split(".")[-1],) + tuple(I.term(st, a) for a in args)
    w = I.view(st, args[0]) if args else None
    return one(st, Unk(t, ("seq", ("seq", ety_of(I, w.segs) if w is not None and w.segs else "any"))))


def f_repeat(I, st, args, kw, node, name):
    if len(args) > 1 and name.startswith("itertools"):
        return one(st, fseq(I, st, "gen", [Seg(I.to_poly(st, args[1]), I.ix(), args[0])]))
    return one(st, Unk(("repeat",) + tuple(I.term(st, a) for a in args), ("seq", "any")))


def f_accumulate(I, st, args, kw, node, name):
    if len(args) == 1 and not kw:
        return np_cumsum(I, st, args, kw, node, name)
    return one(st, Unk(("accumulate",) + tuple(I.term(st, a) for a in args), ("seq", "any")))


def has_attr(I, st, v, n):
    """True, False or None (not known): does the object have the attribute?"""
    c = st.heap.get(v.a) if isinstance(v, Ref) else None
    if not isinstance(c, ObjCell) or c.cls is None:
        return None
    if n in c.fields:
        x = c.fields[n]
        return None if isinstance(x, Unk) and x.t and x.t[0] == "phi" else True
    if any(I.find_member(c.cls, k, n) is not None for k in ("getters", "methods")):
        return True
    if any(n in k.attrs for k in c.cls.mro()):
        return True
    if c.lazy is not None or any(not b.known for b in c.cls.mro() if hasattr(b, "known")):
        return None
    return False


def f_hasattr(I, st, args, kw, node, name):
    if len(args) == 2 and isinstance(args[1], Cst) and isinstance(args[1].v, str):
        h = has_attr(I, st, args[0], args[1].v)
        if h is not None:
            return one(st, Cst(h))
    return one(st, I.havoc("hasattr", "bool"))


def f_getattr(I, st, args, kw, node, name):
    if isinstance(args[1], Cst) and isinstance(args[1].v, str):
        if len(args) > 2:
            h = has_attr(I, st, args[0], args[1].v)
            if h is False:
                return one(st, args[2])
            if h is None and isinstance(args[0], Ref):
                return one(st, I.havoc("getattr"))
        return I.get_attr(st, args[0], args[1].v, node)
    return one(st, I.havoc("getattr"))


def f_setattr(I, st, args, kw, node, name):
    if isinstance(args[1], Cst) and isinstance(args[1].v, str):
        return [(x, NONE) for x in I.set_attr(st, args[0], args[1].v, args[2], node)]
    return one(st, NONE)


def f_type(I, st, args, kw, node, name):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a), ObjCell) and st.heap[v.a].cls is not None and \
            st.heap[v.a].lazy is None:
        return one(st, ClsV(st.heap[v.a].cls))
    return one(st, Unk(("type", I.term(st, v))))


def f_set(I, st, args, kw, node, name):
    if not args:
        t = ("seq",)
        return one(st, I.alloc(st, SeqCell("set", ())))
    return one(st, Unk(("set", I.term(st, args[0])), "any"))


def f_bisect(I, st, args, kw, node, name):
    return np_searchsorted(I, st, args[:2], kw, node, name)


def f_array_of(I, st, args, kw, node, name):
    return np_array(I, st, args, kw, node, name)


def f_block(I, st, args, kw, node, name):
    return one(st, Unk(("block", I.term(st, args[0])), ("seq", ("seq", "num"))))


# ------------------------------------------------------------------ process pools

def start_method(v):
    if isinstance(v, Cst) and isinstance(v.v, str):
        return v.v
    return None


def f_get_context(I, st, args, kw, node, name):
    m = arg(args, kw, 0, "method")
    return one(st, XObj("mpctx", method=start_method(m) if m is not None else "default"))


def f_set_start(I, st, args, kw, node, name):
    I.event("set_start_method", node, st, method=start_method(arg(args, kw, 0, "method")))
    return one(st, NONE)


def f_pool(I, st, args, kw, node, name):
    base = name.split(".")[-1]
    thread = "Thread" in name or ".dummy" in name
    ctx = kw.get("mp_context") or (arg(args, kw, 1) if base == "ProcessPoolExecutor" else kw.get("context"))
    method = "default"
    if isinstance(ctx, XObj) and ctx.kind == "mpctx":
        method = ctx.data["method"]
    elif ctx is not None and not (isinstance(ctx, Cst) and ctx.v is None):
        method = None
    workers = arg(args, kw, 0, "max_workers") or kw.get("processes")
    init = kw.get("initializer")
    I.event("pool", node, st, method=method, thread=thread, workers=workers, init=init)
    return one(st, XObj("pool", method=method, thread=thread, workers=workers, init=init, node=node))


def import_cells(I, st, child, v, memo=None):
    """Copy the part of child's heap behind v that st does not have into st."""
    memo = {} if memo is None else memo
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, Bnd):
            todo.append(x.obj)
        elif isinstance(x, FSeq):
            todo += [s.v for s in x.segs]
        elif isinstance(x, Alt):
            todo += list(x.vs)
        elif isinstance(x, Ref) and x.a not in seen:
            seen.add(x.a)
            c = child.heap.get(x.a)
            if c is None:
                continue
            if x.a not in st.heap:
                st.heap[x.a] = c
            if isinstance(c, SeqCell):
                todo += [s.v for s in c.segs]
            elif isinstance(c, ObjCell):
                todo += list(c.fields.values())
            elif isinstance(c, DictCell):
                todo += [e[2] for e in c.entries]


def pool_map(I, st, pool, args, kw, node, meth):
    f, s = args[0], args[1]
    star = meth.startswith("starmap")
    segs = iter_segs(I, st, s, node)
    I.event("pool_map", node, st, pool=pool, func=f, tasks=sum_polys([g.n for g in segs]), work=fz(I, st, s))
    if len(args) > 2 and meth == "map" and pool.data.get("executor", True) and not isinstance(args[2], (Num, Cst)):
        (st, z), = f_zip(I, st, args[1:], {}, node, "zip")
        s, star = z, True
    if pool.data["thread"]:
        return run_loop(I, st, s, f, node, star=star)
    child = st.clone()
    child.ctx = st.ctx + (("worker", id(node)),)
    out = []
    for x, v in run_loop(I, child, s, f, node, star=star):
        y = st.clone()
        fv = I.freeze(x, v)
        import_cells(I, y, x, fv)
        y.rngn = x.rngn
        y.flags = x.flags
        for c, b in x.facts.items():
            if c not in y.facts:
                y.facts[c] = b
        out.append((y, I.seq(y, "list", fv.segs) if isinstance(fv, FSeq) else fv))
    return out


def sum_polys(ps):
    r = P(0)
    for p in ps:
        r = r + p
    return r


def pool_submit(I, st, pool, args, kw, node):
    f = args[0]
    I.event("pool_map", node, st, pool=pool, func=f, tasks=P(1), work=None)
    if pool.data["thread"]:
        return [(x, XObj("future", value=v)) for x, v in I.call(f, args[1:], kw, st, node)]
    child = st.clone()
    child.ctx = st.ctx + (("worker", id(node)),)
    out = []
    for x, v in I.call(f, list(args[1:]), dict(kw), child, node):
        y = st.clone()
        fv = I.freeze(x, v)
        import_cells(I, y, x, fv)
        y.rngn = x.rngn
        y.flags = x.flags
        out.append((y, XObj("future", value=fv)))
    return out


EXT = {
    "builtins.len": f_len, "builtins.sum": f_sum, "numpy.sum": f_sum, "math.fsum": f_sum, "numpy.add.reduce": f_sum,
    "builtins.range": f_range, "numpy.arange": f_range, "builtins.enumerate": f_enumerate, "builtins.zip": f_zip,
    "builtins.list": f_tolist, "builtins.tuple": f_tolist, "builtins.reversed": f_tolist, "builtins.iter": f_id,
    "builtins.sorted": f_sorted, "numpy.sort": f_sorted,
    "builtins.dict": f_dict, "collections.defaultdict": f_dict, "collections.OrderedDict": f_dict,
    "builtins.int": f_int, "numpy.int64": f_int, "numpy.int32": f_int, "numpy.intp": f_int, "numpy.int_": f_int,
    "builtins.float": f_float, "builtins.complex": f_float, "numpy.complex128": f_float, "numpy.float64": f_float,
    "builtins.bool": f_bool, "builtins.abs": f_abs, "numpy.abs": f_abs, "numpy.absolute": f_abs, "math.fabs": f_abs,
    "numpy.exp": f_ufun("exp", "num"), "math.exp": f_ufun("exp", "float"), "cmath.exp": f_ufun("exp", "complex"),
    "numpy.log": f_ufun("log", "float"), "math.log": f_ufun("log", "float"),
    "numpy.cos": f_ufun("cos", "float"), "numpy.sin": f_ufun("sin", "float"),
    "numpy.floor": f_ufun("floor", "float"), "math.floor": f_ufun("floor", "int"), "math.ceil": f_ufun("ceil", "int"),
    "numpy.ceil": f_ufun("ceil", "float"),
    "numpy.real": f_id, "numpy.angle": f_ufun("angle", "float"), "numpy.imag": f_ufun("imag", "float"),
    "numpy.sqrt": f_sqrt, "math.sqrt": f_sqrt, "numpy.square": f_square,
    "numpy.conjugate": f_conj, "numpy.conj": f_conj,
    "builtins.pow": f_pow, "numpy.power": f_pow, "math.pow": f_pow, "numpy.float_power": f_pow,
    "operator.add": f_op(ast.Add), "operator.sub": f_op(ast.Sub), "operator.mul": f_op(ast.Mult),
    "operator.truediv": f_op(ast.Div), "operator.floordiv": f_op(ast.FloorDiv), "operator.mod": f_op(ast.Mod),
    "numpy.add": f_op(ast.Add), "numpy.subtract": f_op(ast.Sub), "numpy.multiply": f_op(ast.Mult),
    "numpy.divide": f_op(ast.Div), "numpy.true_divide": f_op(ast.Div), "operator.matmul": f_op(ast.MatMult),
    "operator.pow": f_op(ast.Pow),
    "math.factorial": f_fact, "scipy.special.factorial": f_fact, "scipy.special.gamma": None,
    "scipy.special.binom": f_binom, "scipy.special.comb": f_binom, "math.comb": f_binom, "scipy.misc.comb": f_binom,
    "scipy.stats.binom.pmf": f_binompmf,
    "builtins.max": f_maxmin, "builtins.min": f_maxmin, "numpy.max": f_maxmin, "numpy.min": f_maxmin,
    "numpy.amax": f_maxmin, "numpy.amin": f_maxmin, "numpy.maximum": f_maxmin, "numpy.minimum": f_maxmin,
    "builtins.all": f_allany, "builtins.any": f_allany, "numpy.all": f_allany, "numpy.any": f_allany,
    "numpy.array_equal": f_array_equal, "numpy.isclose": f_isclose, "math.isclose": f_isclose,
    "numpy.allclose": f_isclose,
    "builtins.isinstance": f_isinstance, "builtins.map": f_map, "builtins.filter": f_filter,
    "functools.reduce": f_reduce, "math.prod": f_prod, "numpy.prod": f_prod, "numpy.product": f_prod,
    "builtins.divmod": f_divmod, "builtins.round": f_round, "numpy.round": f_round, "numpy.rint": f_round,
    "numpy.around": f_round,
    "copy.deepcopy": f_deepcopy, "copy.copy": f_copy, "numpy.copy": np_array,
    "numpy.array": np_array, "numpy.asarray": np_array, "numpy.asanyarray": np_array, "numpy.atleast_1d": np_array,
    "numpy.ascontiguousarray": np_array, "numpy.fromiter": np_array,
    "numpy.zeros": np_fill, "numpy.ones": np_fill, "numpy.empty": np_fill, "numpy.full": np_fill,
    "numpy.zeros_like": np_fill, "numpy.ones_like": np_fill, "numpy.empty_like": np_fill, "numpy.full_like": np_fill,
    "numpy.hstack": np_stack, "numpy.vstack": np_stack, "numpy.concatenate": np_stack, "numpy.stack": np_stack,
    "numpy.row_stack": np_stack, "numpy.column_stack": np_stack,
    "numpy.delete": np_delete, "numpy.insert": np_insert, "numpy.append": np_append,
    "numpy.eye": np_eye, "numpy.identity": np_eye, "numpy.diag": np_diag, "numpy.diagflat": np_diag,
    "numpy.dot": np_dot, "numpy.matmul": np_dot, "numpy.linalg.multi_dot": np_dot, "numpy.inner": np_dot,
    "numpy.vdot": np_dot, "numpy.transpose": np_transpose, "numpy.linalg.svd": np_svd, "scipy.linalg.svd": np_svd,
    "numpy.nonzero": np_nonzero, "numpy.flatnonzero": np_nonzero, "numpy.cumsum": np_cumsum,
    "numpy.searchsorted": np_searchsorted, "numpy.digitize": None, "bisect.bisect": f_bisect,
    "bisect.bisect_right": f_bisect, "bisect.bisect_left": f_bisect,
    "numpy.array_split": np_split, "numpy.split": np_split, "numpy.tile": np_tile, "numpy.flip": np_flip,
    "numpy.linspace": np_linspace, "numpy.clip": np_clip, "numpy.where": np_where,
    "numpy.copyto": np_inplace, "numpy.put": np_inplace, "numpy.place": np_inplace, "numpy.fill_diagonal": np_inplace,
    "numpy.putmask": np_inplace, "heapq.heapify": np_inplace, "heapq.heappush": np_inplace,
    "numpy.reshape": np_reshape, "numpy.ravel": None, "numpy.block": f_block,
    "multiprocessing.cpu_count": f_cpu_count, "os.cpu_count": f_cpu_count, "builtins.print": f_print,
    "builtins.next": f_next, "functools.partial": f_partial, "itertools.chain": f_chain,
    "itertools.chain.from_iterable": f_chain, "itertools.combinations": f_combinations,
    "itertools.product": f_combinations, "itertools.permutations": f_combinations,
    "itertools.combinations_with_replacement": f_combinations, "itertools.repeat": f_repeat,
    "itertools.accumulate": f_accumulate, "builtins.getattr": f_getattr, "builtins.hasattr": f_hasattr, "builtins.setattr": f_setattr,
    "builtins.type": f_type, "builtins.set": f_set, "builtins.frozenset": f_set,
    "multiprocessing.get_context": f_get_context, "multiprocessing.set_start_method": f_set_start,
    "concurrent.futures.ProcessPoolExecutor": f_pool, "concurrent.futures.ThreadPoolExecutor": f_pool,
    "concurrent.futures.process.ProcessPoolExecutor": f_pool, "concurrent.futures.thread.ThreadPoolExecutor": f_pool,
    "multiprocessing.Pool": f_pool, "multiprocessing.pool.Pool": f_pool, "multiprocessing.pool.ThreadPool": f_pool,
    "multiprocessing.dummy.Pool": f_pool,
}


def call_ext(I, st, name, args, kw, node):
    if name.startswith("np."):
        name = "numpy." + name[3:]
    h = RNG.get(name)
    if h is not None:
        return h(I, st, args, kw, node, name)
    h = EXT.get(name)
    if h is not None:
        try:
            return h(I, st, args, kw, node, name)
        except (IndexError, AttributeError, TypeError, KeyError, ValueError) as e:
            I.model_gaps.append((name, repr(e)))
    if name.startswith(("numpy.random.", "random.")):
        a = rng_float(I, st, node, name)
        I.event("draw", node, st, fname=name, atom=a, count=P(1))
        return one(st, Unk(("rngcall", name, a), "any"))
    if name.startswith("builtins.") and name.split(".")[-1] in ("Exception", "AttributeError", "ValueError", "TypeError",
                                                               "RuntimeError", "KeyError", "ImportError", "NotImplementedError"):
        return one(st, Unk(("exc", name)))
    if name == "builtins.str" or name == "builtins.repr":
        return one(st, Unk(("str",) + tuple(I.term(st, a) for a in args)))
    if name == "builtins.hash":
        return one(st, Num(A(("hash", I.term(st, args[0]), "num")), "int"))
    if name == "builtins.object":
        return one(st, Unk(("object",)))
    # in place through out=
    if "out" in kw:
        mutated(I, st, kw["out"], "out=", node)
    t = ("call", name) + tuple(I.term(st, a) for a in args) + tuple((k, I.term(st, v)) for k, v in sorted(kw.items()))
    I.ext_unmodelled.add(name)
    return one(st, Unk(t, "any"))


# ------------------------------------------------------------------ methods of builtin values

def call_method(I, st, obj, name, args, kw, node):
    if isinstance(obj, Alt):
        out = []
        for x in obj.vs:
            s2 = st.clone()
            for y, f in I.get_attr(s2, x, name, node):
                out += I.call(f, args, kw, y, node)
        return out
    if isinstance(obj, XObj):
        return xobj_method(I, st, obj, name, args, kw, node)
    if isinstance(obj, SuperV):
        return one(st, NONE)
    if isinstance(obj, Ref):
        c = st.heap.get(obj.a)
        if isinstance(c, DictCell):
            return dict_method(I, st, obj, c, name, args, kw, node)
    w = I.view(st, obj)
    if w is not None:
        try:
            r = seq_method(I, st, obj, w, name, args, kw, node)
        except (IndexError, AttributeError, TypeError, KeyError, ValueError) as e:
            I.model_gaps.append((name, repr(e)))
            r = None
        if r is not None:
            return r
    if name in MUTATORS and not isinstance(obj, (Num, Cst)):
        mutated(I, st, obj, name, node)
        if isinstance(obj, Unk) and name in ("pop",):
            return one(st, Unk(("popped", obj.t), "any", obj.er, obj.er))
        return one(st, NONE if name != "setdefault" else I.havoc("setdefault"))
    if isinstance(obj, (Num, Unk)):
        if name in ("conjugate", "conj"):
            return f_conj(I, st, [obj], {}, node, name)
        if name in ("copy", "item", "astype"):
            if isinstance(obj, Unk):
                return one(st, Unk(obj.t, obj.ty, EMPTY, EMPTY))
            return one(st, obj)
        if name in ("transpose",) and isinstance(obj, Unk):
            return one(st, Unk(("Tr", obj.t), obj.ty, obj.roots))
        if name == "sum":
            return one(st, Num(seq_sum(I.term(st, obj)), "num"))
    if isinstance(obj, Cst) and isinstance(obj.v, str):
        return one(st, Unk(("strm", obj.v, name) + tuple(I.term(st, a) for a in args)))
    t = ("call", I.term(st, obj), name) + tuple(I.term(st, a) for a in args) + \
        tuple((k, I.term(st, v)) for k, v in sorted(kw.items()))
    I.event("opaque_call", node, st, f=ExtM(obj, name))
    return one(st, Unk(t, "any"))


def xobj_method(I, st, obj, name, args, kw, node):
    if obj.kind == "pool":
        if name in ("map", "imap", "imap_unordered", "starmap", "map_async", "starmap_async"):
            if name == "imap_unordered":
                I.event("unordered", node, st)
            r = pool_map(I, st, obj, args, kw, node, name)
            if name.endswith("async"):
                return [(x, XObj("future", value=v)) for x, v in r]
            return r
        if name == "submit":
            return pool_submit(I, st, obj, args, kw, node)
        if name in ("apply", "apply_async"):
            a = args[1] if len(args) > 1 else kw.get("args")
            w = I.view(st, a) if a is not None else None
            xs = [s.v for s in w.segs] if w is not None else []
            r = pool_submit(I, st, obj, [args[0]] + xs, {}, node)
            if name == "apply":
                return [(x, v.data["value"]) for x, v in r]
            return r
        if name in ("__enter__",):
            return one(st, obj)
        return one(st, NONE)
    if obj.kind == "future":
        if name in ("result", "get"):
            return one(st, obj.data["value"])
        return one(st, I.havoc("future"))
    if obj.kind == "mpctx":
        if name == "Pool":
            m = obj.data["method"]
            I.event("pool", node, st, method=m, thread=False, workers=arg(args, kw, 0, "processes"), init=kw.get("initializer"))
            return one(st, XObj("pool", method=m, thread=False, workers=arg(args, kw, 0, "processes"),
                                init=kw.get("initializer"), node=node))
        if name == "cpu_count":
            return f_cpu_count(I, st, args, kw, node, name)
        return one(st, I.havoc("mpctx"))
    if obj.kind == "generator":
        full = "numpy.random." + name
        if obj.data["seeded"] and not I.quiet:
            I.event("seeded_draw", node, st, gen=obj)
        h = RNG.get(full)
        if name == "random":
            h = r_uniform
        if h is not None:
            n0 = st.rngn
            return h(I, st, args, kw, node, full)
        a = rng_float(I, st, node, full)
        return one(st, Unk(("rngcall", name, a), "any"))
    return one(st, I.havoc("xobj " + name))


def dict_method(I, st, obj, c, name, args, kw, node):
    if name == "get":
        d = arg(args, kw, 1, "default", NONE)
        k = args[0]
        if c.tag == "empty" and not c.summ:
            if c.default is not None:
                c2 = c.with_(default=None)
                st.heap[obj.a] = c2
                r = dict_get(I, st, obj, k, node, missing=d)
                for x, _ in r:
                    x.heap[obj.a] = x.heap[obj.a].with_(default=c.default)
                return r
            return dict_get(I, st, obj, k, node, missing=d)
        kt = kterm(I, st, k)
        if any(e[0] == kt for e in c.entries):
            return dict_get(I, st, obj, k, node)
        t, f = I.branch(st, contains(I, st, k, obj, node))
        out = []
        for x in t:
            out += dict_get(I, x, obj, k, node, missing=d)
        out += [(x, d) for x in f]
        return out
    if name == "keys":
        return one(st, fseq(I, st, "gen", dict_keys(I, st, obj, c)))
    if name in ("values", "items"):
        if c.tag == "empty" and not c.summ:
            if name == "values":
                return one(st, I.seqof(st, "gen", [e[2] for e in c.entries]))
            return one(st, I.seqof(st, "gen", [I.seqof(st, "tuple", [e[1], e[2]]) for e in c.entries]))
        if c.tag == "hist":
            I.event("hist_get", node, st, ref=obj, key=name)
        t = (name, c.term if c.term is not None else ("dict", obj.a))
        i = I.ix()
        if name == "values":
            return one(st, Unk(t, ("seq", "any"), EMPTY, c.roots))
        k = ("item", ("keys",) + t[1:], A(i), "any")
        kt = k
        return one(st, fseq(I, st, "gen", [Seg(seq_len(("keys",) + t[1:]), i,
                                               FSeq("tuple", [Seg(1, I.ix(), Unk(k)), Seg(1, I.ix(), Unk(("dictv", t[1], k)))]))]))
    if name == "copy":
        return f_copy(I, st, [obj], {}, node, "copy")
    if name in ("update", "setdefault", "pop", "popitem", "clear"):
        mutated(I, st, obj, name, node)
        if name == "clear":
            st.heap[obj.a] = DictCell("empty", default=c.default, roots=c.roots)
            return one(st, NONE)
        if name == "setdefault":
            k, d = args[0], arg(args, kw, 1, "default", NONE)
            kt = kterm(I, st, k)
            t, f = I.branch(st, contains(I, st, k, obj, node))
            out = []
            for x in t:
                out += dict_get(I, x, obj, k, node)
            for x in f:
                cc = x.heap[obj.a]
                x.heap[obj.a] = cc.with_(entries=tuple(e for e in cc.entries if e[0] != kt) + ((kt, k, d),))
                out.append((x, d))
            return out
        if name == "update":
            src = args[0] if args else None
            ents = None
            if isinstance(src, Ref) and isinstance(st.heap.get(src.a), DictCell):
                sc = st.heap[src.a]
                if sc.tag == "empty" and not sc.summ:
                    ents = sc.entries
            if ents is not None or src is None:
                cc = st.heap[obj.a]
                new = list(ents or ()) + [(("cst", repr(k)), Cst(k), v) for k, v in kw.items()]
                ks = [e[0] for e in new]
                st.heap[obj.a] = cc.with_(entries=tuple(e for e in cc.entries if e[0] not in ks) + tuple(new))
            else:
                st.heap[obj.a] = st.heap[obj.a].with_(tag="sym" if c.tag != "hist" else "hist",
                                                      term=("upd", I.term(st, obj), I.term(st, src)))
            return one(st, NONE)
        if name == "pop":
            k = args[0]
            kt = kterm(I, st, k)
            out = []
            for x, v in dict_get(I, st, obj, k, node, missing=arg(args, kw, 1, "default")):
                cc = x.heap[obj.a]
                x.heap[obj.a] = cc.with_(entries=tuple(e for e in cc.entries if e[0] != kt))
                out.append((x, v))
            return out
        return one(st, I.havoc("popitem"))
    if name == "__contains__":
        return one(st, CondV(contains(I, st, args[0], obj, node)))
    if name == "__getitem__":
        return dict_get(I, st, obj, args[0], node)
    return one(st, I.havoc("dict." + name))


def seq_method(I, st, obj, w, name, args, kw, node):
    if name in ("append", "add", "appendleft"):
        mutated(I, st, obj, name, node)
        obj = tobj(I, st, obj)
        if not isinstance(obj, Ref):
            return one(st, NONE)
        c = st.heap[obj.a]
        v = args[0]
        sg = Seg(1, I.ix(), v)
        segs = (sg,) + c.segs if name == "appendleft" else c.segs + (sg,)
        st.heap[obj.a] = c.with_(segs=segs, er=c.er | I.roots(st, v))
        return one(st, NONE)
    if name in ("extend", "update", "__iadd__"):
        mutated(I, st, obj, name, node)
        obj = tobj(I, st, obj)
        if not isinstance(obj, Ref):
            return one(st, NONE)
        c = st.heap[obj.a]
        segs = iter_segs(I, st, args[0], node)
        iw = I.view(st, args[0])
        st.heap[obj.a] = c.with_(segs=c.segs + tuple(s for s in segs if s.n.const() != 0), er=c.er | (iw.er if iw else EMPTY))
        return one(st, NONE)
    if name == "insert":
        mutated(I, st, obj, name, node)
        obj = tobj(I, st, obj)
        c = st.heap[obj.a]
        st.heap[obj.a] = c.with_(segs=tuple(insert_at(I, st, c.segs, I.to_poly(st, args[0]), XWrap(args[1]))))
        return one(st, NONE)
    if name == "pop":
        mutated(I, st, obj, name, node)
        k = I.to_poly(st, args[0]) if args else P(-1)
        if st.ctx and not I.quiet:
            I.event("popped", node, st, target=I.term(st, obj), key=k)
        v = at(I, st, w, k, node)
        obj = tobj(I, st, obj)
        if isinstance(obj, Ref):
            c = st.heap[obj.a]
            st.heap[obj.a] = c.with_(segs=tuple(remove_at(I, st, c.segs, k)))
        return one(st, v)
    if name in ("popleft",):
        return seq_method(I, st, obj, w, "pop", [Num(0, "int")], {}, node)
    if name == "remove":
        mutated(I, st, obj, name, node)
        obj = tobj(I, st, obj)
        c = st.heap[obj.a]
        t = ("removed", I.term(st, obj), I.term(st, args[0]))
        x = I.to_poly(st, args[0])
        n = I.vlen(w)
        tot = I.vsum(w)
        lv = ("lv", t, "int" if ety_of(I, c.segs) == "int" else "num", n - 1, tot - x if tot is not None else None,
              0 if I.occ(I.term(st, obj)) else None)
        i = I.ix()
        st.heap[obj.a] = c.with_(segs=(Seg(n - 1, i, I.elem_of(lv, A(i), ety_of(I, c.segs), c.er)),))
        return one(st, NONE)
    if name == "clear":
        mutated(I, st, obj, name, node)
        obj = tobj(I, st, obj)
        st.heap[obj.a] = st.heap[obj.a].with_(segs=())
        return one(st, NONE)
    if name in ("sort", "reverse"):
        mutated(I, st, obj, name, node)
        t = ("sorted" if name == "sort" else "rev", I.term(st, obj))
        obj = tobj(I, st, obj)
        c = st.heap[obj.a]
        i = I.ix()
        st.heap[obj.a] = c.with_(segs=(Seg(I.vlen(w), i, I.elem_of(t, A(i), ety_of(I, c.segs), c.er)),))
        return one(st, NONE)
    if name == "fill":
        mutated(I, st, obj, name, node)
        obj = tobj(I, st, obj)
        c = st.heap[obj.a]
        st.heap[obj.a] = c.with_(segs=(Seg(I.vlen(w), I.ix(), args[0]),))
        return one(st, NONE)
    if name == "copy":
        if w.kind in ("nd",):
            r = I.seq(st, "nd", [Seg(s.n, s.ix, strip(s.v)) for s in w.segs])
            st.heap[r.a] = st.heap[r.a].with_(tag=tagof(st, obj))
            return one(st, r)
        return f_copy(I, st, [obj], {}, node, name)
    if name in ("tolist",):
        return one(st, fseq(I, st, "list", [Seg(s.n, s.ix, strip(s.v)) for s in w.segs]))
    if name == "sum":
        return f_sum(I, st, [obj] + args, kw, node, "numpy.sum")
    if name in ("max", "min"):
        return f_maxmin(I, st, [obj], kw, node, "numpy." + name)
    if name == "mean":
        s, n = I.vsum(w), I.vlen(w)
        if s is not None and n.t:
            return one(st, Num(s / n, "float"))
        return one(st, I.hnum("mean"))
    if name == "prod":
        return f_prod(I, st, [obj], kw, node, name)
    if name in ("all", "any"):
        return f_allany(I, st, [obj], kw, node, "numpy." + name)
    if name == "astype":
        dt = dtype_ty(I, arg(args, kw, 0, "dtype"))
        if isinstance(obj, Unk) and isinstance(obj.ty[1], tuple):
            return one(st, Unk(obj.t, obj.ty))
        r = fseq(I, st, "nd", [Seg(s.n, s.ix, cast(s.v, dt, I)) for s in w.segs], tagof(st, obj))
        return one(st, r)
    if name in ("reshape",):
        return reshape(I, st, obj, args, node)
    if name in ("flatten", "ravel"):
        fl = flat_segs(I, st, obj, w)
        if fl is None:
            return one(st, Unk(("flat", I.term(st, obj)), ("seq", "num")))
        return one(st, I.seq(st, "nd", fl, w.roots if name == "ravel" and w.kind in ("nd", "unk") else EMPTY))
    if name == "transpose":
        return one(st, transpose(I, st, obj))
    if name in ("conj", "conjugate"):
        return f_conj(I, st, [obj], {}, node, name)
    if name in ("dot",):
        return one(st, matmul(I, st, obj, args[0], node))
    if name == "cumsum":
        return np_cumsum(I, st, [obj], kw, node, name)
    if name == "nonzero":
        return np_nonzero(I, st, [obj], kw, node, "numpy.nonzero")
    if name == "searchsorted":
        return np_searchsorted(I, st, [obj] + args, kw, node, name)
    if name == "count":
        t = ("cnt", I.term(st, obj), I.term(st, args[0]))
        return one(st, Num(A(t), "int"))
    if name == "index":
        t = ("indexof", I.term(st, obj), I.term(st, args[0]), "int")
        BOUNDS[t] = (P(0), I.vlen(w) - 1)
        return one(st, Num(A(t), "int"))
    if name == "item":
        return one(st, at(I, st, w, I.to_poly(st, args[0]) if args else P(0)))
    if name == "squeeze":
        fl = flat_segs(I, st, obj, w)
        return one(st, I.seq(st, "nd", fl, w.roots)) if fl is not None else None
    if name == "__len__":
        return one(st, Num(I.vlen(w), "int"))
    if name == "__getitem__":
        return get_item(I, st, obj, args[0], node)
    if name == "round":
        return f_round(I, st, [obj], kw, node, "numpy.round")
    return None


def XWrap(v):
    return v


# ------------------------------------------------------------------ operations of abstract collaborators

def interface_call(I, info, args, kw, st, node):
    """Operation of a symbolic object known only by its interface."""
    ref = args[0]
    c = st.heap[ref.a]
    if info.is_property or info.is_setter:
        return None
    env = I.bind(info, args, dict(kw), st, node)
    cls = c.cls
    names = {k.name for k in cls.mro()} if cls else set()
    name = info.name
    I.event("icall", node, st, callee=info, ref=ref, env=env)
    if name == "compute_permanent":
        parts = []
        for a in ("matrix", "input_state", "output_state"):
            r = I.get_field(st, ref, st.heap[ref.a], a, node)
            st, v = r[0]
            parts.append(I.term(st, v))
        t = ("permanent",) + tuple(parts) + ("num",)
        return one(st, Num(A(t), "complex"))
    if name == "compute_permanents":
        t = ("permanents", I.term(st, ref))
        return one(st, Unk(t, ("seq", "num")))
    if name == "simulate" and "samples_number" in env:
        n = I.to_poly(st, env["samples_number"])
        st.rngn += 1
        a = ("rng", rng_site(I, node), st.rngn, st.ctx, None, "float")
        I.event("draw", node, st, fname="strategy.simulate", atom=a, count=n)
        I.event("sampling", node, st, strategy=ref, input=env.get("input_state"),
                input_term=I.term(st, env["input_state"]) if env.get("input_state") is not None else None, n=n,
                strategy_term=I.term(st, ref))
        t = ("samples", I.term(st, ref), I.term(st, env["input_state"]), a)
        I.note_draw(st, a, (env["samples_number"],))
        i = I.ix()
        nn = n if ge0(I, st, n) else pmax(0, n)
        sm = ("item", t, A(i), "seq")
        return one(st, fseq(I, st, "list", [Seg(nn, i, Unk(sm, ("seq", "int")))]))
    if name == "simulate":
        t = ("evolved", I.term(st, ref), I.term(st, env.get("input_state", NONE)))
        w = I.view(st, env.get("input_state", NONE))
        if w is not None:
            SEQINFO[t] = {"len": I.vlen(w), "sum": None, "ty": "num", "lb": None}
        return one(st, seq_term_value(I, st, t, "num", "nd"))
    if info.is_abstract:
        t = ("icall", I.term(st, ref), name) + tuple(I.term(st, a) for a in args[1:])
        ty = I.ann_type(name, getattr(info.node, "returns", None), info.mod)
        if ty in ("int", "float"):
            return one(st, Num(A(("val", t, ty)), ty))
        return one(st, Unk(t, ty if not isinstance(ty, ClassInfo) else "any"))
    return None
