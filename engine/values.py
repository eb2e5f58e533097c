"""Abstract values, heap cells and states."""
from .terms import Poly, P, A, subst, walk, as_term, seq_len, seq_sum, item, SEQINFO, Sum, mentions

EMPTY = frozenset()


class Val:
    __slots__ = ()


class Num(Val):
    __slots__ = ("p", "ty")

    def __init__(self, p, ty="num"):
        self.p, self.ty = P(p), ty

    def __repr__(self):
        return "Num(%s:%s)" % (self.p, self.ty)


class Cst(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Cst(%r)" % (self.v,)


class CondV(Val):
    """A boolean: ('c', cond) | ('not', t) | ('and', ts) | ('or', ts) | ('const', b)"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "Cond(%s)" % (self.c,)


class Ref(Val):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return "Ref(%d)" % self.a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(("Ref", self.a))


class Unk(Val):
    """Unknown value named by a term.  roots: caller data it is; er: caller data its elements are."""
    __slots__ = ("t", "ty", "roots", "er")

    def __init__(self, t, ty="any", roots=EMPTY, er=EMPTY):
        if isinstance(t, Poly):
            t = as_term(t)
        if isinstance(t, Poly):
            t = ("poly", t)
        self.t, self.ty, self.roots, self.er = t, ty, frozenset(roots), frozenset(er)

    def __repr__(self):
        return "Unk(%s:%s)" % (self.t, self.ty)


class Alt(Val):
    """One of several values (joined paths), with the conditions under which each is taken where they are known."""
    __slots__ = ("vs", "g")

    def __init__(self, vs, g=None):
        out, gs = [], []
        for i, v in enumerate(vs):
            if isinstance(v, Alt):
                out += v.vs
                gs += v.g if v.g is not None and g is None else [g[i] if g is not None else ()] * len(v.vs)
            else:
                out.append(v)
                gs.append(g[i] if g is not None else ())
        self.vs = tuple(out)
        self.g = tuple(gs) if any(gs) else None

    def __repr__(self):
        return "Alt(%s)" % (self.vs,)


class Fn(Val):
    __slots__ = ("info", "fid")

    def __init__(self, info, fid=None):
        self.info, self.fid = info, fid

    def __repr__(self):
        return "Fn(%s)" % self.info.qual


class Bnd(Val):
    __slots__ = ("obj", "info", "fid")

    def __init__(self, obj, info, fid=None):
        self.obj, self.info, self.fid = obj, info, fid

    def __repr__(self):
        return "Bnd(%s)" % self.info.qual


class ClsV(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "Cls(%s)" % self.info.name


class SuperV(Val):
    __slots__ = ("obj", "after")

    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class Ext(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtM(Val):
    """Method of a non-repository value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "ExtM(%s.%s)" % (self.obj, self.name)


class XObj(Val):
    __slots__ = ("kind", "data")

    def __init__(self, kind, **data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return "XObj(%s)" % self.kind


class ModV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class EnumV(Val):
    __slots__ = ("cls", "name")

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)

    def __eq__(self, o):
        return isinstance(o, EnumV) and o.cls is self.cls and o.name == self.name

    def __hash__(self):
        return hash((self.cls.name, self.name))


class SliceV(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


NONE = Cst(None)


# ------------------------------------------------------------------ heap

class Seg:
    __slots__ = ("n", "ix", "v")

    def __init__(self, n, ix, v):
        self.n, self.ix, self.v = P(n), ix, v

    def __repr__(self):
        return "<%s x %s=%s>" % (self.n, self.ix, self.v)


class SeqCell:
    __slots__ = ("kind", "segs", "roots", "er", "parent", "tag")

    def __init__(self, kind, segs, roots=EMPTY, er=EMPTY, parent=None, tag=None):
        self.kind, self.segs = kind, tuple(segs)
        self.roots, self.er, self.parent, self.tag = frozenset(roots), frozenset(er), parent, tag

    def with_(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(k)
        return SeqCell(**d)

    def __repr__(self):
        return "Seq[%s %s]" % (self.kind, list(self.segs))


class ObjCell:
    __slots__ = ("cls", "fields", "lazy", "roots", "origin")

    def __init__(self, cls, fields, lazy=None, roots=EMPTY, origin=None):
        self.cls, self.fields, self.lazy, self.roots, self.origin = cls, fields, lazy, frozenset(roots), origin

    def with_fields(self, f):
        return ObjCell(self.cls, f, self.lazy, self.roots, self.origin)

    def __repr__(self):
        return "Obj[%s %s]" % (self.cls.name if self.cls else None, self.fields)


class DictCell:
    """tag: where content not in entries/summ comes from: 'empty' | 'hist' | 'sym'.
    entries: ((keyterm, keyval, value), ...) written on this path, in order.
    summ: value templates ((marker), ...) generalised over loop iterations."""
    __slots__ = ("tag", "entries", "summ", "default", "term", "roots")

    def __init__(self, tag, entries=(), summ=(), default=None, term=None, roots=EMPTY):
        self.tag, self.entries, self.summ = tag, tuple(entries), tuple(summ)
        self.default, self.term, self.roots = default, term, frozenset(roots)

    def with_(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(k)
        return DictCell(**d)

    def __repr__(self):
        return "Dict[%s %s %s]" % (self.tag, self.entries, self.summ)


class State:
    __slots__ = ("frames", "cur", "heap", "facts", "ctx", "rngn", "comp", "flags")

    def __init__(self):
        self.frames = {}
        self.cur = None
        self.heap = {}
        self.facts = {}
        self.ctx = ()
        self.rngn = 0
        self.comp = EMPTY
        self.flags = EMPTY

    def clone(self):
        s = State()
        s.frames = dict(self.frames)
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.ctx, s.rngn, s.comp, s.flags = self.ctx, self.rngn, self.comp, self.flags
        return s

    # variables (environments are copy-on-write)
    def getv(self, name):
        return self.frames[self.cur].get(name)

    def setv(self, name, v):
        e = dict(self.frames[self.cur])
        e[name] = v
        self.frames[self.cur] = e

    def delv(self, name):
        e = dict(self.frames[self.cur])
        e.pop(name, None)
        self.frames[self.cur] = e

    def setf(self, addr, name, v):
        c = self.heap[addr]
        f = dict(c.fields)
        f[name] = v
        self.heap[addr] = c.with_fields(f)
