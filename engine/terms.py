"""Value numbers: polynomials over hashable atoms, normal forms, and identity testing.

An atom is a nested tuple ('tag', ...); its components are atoms, strings, ints or Polys.
Monomials map atoms to exponents (ints, Fractions or Polys), so eta**l * (1-eta)**(n-l),
binomials (as factorials) and products over loops all have one normal form.

Two formulas that differ as normal forms are only called different when an identity test
finds values of their atoms on which they differ (random interpretation of the formulas)."""
import hashlib
import math
from fractions import Fraction


class Skip(Exception):
    """The assignment is outside the domain of a formula."""


_SK = {}


def skey(x):
    try:
        return _SK[x]
    except KeyError:
        pass
    if isinstance(x, Poly):
        r = "P[" + "+".join("%s*%s" % (c, ".".join(skey(a) + "^" + skey(e) for a, e in m))
                            for m, c in sorted(x.t.items(), key=lambda z: skey(z[0]))) + "]"
    elif isinstance(x, tuple):
        r = "(" + ",".join(skey(y) for y in x) + ")"
    else:
        r = repr(x)
    _SK[x] = r
    return r


class Poly:
    __slots__ = ("t", "_h", "_w")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._w = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), -1)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        for m in self.t:
            for a, e in m:
                yield a
                if isinstance(e, Poly):
                    yield from e.atoms()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        if x in d:
            s = expo(P(d[x]) + P(e))
            if s == 0:
                del d[x]
            else:
                d[x] = s
        else:
            d[x] = e
    return tuple(sorted(d.items(), key=lambda z: skey(z[0])))


def expo(p):
    """Exponent in canonical form: int/Fraction when constant."""
    if isinstance(p, Poly):
        c = p.const()
        if c is None:
            return p
        p = c
    f = Fraction(p)
    return int(f) if f.denominator == 1 else f


def qdiv(a, b):
    f = Fraction(a) / b
    return int(f) if f.denominator == 1 else f


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        if x.denominator == 1:
            x = int(x)
        return Poly({(): x}) if x else Poly({})
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return A(("fconst", repr(x)))
        return P(Fraction(repr(x)))
    if isinstance(x, tuple):
        return A(x)
    raise TypeError(x)


def A(atom):
    return Poly({((atom, 1),): 1})


def sym(name, ty="int"):
    return A(("sym", name, ty))


def power(p, e):
    p, e = P(p), expo(P(e))
    if e == 0:
        return P(1)
    if e == 1:
        return p
    if not p.t:
        if isinstance(e, int) and e > 0:
            return P(0)
        return A(("pow0", P(e)))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P(1)
        if c != 1:
            if isinstance(e, int):
                r = P(Fraction(c) ** e)
            else:
                r = Poly({((("c", c), e),): 1})
        d = tuple(sorted(((a, expo(P(x) * P(e))) for a, x in m), key=lambda z: skey(z[0])))
        return r * Poly({d: 1})
    if isinstance(e, int) and 0 < e <= 4:
        r = p
        for _ in range(e - 1):
            r = r * p
        return r
    # group with content taken out, sign fixed by the first monomial
    lead = sorted(p.t, key=skey)[0]
    c = p.t[lead]
    if c != 1 and isinstance(e, int):
        q = Poly({m: qdiv(v, c) for m, v in p.t.items()})
        return P(Fraction(c) ** e) * Poly({((("grp", q), e),): 1})
    return Poly({((("grp", p), e),): 1})


def fact(p):
    p = P(p)
    c = p.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 50:
        return P(math.factorial(int(c)))
    return A(("fact", p))


def binom(n, k):
    n, k = P(n), P(k)
    kc = k.const()
    if kc == 0 or (n - k).const() == 0:
        return P(1)
    if kc == 1 or (n - k).const() == 1:
        return n
    return fact(n) / (fact(k) * fact(n - k))


def floordiv(a, b):
    a, b = P(a), P(b)
    ac, bc = a.const(), b.const()
    if ac is not None and bc not in (None, 0):
        return P(ac // bc)
    if bc == 1 and is_int(a):
        return a
    if bc not in (None, 0):
        # exact integer multiples
        q = a * P(Fraction(1) / bc)
        if all(c.denominator == 1 for c in q.t.values()) and is_int(a):
            return q
    else:
        # a = b*q exactly
        q = a / b
        if is_int(q) and all(not any(isinstance(e, int) and e < 0 for _, e in m) for m in q.t):
            return q
    # pull out multiples of b:  (q*b + r)//b = q + r//b
    whole = P(0)
    rest = P(0)
    for m, c in a.t.items():
        q = Poly({m: c}) / b
        if len(q.t) == 1:
            (qm, qc), = q.t.items()
            if qc.denominator == 1 and all(isinstance(e, int) and e > 0 for _, e in qm) and is_int(q):
                whole = whole + q
                continue
        rest = rest + Poly({m: c})
    if whole.t:
        return whole + floordiv(rest, b)
    return A(("floordiv", a, b))


def mod(a, b):
    a, b = P(a), P(b)
    return a - b * floordiv(a, b)


def pmax(*xs):
    return _mm("max", xs)


def pmin(*xs):
    return _mm("min", xs)


def pabs(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(abs(c))
    if len(p.t) == 1:
        (mo, c), = p.t.items()
        if len(mo) == 1 and mo[0][0][0] == "abs" and c > 0:
            return p
    return A(("abs", p, "num"))


def _mm(tag, xs):
    s = []
    for x in xs:
        x = P(x)
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == tag:
                s.extend(m[0][0][1:])
                continue
        s.append(x)
    out = []
    for x in s:
        keep = True
        for i, y in enumerate(out):
            d = (x - y).const()
            if d is not None:
                if (d > 0) == (tag == "max"):
                    out[i] = x
                keep = False
                break
        if keep:
            out.append(x)
    out = sorted(set(out), key=skey)
    if len(out) == 1:
        return out[0]
    return A((tag,) + tuple(out))


# ---------------------------------------------------------------- structure

INT_TAGS = {"len", "it", "brk", "fact", "floordiv", "T", "bcount", "trip", "cnt", "rngi", "anyit", "anyix", "ix", "bv", "ind", "ssorted"}


def is_int(p):
    """Every atom integer valued, integer coefficients (conservative)."""
    for m, c in P(p).t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                return False
            if not int_atom(a):
                return False
    return True


def int_atom(a):
    if a[0] in INT_TAGS:
        return True
    if a[0] == "sum":
        return int_seq(a[1])
    if a[0] in ("sym", "phi") and a[-1] == "int":
        return True
    if a[0] in ("item", "attr", "rngi", "call", "param", "val", "int", "enum", "indexof") and a[-1] == "int":
        return True
    if a[0] in ("max", "min"):
        return all(is_int(x) for x in a[1:])
    if a[0] in ("Sum",):
        return is_int(a[2])
    if a[0] == "loopv" and a[-1] == "int":
        return True
    return False


def int_seq(s):
    """Sequence term with integer elements (as far as known; states by default)."""
    i = SEQINFO.get(s)
    if i is not None:
        return i.get("ty") == "int"
    if isinstance(s, tuple) and s:
        if s[0] in ("upd", "sorted", "rev"):
            return int_seq(s[1])
        if s[0] == "perm":
            return int_seq(s[2])
        if s[0] == "lv":
            return s[2] == "int"
        if s[0] == "seq":
            return all(num_term(g[1]) and is_int(P(g[1])) for g in s[1:])
        if s[0] in ("param", "attr", "item", "KEY", "phi"):
            return not any(isinstance(x, str) and ("matrix" in x or "weight" in x or "probab" in x) for x in s)
    return False


_WALK = {}       # id -> (term, its distinct sub-terms): keeps the term alive, so that ids stay valid


def _collect(x):
    """Sub-terms of x (tuples), each once."""
    if isinstance(x, Poly):
        w = x._w
        if w is not None:
            return w
    else:
        c = _WALK.get(id(x))
        if c is not None:
            return c[1]
    seen, out = set(), []
    if isinstance(x, tuple) and x:
        seen.add(id(x))
        out.append(x)
    if isinstance(x, Poly):
        kids = []
        for m in x.t:
            for a, e in m:
                kids.append(a)
                if isinstance(e, Poly):
                    kids.append(e)
    else:
        kids = x
    for y in kids:
        if isinstance(y, (tuple, Poly, frozenset)):
            for z in _collect(y):
                i = id(z)
                if i not in seen:
                    seen.add(i)
                    out.append(z)
    if isinstance(x, Poly):
        x._w = out
    else:
        _WALK[id(x)] = (x, out)
    return out


def walk(x):
    """All atoms/tuples inside a term or poly."""
    return _collect(x) if isinstance(x, (tuple, Poly, frozenset)) else ()


_HEADS = {}


def heads(x):
    """Sub-terms of x by their head symbol."""
    k = id(x)
    c = _HEADS.get(k)
    if c is not None:
        return c[1]
    d = {}
    for a in _collect(x):
        h = a[0]
        if isinstance(h, str):
            d.setdefault(h, []).append(a)
    _HEADS[k] = (x, d)
    return d


def mentions_key(x, m):
    if len(m) == 1:
        k, = m
        return any(a == k for a in heads(x).get(k[0], ()))
    d = None
    for h in {k[0] for k in m}:
        if not isinstance(h, str):
            return any(a in m for a in _collect(x))
        if d is None:
            d = heads(x)
        if any(a in m for a in d.get(h, ())):
            return True
    return False


def mentions(x, pred):
    return any(pred(a) for a in walk(x))


_SUBST_CACHE = {}


def subst(x, m):
    """Replace atoms/terms (keys of m) by their values, renormalising."""
    if not m:
        return x
    if isinstance(x, Poly):
        if not mentions_key(x, m):
            return x
        r = P(0)
        for mo, c in x.t.items():
            t = P(c)
            for a, e in mo:
                t = t * power(subst_atom(a, m), subst(e, m) if isinstance(e, Poly) else e)
            r = r + t
        return r
    if isinstance(x, tuple):
        r = subst_term(x, m)
        return r
    if isinstance(x, frozenset):
        return frozenset(subst(y, m) for y in x)
    return x


def subst_atom(a, m):
    if a in m:
        return P(m[a])
    if not mentions_key(a, m):
        return A(a)
    return rebuild(tuple(subst(y, m) if isinstance(y, (tuple, Poly, frozenset)) else y for y in a))


def subst_term(a, m):
    if a in m:
        v = m[a]
        return as_term(v)
    if not mentions_key(a, m):
        return a
    n = tuple(subst(y, m) if isinstance(y, (tuple, Poly, frozenset)) else y for y in a)
    if n and isinstance(n[0], str) and n[0] in REBUILD:
        return as_term(rebuild(n))
    return n


def ite(c, a, b, ty):
    """a where the condition c holds, b elsewhere."""
    a, b = P(a), P(b)
    return a if a == b else A(("ite", c, a, b, ty))


def as_term(v):
    """Poly that is a single atom -> the atom; otherwise the Poly itself (usable in tuples)."""
    if isinstance(v, Poly) and len(v.t) == 1:
        (mo, c), = v.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            return mo[0][0]
    return v


REBUILD = {"grp", "fact", "floordiv", "max", "min", "Sum", "Prod", "len", "sum", "item", "c", "abs"}


def rebuild(a):
    t = a[0]
    if t == "grp":
        return P(a[1])
    if t == "fact":
        return fact(a[1])
    if t == "floordiv":
        return floordiv(a[1], a[2])
    if t == "max":
        return pmax(*a[1:])
    if t == "min":
        return pmin(*a[1:])
    if t == "Sum":
        return Sum_(a[1], a[2], a[3])
    if t == "Prod":
        return Prod_(a[1], a[2], a[3])
    if t == "len":
        return seq_len(a[1])
    if t == "sum":
        return seq_sum(a[1])
    if t == "item":
        return item(a[1], a[2], a[3])
    if t == "abs":
        return pabs(a[1])
    return A(a)


# sequence terms whose length/sum/element type is known
SEQINFO = {}     # term -> dict(len=Poly, sum=Poly|None, ty=str, lb=int|None)
BOUNDS = {}      # atom -> (lo Poly | None, hi Poly | None)

SQUARE = ("expand", "qft", "phases", "eye", "diag")


def seq_len(s):
    s = as_term(s)
    i = SEQINFO.get(s)
    if i and i.get("len") is not None:
        return i["len"]
    t = s[0] if isinstance(s, tuple) and s else None
    if t == "seq":
        r = P(0)
        for g in s[1:]:
            r = r + g[0]
        return r
    if t in ("upd", "matmul", "cols", "ewt", "conjm", "asmat", "zeros_like"):
        return seq_len(s[1])
    if t in ("perm", "scaled"):
        return seq_len(s[2])
    if t in ("sorted", "rev", "diag", "nonneg"):
        return seq_len(s[1])
    if t == "lv":
        return s[3]
    if t == "alt":
        ls = {seq_len(x) for x in s[1:]}
        if len(ls) == 1:
            return ls.pop()
    if t == "expand":
        return seq_len(s[1]) * 2
    if t == "qft":
        return s[2]
    if t == "phases":
        return s[3]
    if t == "eye":
        return s[1]
    if t == "Tr":
        return seq_len(("item", s[1], P(0), "seq"))
    if t == "item" and s[3] == "seq":
        m = s[1]
        if isinstance(m, tuple) and m:
            if m[0] in SQUARE:
                return seq_len(m)
            if m[0] == "matmul":
                return seq_len(("item", m[-1], P(0), "seq"))
            if m[0] in ("asmat", "conjm", "ewt"):
                return seq_len(("item", m[1], P(0), "seq"))
            if m[0] == "cols":
                return seq_len(m[2])
            if m[0] == "Tr":
                return seq_len(m[1])
        if m is not None and RECT(m) and s[2] != P(0):
            return A(("len", ("item", m, P(0), "seq")))
    return A(("len", s))


def RECT(m):
    """Matrix valued terms: all rows have the length of the first."""
    return isinstance(m, tuple) and bool(m) and any(isinstance(x, str) and "matrix" in x for x in m)


def seq_sum(s):
    s = as_term(s)
    i = SEQINFO.get(s)
    if i and i.get("sum") is not None:
        return i["sum"]
    t = s[0] if isinstance(s, tuple) and s else None
    if t == "seq":
        r = P(0)
        for g in s[1:]:
            if not num_term(g[1]):
                return A(("sum", s))
            r = r + Sum_(g[0], P(g[1]), g[2])
        return r
    if t == "upd":
        return seq_sum(s[1]) - item(s[1], s[2], s[4]) + P(s[3])
    if t == "perm":
        return seq_sum(s[2])
    if t in ("sorted", "rev"):
        return seq_sum(s[1])
    if t == "lv" and s[4] is not None:
        return s[4]
    if t == "alt":
        ls = {seq_sum(x) for x in s[1:]}
        if len(ls) == 1:
            return ls.pop()
    return A(("sum", s))


NONNUM = {"seq", "cst", "obj", "dict", "fn", "cls", "ext", "enum", "lv", "upd", "perm", "matmul", "alt"}


def num_term(b):
    if isinstance(b, Poly):
        return True
    return isinstance(b, tuple) and bool(b) and b[0] not in NONNUM and b[-1] not in ("seq", "any", "obj")


def item(s, i, ty):
    s, i = as_term(s), P(i)
    t = s[0] if isinstance(s, tuple) and s else None
    if t == "seq":
        off = P(0)
        for g in s[1:]:
            k = (i - off).const()
            n = g[0].const()
            if len(s) == 2:
                r = subst(g[1], {g[2]: i - off}) if isinstance(g[1], (tuple, Poly)) else g[1]
                if num_term(r):
                    return P(r)
                break
            if k is None or n is None:
                break
            if 0 <= k < n:
                r = subst(g[1], {g[2]: P(k)})
                if num_term(r):
                    return P(r)
                break
            off = off + n
    elif t == "upd":
        d = i - s[2]
        if not d.t:
            return P(s[3])
        if d.const() is not None and (i.const() is None or i.const() >= 0):
            return item(s[1], i, ty)
    return A(("item", s, i, ty))


def new_bv(*bodies):
    lv = 0
    for b in bodies:
        for a in walk(b):
            if a and a[0] == "bv":
                lv = max(lv, a[1])
    return ("bv", lv + 1)


def Sum(n, body, var):
    """sum of body over var (an atom) = 0 .. n-1"""
    bv = new_bv(body, n)
    return Sum_(P(n), subst(P(body), {var: A(bv)}), bv)


def Sum_(n, body, bv):
    n, body = P(n), P(body)
    if not n.t:
        return P(0)
    out = P(0)
    inner = P(0)
    for mo, c in body.t.items():
        dep, ind = [], []
        for a, e in mo:
            (dep if a == bv or mentions(a, lambda z: z == bv) or (isinstance(e, Poly) and mentions(e, lambda z: z == bv))
             else ind).append((a, e))
        indp = Poly({tuple(ind): c})
        if not dep:
            out = out + indp * n
            continue
        depp = Poly({tuple(dep): 1})
        if tuple(dep) == ((bv, 1),):
            out = out + indp * n * (n - 1) * P(Fraction(1, 2))
            continue
        # sum of all items of a sequence
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0][0] == "item" and dep[0][0][2] == A(bv) and \
                not mentions(dep[0][0][1], lambda z: z == bv) and \
                seq_len(dep[0][0][1]) == n:
            out = out + indp * seq_sum(dep[0][0][1])
            continue
        nc = n.const()
        if nc is not None and nc.denominator == 1 and 0 < nc <= 3:
            for k in range(int(nc)):
                out = out + indp * subst(depp, {bv: P(k)})
            continue
        nb = norm_bv(depp, bv, n)
        out = out + indp * A(("Sum", n, nb[0], nb[1]))
    return out + inner


def norm_bv(body, bv, n):
    """Lowest free bound-variable name."""
    used = {a[1] for a in walk(body) if a[0] == "bv" and a != bv} | {a[1] for a in walk(n) if a[0] == "bv"}
    k = 1
    while k in used:
        k += 1
    nb = ("bv", k)
    return (subst(body, {bv: A(nb)}) if nb != bv else body), nb


def Prod(n, body, var):
    bv = new_bv(body, n)
    return Prod_(P(n), subst(P(body), {var: A(bv)}), bv)


def Prod_(n, body, bv):
    n, body = P(n), P(body)
    if not n.t:
        return P(1)
    if not mentions(body, lambda z: z == bv):
        return power(body, n)
    nc = n.const()
    if nc is not None and nc.denominator == 1 and 0 < nc <= 3:
        r = P(1)
        for k in range(int(nc)):
            r = r * subst(body, {bv: P(k)})
        return r
    if len(body.t) == 1:
        (mo, c), = body.t.items()
        r = power(P(c), n)
        for a, e in mo:
            one = Poly({((a, 1),): 1})
            if isinstance(e, Poly) and mentions(e, lambda z: z == bv):
                if not mentions(a, lambda z: z == bv):
                    r = r * power(one, Sum_(n, e, bv))
                else:
                    nb = norm_bv(Poly({((a, e),): 1}), bv, n)
                    r = r * A(("Prod", n, nb[0], nb[1]))
            elif mentions(a, lambda z: z == bv):
                nb = norm_bv(one, bv, n)
                r = r * power(A(("Prod", n, nb[0], nb[1])), e)
            else:
                r = r * power(power(one, e), n)
        return r
    nb = norm_bv(body, bv, n)
    return A(("Prod", n, nb[0], nb[1]))


# ---------------------------------------------------------------- identity testing

IMPRECISE = {"havoc", "loopv", "T", "phi", "bcount", "lv", "alt", "KEY", "dictv", "rec", "call", "gencall"}


def imprecise(x):
    return mentions(x, lambda a: a and a[0] in IMPRECISE)


class Model:
    """One interpretation of the atoms."""

    def __init__(self, seed, over=None, maxlen=3):
        self.seed = seed
        self.over = over or {}
        self.maxlen = maxlen
        self.cache = {}

    def h(self, key, n):
        d = hashlib.blake2b(("%s|%s" % (self.seed, key)).encode(), digest_size=8).digest()
        return int.from_bytes(d, "big") % n

    def val(self, p, env=None):
        p = P(p)
        r = Fraction(0)
        for mo, c in p.t.items():
            v = Fraction(c)
            for a, e in mo:
                b = self.atom(a, env or {})
                ev = self.val(e, env) if isinstance(e, Poly) else Fraction(e)
                v = v * self.pw(b, ev)
            r += v
        return r

    def pw(self, b, e):
        if e.denominator == 1:
            e = int(e)
            if abs(e) > 400:
                raise Skip
            if b == 0:
                if e < 0:
                    raise Skip
                return Fraction(1) if e == 0 else Fraction(0)
            return Fraction(b) ** e
        if b < 0:
            raise Skip
        # uninterpreted root, but multiplicative in the exponent: b**(p/q) for perfect powers only
        x = round(float(b) ** float(e), 12)
        return Fraction(x).limit_denominator(10 ** 9)

    def key(self, x, env):
        if isinstance(x, Poly):
            return str(self.val(x, env))
        if isinstance(x, tuple):
            if x in self.over:
                return "ov" + str(self.over[x])
            if x and x[0] in VALUE_TAGS:
                return str(self.atom(x, env))
            if x and x[0] == "seq" and all(isinstance(g, tuple) and len(g) == 3 for g in x[1:]):
                out = []
                for g in x[1:]:
                    n = self.val(g[0], env)
                    if n.denominator != 1 or n > 40:
                        raise Skip
                    out += [self.key(g[1], {**env, g[2]: Fraction(i)}) for i in range(max(0, int(n)))]
                return "seq(" + ",".join(out) + ")"
            return "(" + ",".join(self.key(y, env) for y in x) + ")"
        if isinstance(x, frozenset):
            return "{" + ",".join(sorted(self.key(y, env) for y in x)) + "}"
        return str(x)

    def length(self, s, env):
        i = SEQINFO.get(s)
        if i and i.get("len") is not None:
            v = self.val(i["len"], env)
            return v
        n = seq_len(s)
        if n != A(("len", s)):
            return self.val(n, env)
        if ("len", s) in self.over:
            return Fraction(self.over[("len", s)])
        return Fraction(1 + self.h("len" + self.key(s, env), self.maxlen))

    def atom(self, a, env):
        if a in env:
            return env[a]
        if a in self.over:
            return Fraction(self.over[a])
        t = a[0]
        if t == "bv":
            raise Skip
        if t in ("rngi", "bcount", "it", "brk", "anyit", "anyix", "ssorted") or a in BOUNDS:
            lo, hi = atom_bounds(a)
            lo = self.val(lo, env) if lo is not None else Fraction(0)
            hi = self.val(hi, env) if hi is not None else lo + 5
            if hi < lo:
                raise Skip
            if a[-1] == "float":
                return lo + (hi - lo) * Fraction(1 + self.h(self.key_atom(a, env), 97), 99)
            return lo + self.h(self.key_atom(a, env), int(hi - lo) + 1)
        if t == "grp":
            return self.val(a[1], env)
        if t == "c":
            return Fraction(a[1])
        if t == "pow0":
            e = self.val(a[1], env)
            return Fraction(1) if e == 0 else Fraction(0)
        if t == "fact":
            v = self.val(a[1], env)
            if v.denominator != 1 or v < 0 or v > 60:
                raise Skip
            return Fraction(math.factorial(int(v)))
        if t == "floordiv":
            b = self.val(a[2], env)
            if b == 0:
                raise Skip
            return Fraction(self.val(a[1], env) // b)
        if t == "max":
            return max(self.val(x, env) for x in a[1:])
        if t == "min":
            return min(self.val(x, env) for x in a[1:])
        if t in ("maxel", "minel"):
            if len(a) > 3:
                raise Skip
            vs = self.elements(a[1], env, a[-1])
            if not vs:
                raise Skip
            return (max if t == "maxel" else min)(vs)
        if t in ("Sum", "Prod"):
            n = self.val(a[1], env)
            if n.denominator != 1 or n > 40:
                raise Skip
            r = Fraction(0 if t == "Sum" else 1)
            for i in range(max(0, int(n))):
                v = self.val(a[2], dict(env, **{}) | {a[3]: Fraction(i)})
                r = r + v if t == "Sum" else r * v
            return r
        if t == "len":
            return self.length(a[1], env)
        if t == "sum":
            n = int(self.length(a[1], env))
            return sum((self.item(a[1], Fraction(i), env) for i in range(n)), Fraction(0))
        if t == "item":
            i = self.val(a[2], env)
            if i < 0:
                i += self.length(a[1], env)
            if i < 0 or (a[3] == "int" and i.denominator != 1):
                raise Skip
            return self.item(a[1], i, env, a[3])
        if t == "ite":
            c = eval_cond(a[1], self, env)
            if c is None:
                raise Skip
            return self.val(a[2] if c else a[3], env)
        k = self.key_atom(a, env)
        ty = a[-1] if isinstance(a[-1], str) else ""
        if t == "abs":
            return abs(self.val(a[1], env))
        if ty == "float":
            return Fraction(1 + self.h(k, 97), 99)
        if ty == "bool":
            return Fraction(self.h(k, 2))
        if ty == "int":
            if t in ("param", "attr") and any(w in str(a[1:]) for w in ("samples", "threads", "approximated", "hierarchy")):
                return Fraction(self.h(k, 12) - 3)
            return Fraction(self.h(k, 6))
        return Fraction(1 + self.h(k, 97), 1 + self.h("d" + k, 13))

    def item(self, s, i, env, ty="int"):
        t = s[0] if isinstance(s, tuple) and s else None
        if t == "seq":
            off = Fraction(0)
            for g in s[1:]:
                n = self.val(g[0], env)
                if off <= i < off + n:
                    if not num_term(g[1]):
                        break
                    return self.val(P(g[1]), {**env, g[2]: i - off})
                off += n
            else:
                raise Skip
        elif t == "upd":
            if self.val(s[2], env) == i:
                return self.val(P(s[3]), env)
            return self.item(s[1], i, env, ty)
        elif t == "sorted" and len(s) == 2:
            vs = sorted(self.elements(s[1], env, ty))
            if i.denominator != 1 or not 0 <= i < len(vs):
                raise Skip
            return vs[int(i)]
        elif t in ("sorted", "set", "setcomp", "unique"):
            raise Skip
        if ("item", s, P(i), ty) in self.over:
            return Fraction(self.over[("item", s, P(i), ty)])
        k = "item" + self.key(s, env) + "@" + str(i)
        if ty == "float":
            return Fraction(1 + self.h(k, 97), 99)
        return Fraction(self.h(k, 3))

    def elements(self, s, env, ty):
        n = self.length(s, env)
        if n.denominator != 1 or not 0 <= n <= 40:
            raise Skip
        return [self.item(s, Fraction(i), env, ty) for i in range(int(n))]

    def key_atom(self, a, env):
        return a[0] + "(" + ",".join(self.key(y, env) for y in a[1:]) + ")"


VALUE_TAGS = {"grp", "ite", "c", "fact", "floordiv", "max", "min", "Sum", "Prod", "len", "sum", "item", "bv", "abs"}


def atom_bounds(a):
    if a in BOUNDS:
        return BOUNDS[a]
    if a[0] == "rngi":
        return (a[5], a[6])
    if a[0] in ("bcount", "ssorted"):
        return (P(0), a[3])
    if a[0] in ("it", "brk"):
        return (P(0), a[2] - 1 if a[2] is not None else None)
    if a[0] == "anyit":
        return (P(0), a[4] - 1 if len(a) > 4 and a[4] is not None else None)
    if a[0] == "anyix":
        return (P(0), a[4] - 1)
    return (None, None)


def eval_cond(c, model, env=None):
    """Truth of a canonical condition under a model; None when it is not arithmetic."""
    t = c[0]
    if t == "lt":
        return model.val(c[1], env) < 0
    if t == "le":
        return model.val(c[1], env) <= 0
    if t == "eq":
        return model.val(c[1], env) == 0
    return None


def facts_hold(facts, model):
    for c, v in facts:
        r = eval_cond(c, model)
        if r is not None and r != v:
            return False
    return True


def same(a, b, facts=(), tries=2500, want=14, over=None):
    """True: equal.  False: a precise difference was found.  None: undecided."""
    a, b = P(a), P(b)
    if a == b:
        return True
    d = a - b
    if d.const() is not None and d.const() != 0 and not imprecise(d):
        # constant difference: still has to be reachable
        pass
    got = 0
    for s in range(tries):
        m = Model(s, over(s) if callable(over) else over)
        try:
            if facts and not facts_hold(facts, m):
                continue
            v = m.val(d)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        got += 1
        if v != 0 and abs(v) > Fraction(1, 10 ** 7):
            if imprecise(d):
                return None
            return False
        if got >= want:
            return True
    if got >= 3:
        return True
    return None


# ---------------------------------------------------------------- printing

def show(x, depth=0):
    if depth > 9:
        return "..."
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for mo, c in sorted(x.t.items(), key=lambda z: skey(z[0])):
            s = "*".join(show(a, depth + 1) + ("" if e == 1 else "^(" + show(e, depth + 1) + ")") for a, e in mo)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")
    if isinstance(x, tuple):
        if not x:
            return "()"
        t = x[0]
        if t == "sym":
            return str(x[1])
        if t == "item":
            return "%s[%s]" % (show(x[1], depth + 1), show(x[2], depth + 1))
        if t == "attr":
            return "%s.%s" % (show(x[1], depth + 1), x[2])
        if t == "bv":
            return "i%d" % x[1]
        if t in ("Sum", "Prod"):
            return "%s_{%s<%s}(%s)" % (t, show(x[3]), show(x[1], depth + 1), show(x[2], depth + 1))
        if t == "grp":
            return "(" + show(x[1], depth + 1) + ")"
        if t in ("it", "brk"):
            return "%s%s" % (t, x[1])
        return "%s(%s)" % (t, ", ".join(show(y, depth + 1) for y in x[1:]))
    return str(x)
