"""Value of a derived formula in one interpretation of its base symbols, in exact (Gaussian rational) arithmetic.

The analysis derives what a function returns as a closed formula over its parameters (sequences, sums, block matrices,
singular values, ...).  Two formulas are compared by interpreting both in the same interpretations: nothing of the
analysed program is executed.  A symbol without a meaning here makes the comparison undecided."""
import math
from fractions import Fraction

from .law import Unmodelled
from .terms import *


ZERO = Fraction(0)


class GC:
    """Gaussian rational."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re = re if type(re) is Fraction else Fraction(re)
        self.im = im if type(im) is Fraction else Fraction(im) if im else ZERO

    def __add__(self, o):
        o = gc(o)
        return GC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return GC(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-gc(o))

    def __rsub__(self, o):
        return gc(o) - self

    def __mul__(self, o):
        o = gc(o)
        if not self.im and not o.im:
            return GC(self.re * o.re, ZERO)
        return GC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def inv(self):
        if not self.im and self.re:
            return GC(1 / self.re, ZERO)
        d = self.re * self.re + self.im * self.im
        if d == 0:
            raise Skip
        return GC(self.re / d, -self.im / d)

    def __truediv__(self, o):
        return self * gc(o).inv()

    def conj(self):
        return GC(self.re, -self.im)

    def norm2(self):
        return self.re * self.re + self.im * self.im

    def __eq__(self, o):
        if not isinstance(o, (GC, int, Fraction)):
            return NotImplemented
        o = gc(o)
        return self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return str(self.re) if not self.im else "(%s%+gi)" % (self.re, float(self.im))

    def real(self):
        if self.im:
            raise Unmodelled("order of complex numbers")
        return self.re


def gc(x):
    return x if isinstance(x, GC) else GC(x)


def root(x):
    """Exact square root of a rational (of its absolute value times i, when it is negative)."""
    x = gc(x)
    if x.im:
        raise Unmodelled("root of a complex number")
    r = x.re
    a = abs(r)
    n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
    if n * n != a.numerator or d * d != a.denominator:
        raise Unmodelled("irrational root")
    v = Fraction(n, d)
    return GC(v) if r >= 0 else GC(0, v)


def is_num(v):
    return isinstance(v, (GC, Fraction, int))


def depth(v):
    return 0 if not isinstance(v, list) else 1 + (depth(v[0]) if v else 0)


def transpose(m):
    return [list(r) for r in zip(*m)]


def product(a, b):
    if depth(a) == 2 and depth(b) == 2:
        if len(a[0]) != len(b):
            raise Clash("product of %dx%d and %dx%d" % (len(a), len(a[0]), len(b), len(b[0])))
        t = transpose(b)
        return [[dot(r, c) for c in t] for r in a]
    if depth(a) == 2:
        return [dot(r, b) for r in a]
    if depth(b) == 2:
        return [dot(a, c) for c in transpose(b)]
    return dot(a, b)


def dot(a, b):
    if len(a) != len(b):
        raise Clash("lengths")
    return sum((x * y for x, y in zip(a, b)), GC(0))


class Clash(Exception):
    """Shapes that do not fit together."""


def whole(v):
    v = gc(v)
    if v.im or v.re.denominator != 1:
        raise Skip
    return int(v.re)


class Ground:
    def __init__(self, I, base, svd=(), funs=None):
        self.I = I
        self.base = base            # term -> number | (nested) list
        self.svd = svd              # [(matrix, v, s, u)]
        self.sure = False           # every condition of the path was evaluated
        self.funs = funs or {}      # tag -> function(self, term, env) -> value

    # ---------------------------------------------------------------- numbers
    def num(self, p, env):
        r = GC(0)
        for mo, c in P(p).t.items():
            v = GC(c)
            if any(a[0] == "fact" and not isinstance(e, Poly) and e < 0 and self.num(a[1], env).real() < 0 for a, e in mo):
                continue            # binomial coefficient outside its range
            for a, e in mo:
                b = self.ev(a, env)
                if not is_num(b):
                    raise Unmodelled("number expected")
                ex = self.num(e, env).real() if isinstance(e, Poly) else Fraction(e)
                v = v * self.pw(gc(b), ex)
            r = r + v
        return r

    def pw(self, b, e):
        if e.denominator == 2:
            b = root(b)
            e = e * 2
        if e.denominator != 1:
            raise Unmodelled("power")
        e = int(e)
        if abs(e) > 60:
            raise Skip
        if e < 0:
            b = b.inv()
            e = -e
        if e == 1:
            return b
        r = GC(1)
        for _ in range(e):
            r = r * b
        return r

    def int(self, p, env):
        return whole(self.num(p, env))

    # ---------------------------------------------------------------- terms
    def ev(self, x, env=None):
        env = env or {}
        if isinstance(x, Poly):
            return self.num(x, env)
        if isinstance(x, (int, Fraction)):
            return GC(x)
        if not isinstance(x, tuple) or not x:
            raise Unmodelled(str(x)[:40])
        if x in env:
            return env[x]
        if x in self.base:
            return self.base[x]
        t = x[0]
        if t in self.funs:
            return self.funs[t](self, x, env)
        f = getattr(self, "t_" + t, None)
        if f is None:
            raise Unmodelled(t)
        return f(x, env)

    def seq(self, x, env):
        v = self.ev(x, env)
        if not isinstance(v, list):
            raise Unmodelled("sequence expected")
        return v

    def mat(self, x, env):
        v = self.seq(x, env)
        if depth(v) != 2 or len({len(r) for r in v}) != 1:
            raise Unmodelled("matrix expected")
        return v

    def t_seq(self, x, env):
        out = []
        for g in x[1:]:
            if not isinstance(g, tuple) or len(g) != 3:
                raise Unmodelled("seq")
            n = self.int(g[0], env)
            if n > 200:
                raise Skip
            for i in range(n):
                out.append(self.ev(g[1], {**env, g[2]: GC(i)}))
        return out

    def t_item(self, x, env):
        s = self.seq(x[1], env)
        i = self.int(x[2], env)
        if not -len(s) <= i < len(s):
            raise Skip
        return s[i]

    def t_len(self, x, env):
        return GC(len(self.seq(x[1], env)))

    def t_sum(self, x, env):
        s = self.seq(x[1], env)
        if depth(s) != 1 and s:
            raise Unmodelled("sum")
        return sum(s, GC(0))

    def t_Sum(self, x, env):
        return sum((self.num(x[2], {**env, x[3]: GC(i)}) for i in range(self.int(x[1], env))), GC(0))

    def t_Prod(self, x, env):
        r = GC(1)
        for i in range(self.int(x[1], env)):
            r = r * self.num(x[2], {**env, x[3]: GC(i)})
        return r

    def t_grp(self, x, env):
        return self.num(x[1], env)

    def t_ite(self, x, env):
        c = cond(self, x[1], env)
        if c is None:
            raise Unmodelled("condition")
        return self.num(x[2] if c else x[3], env)

    def t_c(self, x, env):
        return GC(x[1])

    def t_I(self, x, env):
        return GC(0, 1)

    def t_pow0(self, x, env):
        return GC(1 if self.num(x[1], env) == 0 else 0)

    def t_fact(self, x, env):
        n = self.int(x[1], env)
        if n < 0 or n > 40:
            raise Skip
        return GC(math.factorial(n))

    def t_floordiv(self, x, env):
        b = self.num(x[2], env).real()
        if b == 0:
            raise Skip
        return GC(self.num(x[1], env).real() // b)

    def t_max(self, x, env):
        return GC(max(self.num(y, env).real() for y in x[1:]))

    def t_min(self, x, env):
        return GC(min(self.num(y, env).real() for y in x[1:]))

    def t_minel(self, x, env):
        if len(x) != 3:
            raise Unmodelled("min")
        return GC(min(gc(y).real() for y in self.seq(x[1], env)))

    def t_maxel(self, x, env):
        if len(x) != 3:
            raise Unmodelled("max")
        return GC(max(gc(y).real() for y in self.seq(x[1], env)))

    def t_cnt(self, x, env):
        v = self.ev(x[2], env)
        return GC(sum(1 for y in self.seq(x[1], env) if y == v))

    def t_abs(self, x, env):
        v = self.num(x[1], env)
        return root(v.norm2())

    def t_conj(self, x, env):
        return self.num(x[1], env).conj()

    def t_round(self, x, env):
        v = self.num(x[1], env)
        if len(x) > 3 or v.im:
            raise Unmodelled("round")
        return GC(round(v.re))

    def t_anyit(self, x, env):
        return self.flat(x, env)[0]

    def t_anyix(self, x, env):
        return self.flat(x, env)[1]

    def loop(self, table, L, name, env, more=()):
        """What was recorded about a loop, with the enclosing iterations it is evaluated in."""
        k = (L, name) + more
        if k in table:
            r = table[k]
            if r is None:
                raise Unmodelled("loop")
            return r, env
        if isinstance(L, tuple) and len(L) == 3:
            for (T, n, *w), r in table.items():
                if n == name and T[1] == L[1] and len(T[2]) == len(L[2]) and r is not None:
                    m = {}
                    for a, b in zip(T[2], L[2]):
                        if a != b:
                            if not isinstance(a, tuple):
                                raise Unmodelled("loop")
                            m[a] = b
                    if tuple(subst(x, m) for x in w) != more:
                        continue
                    return r, {**env, **{a: self.ev(b, env) for a, b in m.items()}}
        raise Unmodelled("loop")

    def t_lv(self, x, env):
        if not (isinstance(x[1], tuple) and len(x[1]) == 3 and isinstance(x[1][0], tuple) and x[1][0][:1] == ("L",)):
            raise Unmodelled("lv")
        (it, k, new, et), env = self.loop(self.I.scattered, x[1][0], x[1][1], env, (P(x[3]),))
        out = list(self.seq(et, env))
        for i in range(self.int(x[1][2], env)):
            e = {**env, it: GC(i)}
            j = self.int(k, e)
            if not -len(out) <= j < len(out):
                raise Clash("position %d of %d entries" % (j, len(out))) if self.sure else Skip
            out[j] = self.num(new, {**e, ("own",): out[j]})
        return out

    def flat(self, x, env):
        if len(x) < 4:
            raise Unmodelled("flat list")
        lay, env = self.loop(self.I.layout, x[1], x[2], env)
        if len(lay[1]) != 1:
            raise Unmodelled("flat list")
        it, (cnt,) = lay
        pos = self.int(x[3], env)
        n = self.int(it[2], env) if it[2] is not None else 60
        for t in range(n):
            c = self.int(cnt, {**env, it: GC(t)})
            if pos < c:
                return GC(t), GC(pos)
            pos -= max(c, 0)
        raise Skip

    # ---------------------------------------------------------------- sequences
    def t_upd(self, x, env):
        s = list(self.seq(x[1], env))
        i = self.int(x[2], env)
        if not -len(s) <= i < len(s):
            raise Skip
        s[i] = self.ev(x[3], env)
        return s

    t_updv = t_upd

    def t_updw(self, x, env):
        s = list(self.seq(x[1], env))
        lo, n = self.int(x[2], env), self.int(x[3], env)
        v = self.ev(x[4], env)
        v = v if isinstance(v, list) else [v] * n
        if len(v) != n or lo < 0 or lo + n > len(s):
            raise Unmodelled("slice store")
        return s[:lo] + v + s[lo + n:]

    def t_sorted(self, x, env):
        if len(x) > 2:
            raise Unmodelled("sorted")
        return [GC(v) for v in sorted(gc(y).real() for y in self.seq(x[1], env))]

    def t_set(self, x, env):
        out = []
        for v in self.seq(x[1], env):
            if v not in out:
                out.append(v)
        return out

    def t_rev(self, x, env):
        return self.seq(x[1], env)[::-1]

    def t_nonneg(self, x, env):
        return self.seq(x[1], env)

    # ---------------------------------------------------------------- matrices
    def t_matmul(self, x, env):
        r = self.ev(x[1], env)
        for y in x[2:]:
            v = self.ev(y, env)
            if not isinstance(r, list) or not isinstance(v, list):
                raise Unmodelled("matmul")
            r = product(r, v)
        return r

    def find_svd(self, x, env, k):
        m = self.seq(x[1], env)
        for w in self.svd:
            if w[0] == m:
                return w[k]
        raise Unmodelled("svd")

    def t_svd_u(self, x, env):
        return self.find_svd(x, env, 1)

    def t_svd_s(self, x, env):
        return self.find_svd(x, env, 2)

    def t_svd_v(self, x, env):
        return self.find_svd(x, env, 3)

    def t_diag(self, x, env):
        s = self.seq(x[1], env)
        if depth(s) != 1:
            raise Unmodelled("diag")
        return [[s[i] if i == j else GC(0) for j in range(len(s))] for i in range(len(s))]

    def t_diagof(self, x, env):
        m = self.mat(x[1], env)
        return [m[i][i] for i in range(len(m))]

    def t_eye(self, x, env):
        n = self.int(x[1], env)
        return [[GC(1 if i == j else 0) for j in range(n)] for i in range(n)]

    def t_zeros_like(self, x, env):
        v = self.seq(x[1], env)
        z = {"zeros_like": 0, "ones_like": 1}.get(x[2] if len(x) > 2 else "zeros_like")
        if z is None:
            raise Unmodelled("like")
        f = lambda y: [f(k) for k in y] if isinstance(y, list) else GC(z)
        return f(v)

    def t_Tr(self, x, env):
        return transpose(self.mat(x[1], env))

    def t_conjm(self, x, env):
        f = lambda y: [f(k) for k in y] if isinstance(y, list) else gc(y).conj()
        return f(self.seq(x[1], env))

    def t_asmat(self, x, env):
        return self.mat(x[1], env)

    def t_block(self, x, env):
        b = self.seq(x[1], env)
        if depth(b) != 4:
            raise Unmodelled("block")
        out = []
        for row in b:
            if len({len(m) for m in row}) != 1:
                raise Clash("blocks of different heights")
            out += [sum(rs, []) for rs in zip(*row)]
        if len({len(r) for r in out}) != 1:
            raise Clash("blocks of different widths")
        return out

    def window(self, n, lo, hi, env):
        lo = 0 if lo is None else self.int(lo, env)
        hi = n if hi is None else self.int(hi, env)
        return slice(lo, hi)

    def t_submat(self, x, env):
        m = self.mat(x[1], env)
        return [r[self.window(len(r), x[4], x[5], env)] for r in m[self.window(len(m), x[2], x[3], env)]]

    def t_cols(self, x, env):
        m = self.mat(x[1], env)
        ix = [whole(i) for i in self.seq(x[2], env)]
        if any(not 0 <= i < len(m[0]) for i in ix):
            raise Skip
        return [[r[i] for i in ix] for r in m]

    def t_rows(self, x, env):
        m = self.mat(x[1], env)
        ix = [whole(i) for i in self.seq(x[2], env)]
        if any(not 0 <= i < len(m) for i in ix):
            raise Skip
        return [list(m[i]) for i in ix]

    def t_updm(self, x, env):
        m = [list(r) for r in self.mat(x[1], env)]
        if len(x[2]) != 2:
            raise Unmodelled("store")
        rng = []
        for k, part in enumerate(x[2]):
            n = len(m) if k == 0 else len(m[0])
            if isinstance(part, tuple) and part and part[0] == "slice":
                rng.append(list(range(n))[self.window(n, part[1], part[2], env)])
            else:
                i = self.int(part, env)
                if not 0 <= i < n:
                    raise Skip
                rng.append([i])
        v = self.ev(x[3], env)
        for a, i in enumerate(rng[0]):
            for b, j in enumerate(rng[1]):
                if not isinstance(v, list):
                    m[i][j] = v
                elif depth(v) == 2 and len(v) == len(rng[0]) and len(v[0]) == len(rng[1]):
                    m[i][j] = v[a][b]
                elif depth(v) == 1 and len(v) == len(rng[1]):
                    m[i][j] = v[b]
                else:
                    raise Unmodelled("store")
        return m

    def t_mul(self, x, env):
        return self.elementwise(x, env, lambda a, b: a * b)

    def t_add(self, x, env):
        return self.elementwise(x, env, lambda a, b: a + b)

    def t_sub(self, x, env):
        return self.elementwise(x, env, lambda a, b: a - b)

    def t_div(self, x, env):
        return self.elementwise(x, env, lambda a, b: a / b)

    def elementwise(self, x, env, f):
        a, b = self.ev(x[1], env), self.ev(x[2], env)

        def go(u, v):
            if is_num(u) and is_num(v):
                return f(gc(u), gc(v))
            if depth(u) == depth(v):
                if len(u) != len(v):
                    raise Unmodelled("broadcast")
                return [go(p, q) for p, q in zip(u, v)]
            if depth(u) > depth(v):
                return [go(p, v) for p in u]
            return [go(u, q) for q in v]
        return go(a, b)


def cond(g, c, env=None):
    """Truth of a condition; None when it is not arithmetic."""
    t = c[0]
    if t in ("lt", "le", "eq", "isclose"):
        v = g.num(c[1], env or {})
        if t in ("eq", "isclose"):
            return v == 0
        v = v.real()
        return v < 0 if t == "lt" else v <= 0
    return None


def consistent(g, facts):
    """The conditions that can be evaluated hold; a condition that cannot be evaluated is left open."""
    g.sure = True
    for c, b in facts.items():
        try:
            r = cond(g, c)
        except (Unmodelled, Clash):
            r = None
        if r is None:
            g.sure = False
        elif r != b:
            return False
    return True
