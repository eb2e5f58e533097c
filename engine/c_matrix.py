"""C18: lossy networks are decomposed without changing them."""
from .ground import *
from .law import Unmodelled
from .common import *

RULES["C18"] = (
    "The matrix returned by prepare_interferometer_matrix_in_expanded_space, the transmissivities extracted from a "
    "matrix, and the network and losses the non-uniform losses strategy works with are derived as formulas over the "
    "singular value decomposition of the given matrix (blocks, diagonals, products, loop summaries). Each formula is "
    "compared with its definition by identity testing in exact arithmetic, over complex matrices of up to three modes "
    "with given decompositions (a perfect and a blocked mode included): the leading block of the expansion is the given "
    "matrix, the columns of the modes of the network are orthonormal, and uniform losses followed by the remaining "
    "network are the given network.")

UTIL = "boson_sampling_utilities"


def unitary(m, k):
    """A complex unitary matrix with rational entries."""
    q = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(5, 13), Fraction(12, 13)), (Fraction(8, 17), Fraction(15, 17))]
    a = [[GC(1 if i == j else 0) for j in range(m)] for i in range(m)]
    n = k
    for i in range(m):
        for j in range(i + 1, m):
            c, s = q[n % 3]
            g = [[GC(1 if x == y else 0) for y in range(m)] for x in range(m)]
            g[i][i], g[i][j], g[j][i], g[j][j] = GC(c), GC(-s), GC(s), GC(c)
            a = product(a, g)
            n += 1
    for i in range(m):
        c, s = q[(i + k) % 3]
        a[i] = [x * GC(c, s if (i + k) % 2 else -s) for x in a[i]]
    return a


SINGULAR = {1: [["4/5"], ["1"], ["0"], ["9999/10001"]],
            2: [["1", "3/5"], ["12/13", "4/5"], ["24/25", "0"], ["999999/1000001", "9999/10001"], ["4/5", "200/10001"]],
            3: [["1", "4/5", "5/13"], ["12/13", "3/5", "3/5"], ["4/5", "3/5", "0"]]}


def worlds(over=False):
    """(m, matrix, v, s, u) with matrix = v diag(s) u."""
    k = 0
    for m in sorted(SINGULAR):
        for s in SINGULAR[m]:
            k += 1
            s = [GC(Fraction(x)) for x in s]
            v, u = unitary(m, k), unitary(m, k + 1)
            d = [[s[i] if i == j else GC(0) for j in range(m)] for i in range(m)]
            yield m, product(product(v, d), u), v, s, u


def near(w, m):
    """The same decomposition with a first singular value slightly above one."""
    k, _, v, s, u = w
    s = [GC(Fraction(1 + Fraction(1, 2 ** 40)))] + s[1:]
    d = [[s[i] if i == j else GC(0) for j in range(k)] for i in range(k)]
    return k, product(product(v, d), u), v, s, u


def gram(cols):
    return [[sum((x.conj() * y for x, y in zip(map(gc, a), map(gc, b))), GC(0)) for b in cols] for a in cols]


def find_fn(prog, name):
    """Analysis of a utility function, with the term of its first argument."""
    for f in module_functions(prog):
        if f.name == name and f.mod.name.endswith(UTIL):
            r = FnRun(prog, f.mod.name, name)
            r.mterm = r.I.term(r.st0, next(iter(r.kw.values())))
            return r
    return None


def judged(rep, rule, where, loc, tests):
    """tests: iterable of True | False | None | (False, detail) outcomes of one rule."""
    seen = 0
    for t in tests:
        if t is True:
            seen += 1
        elif t is None:
            continue
        else:
            rep.bad(rule, where, t[1], loc)
            return
    if seen:
        rep.holds(rule, where, "", loc)
    else:
        rep.dunno(rule, where, "formula not modelled", loc)


def each(f, ws):
    for w in ws:
        try:
            yield f(w)
        except (Skip, Unmodelled, ZeroDivisionError):
            yield None
        except Clash as e:
            yield False, str(e)


def ground(I, t, w, st=None):
    g = Ground(I, {t: w[1]}, [w[1:]])
    if st is not None and not consistent(g, st.facts):
        raise Skip
    return g


def t_c18_expand(prog, rep):
    name = "prepare_interferometer_matrix_in_expanded_space"
    r = find_fn(prog, name)
    if r is None:
        rep.dunno("expansion", name, "no such function")
        return
    rep.engine(r.I)
    where, loc = r.where, r.loc
    I = r.I
    if not r.results:
        rep.dunno("expansion", where, "no result", loc)
    for st, v in r.results:
        if unreliable(st):
            rep.dunno("expansion", where, "", loc)
            continue
        t, m = I.term(st, v), r.mterm

        def value(w):
            x = ground(I, m, w, st).mat(t, {})
            return x

        def shape(w):
            x = value(w)
            if len(x) != 2 * w[0] or len(x[0]) != 2 * w[0]:
                return False, "a network of %d modes is expanded to %dx%d" % (w[0], len(x), len(x[0]))
            return True

        def block(w):
            x = value(w)
            k = w[0]
            if len(x) < k or len(x[0]) < k:
                return None
            if [row[:k] for row in x[:k]] != w[1]:
                return False, "for the singular values %s the leading %dx%d block of the expansion is not the matrix" % (w[3], k, k)
            return True

        def iso(w):
            x = value(w)
            k = w[0]
            if gram(transpose(x)[:k]) != [[GC(1 if i == j else 0) for j in range(k)] for i in range(k)]:
                return False, "for the singular values %s the columns of the expansion that the particles enter are not orthonormal" % (w[3],)
            return True
        judged(rep, "expansion doubles the modes", where, loc, each(shape, worlds()))
        judged(rep, "expansion keeps the network", where, loc, each(block, worlds()))
        judged(rep, "expansion preserves particles", where, loc, each(iso, worlds()))
        rep_above_one(rep, I, st, t, m, where, loc)


def rep_above_one(rep, I, st, t, m, where, loc):
    """With a singular value slightly above one no root of a negative number is taken."""
    def go(w):
        g = Roots(I, {m: w[1]}, [w[1:]])
        if not consistent(g, st.facts):
            raise Skip
        g.mat(t, {})
        if g.negative:
            return False, "for a singular value %s the root of the negative number %s is taken" % (float(w[3][0].re), g.negative)
        return True
    judged(rep, "rounding of singular values is tolerated", where, loc, each(go, [near(w, m) for w in worlds()]))


class Roots(Ground):
    """Roots are not needed exactly; only whether one is taken of a negative number."""
    negative = None

    def pw(self, b, e):
        if e.denominator == 2:
            if gc(b).im == 0 and gc(b).re < 0:
                self.negative = float(gc(b).re)
            return GC(Fraction(1, 3))
        return Ground.pw(self, b, e)


def t_c18_values(prog, rep):
    name = "get_modes_transmissivity_values_from_matrix"
    r = find_fn(prog, name)
    if r is None:
        rep.dunno("transmissivities", name, "no such function")
        return
    rep.engine(r.I)
    I = r.I
    if not r.results:
        rep.dunno("transmissivities", r.where, "no result", r.loc)
    for st, v in r.results:
        if unreliable(st):
            rep.dunno("transmissivities", r.where, "", r.loc)
            continue
        t = I.term(st, v)

        def go(w):
            x = ground(I, r.mterm, w, st).seq(t, {})
            want = sorted((y.re * y.re for y in w[3]))
            if sorted(gc(y).real() for y in x) != want:
                return False, "for the singular values %s the transmissivities are %s" % (w[3], x)
            return True
        judged(rep, "transmissivities are the squared singular values", r.where, r.loc, each(go, worlds()))


def t_c18_split(prog, rep, cname):
    r = Run(prog, cname, "simulate")
    rep.engine(r.I)
    I = r.I
    where = r.cls.name + ".__init__"
    loc = r.loc
    done = set()
    for st, ref in r.objs:
        o = st.heap[ref.a]
        mts = [a for f in o.fields.values() for a in walk(I.term(st, f)) if a and a[0] in ("svd_u", "svd_v", "svd_s")]
        mts = sorted({a[1] for a in mts}, key=skey)
        if len(mts) != 1 or unreliable(st):
            rep.dunno("losses split", where, "no decomposition found in the constructor", loc)
            continue
        mt = mts[0]
        mat = los = None
        for f, v in o.fields.items():
            t = I.term(st, v)
            if not mentions(t if isinstance(t, tuple) else P(t), lambda a: a[0] in ("svd_u", "svd_v", "svd_s")):
                continue
            if isinstance(v, Num):
                los = (f, I.to_poly(st, v)) if los is None else False
            else:
                mat = (f, t) if mat is None else False
        if not mat or not los:
            rep.dunno("losses split", where, "network and losses not identified", loc)
            continue
        k = (mat, los)
        if k in done:
            continue
        done.add(k)

        def split(w):
            if w[3][0] == 0:
                return None
            g = ground(I, mt, w)
            x = g.mat(mat[1], {})
            eta = GC(1) - g.num(los[1], {})
            s = root(eta)
            if [[s * gc(y) for y in row] for row in x] != w[1]:
                return False, "for the singular values %s: %s = %s, and the network in %s with these losses is not the given one" % (
                    w[3], los[0], g.num(los[1], {}), mat[0])
            return True

        def most(w):
            if w[3][0] == 0:
                return None
            g = ground(I, mt, w)
            l = g.num(los[1], {})
            if l != GC(1) - w[3][0] * w[3][0]:
                return False, "for the singular values %s the uniform losses are %s" % (w[3], l)
            return True
        judged(rep, "losses and remaining network make up the given network", where, loc, each(split, worlds()))
        judged(rep, "all the uniform losses are taken out", where, loc, each(most, worlds()))
    if not r.objs:
        rep.dunno("losses split", where, "no object", loc)


def c18(prog, tier):
    out = [("t_c18_expand", ()), ("t_c18_values", ())]
    for c in concrete_classes(prog):
        f = c.find_method("simulate")
        if f is not None and not f.is_abstract and c.name.startswith("Nonuniform"):
            out.append(("t_c18_split", (c.name,)))
    return out


TASKS["C18"] = c18
