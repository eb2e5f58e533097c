"""Exact laws of integer terms over the draws they contain, computed from the analysed formulas in an interpretation.

Nothing is sampled: a draw with given weights, a first crossing of accumulated weights, or a count of iterations that
pass a threshold has a distribution that is a formula over the loop summaries; it is evaluated in exact arithmetic."""
import itertools
import math

from .common import *
from .loops import deps_on

RANDOM = ("rng", "rngi", "brk", "T", "bcount")


class Need(Exception):
    def __init__(self, key, dist):
        self.key, self.dist = key, dist


class Unmodelled(Exception):
    pass


def is_random(a):
    return bool(a) and a[0] in ("rng", "rngi")


class LawModel(Model):
    def __init__(self, seed, I, events, over=None, maxlen=3):
        Model.__init__(self, seed, over, maxlen)
        self.I = I
        self.known = {}
        self.used = set()
        self.sel = {}
        for e in events:
            if e.kind in ("select", "binomial"):
                self.sel.setdefault(e.atom[1:3], []).append(e)
        self.lossy_cache = {}

    def val(self, p, env=None):
        p = P(p)
        env = env or {}
        r = Fraction(0)
        for mo, c in p.t.items():
            v = Fraction(c)
            late = []
            for a, e in mo:
                ev = self.val(e, env) if isinstance(e, Poly) else Fraction(e)
                if a[0] == "fact" and ev < 0:
                    x = self.val(a[1], env)
                    if x.denominator == 1 and x < 0:
                        v = Fraction(0)     # binomial coefficient outside its range
                        break
                late.append((a, ev))
            else:
                for a, ev in late:
                    v = v * self.pw(self.atom(a, env), ev)
            r += v
        return r

    # ---------------------------------------------------------------- keys
    def ctx_values(self, ctx, env):
        out = []
        for c in ctx:
            try:
                if isinstance(c, Poly):
                    out.append(self.val(c, env))
                elif isinstance(c, tuple) and c and c[0] in ("it", "ix", "brk", "bv", "anyix", "T") or c in env:
                    out.append(self.atom(c, env))
                elif isinstance(c, tuple) and c and c[0] == "anyit":
                    out.append(Fraction(self.h("anyit" + self.key(c[1:3], env) + str(self.val(c[3], env)), 3)))
                else:
                    out.append(str(c))
            except Unmodelled:
                out.append(Fraction(0))
        return tuple(out)

    def bind(self, ctx, vals):
        return {c: v for c, v in zip(ctx, vals) if isinstance(v, Fraction) and isinstance(c, tuple)}

    def key_atom(self, a, env):
        if a[0] in ("rng", "rngi"):
            return str((a[0], a[1], a[2], self.ctx_values(a[3], env), self.key(a[4], env)))
        return Model.key_atom(self, a, env)

    # ---------------------------------------------------------------- atoms
    def atom(self, a, env):
        if a in env:
            return env[a]
        if a in self.over:
            return Fraction(self.over[a])
        t = a[0]
        if t == "it":
            n = 3
            if a[2] is not None:
                n = self.val(a[2], env)
                if n < 1:
                    raise Skip
            return Fraction(self.h("it%s" % (a[1][1],), int(n)))
        if t == "rngi":
            vals = self.ctx_values(a[3], env)
            ix = self.val(a[4], env) if isinstance(a[4], Poly) else None
            k = ("rngi", a[1], a[2], vals, ix)
            if k not in self.known:
                raise Need(k, self.draw(a, vals, ix, env))
            return self.known[k]
        if t in ("brk", "T"):
            lid = a[1][1]
            vals = self.ctx_values(a[1][2], env)
            k = (t, lid, vals)
            if k not in self.known:
                raise Need(k, self.first(a, lid, vals, env))
            return self.known[k]
        if t == "bcount":
            lid = a[1][1]
            vals = self.ctx_values(a[1][2], env)
            n = self.val(a[3], env)
            k = ("bcount", lid, vals, a[2], n)
            if k not in self.known:
                raise Need(k, self.count(a, lid, vals, n, env))
            return self.known[k]
        if t == "ssorted":
            x = as_term(a[2])
            if not (isinstance(x, tuple) and x and x[0] == "rng"):
                raise Unmodelled("search")
            self.used.add((x[0], x[1]))
            k = ("ssorted", x[1], x[2], self.ctx_values(x[3], env), self.key(x[4], env))
            if k not in self.known:
                n = int(self.length(a[1], env))
                cs = [min(max(self.item(a[1], Fraction(i), env, "float"), Fraction(0)), Fraction(1)) for i in range(n)]
                if any(u > v for u, v in zip(cs, cs[1:])):
                    raise Unmodelled("search")
                raise Need(k, [(Fraction(i), q - p) for i, (p, q) in enumerate(zip([Fraction(0)] + cs, cs + [Fraction(1)]))
                               if q != p])
            return self.known[k]
        if t in ("anyit", "anyix"):
            return self.flat(a, env)
        if t == "val" and a[1] and a[1][0] == "nlossy":
            return Fraction(len(self.lossy(a[1][1], a[1][2], env)))
        if t in ("minel", "maxel"):
            n = self.length(a[1], env)
            if n < 1:
                raise Skip
            xs = [self.item(a[1], Fraction(i), env, "float") for i in range(int(n))]
            return (min if t == "minel" else max)(xs)
        if t == "alt" or t == "phi" or t in ("havoc", "loopv", "KEY", "dictv", "rec", "call", "gencall"):
            raise Unmodelled(t)
        if t == "rng":
            raise Unmodelled("a raw draw")
        return Model.atom(self, a, env)

    def item(self, s, i, env, ty="int"):
        if isinstance(s, tuple) and s and s[0] == "lv":
            x = s[1]
            if isinstance(x, tuple) and x and x[0] == "lossy":
                vs = self.lossy(x[1], x[2], env)
                k = self.val(x[3], env)
                if k < 0 or k >= len(vs) or i >= len(vs[int(k)]):
                    raise Skip
                return Fraction(vs[int(k)][int(i)])
            raise Unmodelled("lv")
        if isinstance(s, tuple) and s and s[0] in ("phi", "alt", "havoc"):
            raise Unmodelled(s[0])
        return Model.item(self, s, i, env, ty)

    def lossy(self, t, n, env):
        """Sub-occupations of the sequence t with n particles, in a fixed order."""
        ln = int(self.length(t, env))
        v = tuple(int(self.item(t, Fraction(i), env)) for i in range(ln))
        n = self.val(n, env)
        k = (v, n)
        if k not in self.lossy_cache:
            if len(v) > 6 or sum(v) > 12:
                raise Skip
            self.lossy_cache[k] = [x for x in itertools.product(*[range(y + 1) for y in v]) if sum(x) == n]
        return self.lossy_cache[k]

    def flat(self, a, env):
        lay = self.I.layout.get((a[1], a[2]))
        if not lay or len(lay[1]) != 1:
            raise Unmodelled("flat list")
        it, (cnt,) = lay
        pos = self.val(a[3], env)
        n = int(self.val(it[2], env)) if it[2] is not None else 40
        for t in range(n):
            c = self.val(cnt, {**env, it: Fraction(t)})
            if pos < c:
                return Fraction(t) if a[0] == "anyit" else pos
            pos -= c
        raise Skip

    # ---------------------------------------------------------------- laws
    def holds(self, facts):
        """Conditions without draws hold (conditions the model cannot evaluate are left out)."""
        for c, v in facts:
            if deps_on(c, lambda a: is_random(a) or a[0] == "it"):
                continue
            try:
                x = eval_cond(c, self)
            except (Unmodelled, Need):
                continue
            if x is not None and x != v:
                return False
        return True

    def draw(self, a, vals, ix, env):
        self.used.add((a[0], a[1]))
        evs = [e for e in self.sel.get(a[1:3], ()) if self.holds(e.facts.items())]
        if not evs:
            lo, hi = self.val(a[5], env), self.val(a[6], env)
            if hi < lo or hi - lo > 40:
                raise Skip
            n = int(hi - lo) + 1
            return [(lo + k, Fraction(1, n)) for k in range(n)]
        e = evs[0]
        m = self.bind(e.atom[3], vals)
        if isinstance(e.atom[4], Poly) and ix is not None:
            v = as_term(e.atom[4])
            if isinstance(v, tuple):
                m[v] = ix
        if e.kind == "binomial":
            n, p = self.val(e.n, m), self.val(e.p, m)
            return binomial(int(n), p)
        n = self.val(e.ncand, m)
        if n < 1 or n > 60:
            raise Skip
        if e.weights is None:
            return [(Fraction(k), Fraction(1) / n) for k in range(int(n))]
        ws = [self.elem(e.weights, k, m) for k in range(int(n))]
        if e.fname.startswith("random.choices"):
            s = sum(ws)
            if s == 0:
                raise Skip
            ws = [w / s for w in ws]
        return [(Fraction(k), w) for k, w in enumerate(ws)]

    def elem(self, v, i, env):
        """Element of a frozen sequence value."""
        if isinstance(v, FSeq):
            off = Fraction(0)
            for g in v.segs:
                n = self.val(g.n, env)
                if off <= i < off + n:
                    return self.value(g.v, {**env, g.ix: i - off})
                off += n
            raise Skip
        if isinstance(v, Unk) and isinstance(v.t, tuple):
            return self.item(v.t, Fraction(i), env, "float")
        raise Unmodelled("sequence")

    def value(self, v, env):
        if isinstance(v, Num):
            return self.val(v.p, env)
        if isinstance(v, Cst) and isinstance(v.v, (int, float)):
            return Fraction(v.v)
        if isinstance(v, Alt) and v.g is not None:
            ok = []
            for x, g in zip(v.vs, v.g):
                if any(self.conj(k, env) for k in g):
                    ok.append(x)
            # a search that always stops leaves nothing to the case after it
            rnd = [x for x in ok if isinstance(x, Num) and mentions(x.p, lambda a: a[0] in ("brk", "T", "bcount"))]
            if len(ok) > 1 and len(rnd) == 1:
                ok = rnd
            if len(ok) == 1:
                return self.value(ok[0], env)
        if isinstance(v, Unk) and isinstance(v.t, tuple) and num_term(v.t):
            return self.val(P(v.t), env)
        raise Unmodelled("value")

    def conj(self, k, env):
        for c, b in k:
            if deps_on(c, is_random) and not self.settled(c, env):
                continue
            x = self.cond(c, env)
            if x is not None and x != b:
                return False
        return True

    def settled(self, c, env):
        return all(a[0] == "rngi" for p in c[1:] for a in walk(P(p) if not isinstance(p, tuple) else p) if is_random(a))

    def cond(self, c, env):
        if c[0] not in ("lt", "eq", "le"):
            return None
        v = self.val(c[1], env)
        return v < 0 if c[0] == "lt" else v == 0 if c[0] == "eq" else v <= 0

    def records(self, lid):
        rs = [r for r in self.I.loopinfo.get(lid, ()) if self.holds(r["entry"].items())]
        if not rs:
            raise Unmodelled("loop")
        return rs

    def region(self, facts, env, it=None):
        """{draw: (lo, hi)} of the values under which the facts hold; None when they cannot hold."""
        reg = {}
        for c, b in facts:
            draws = {a for p in c[1:] if isinstance(p, (Poly, tuple)) for a in walk(p) if a and a[0] == "rng"}
            if not draws:
                if deps_on(c, lambda a: a[0] in ("phi", "loopv", "havoc", "lv", "alt")):
                    continue
                x = self.cond(c, env)
                if x is not None and x != b:
                    return None
                continue
            if len(draws) != 1 or c[0] != "lt":
                if c[0] == "eq" and not b:
                    continue
                raise Unmodelled("condition")
            d = draws.pop()
            self.used.add((d[0], d[1]))
            co = c[1].t.get(((d, 1),))
            rest = c[1] - A(d) * co if co is not None else None
            if co is None or mentions(rest, lambda a: a == d):
                raise Unmodelled("condition")
            w = -self.val(rest, env) / Fraction(co)
            lo, hi = reg.get(d, (Fraction(0), Fraction(1)))
            # co*d + rest < 0 is b
            if (co > 0) == b:
                hi = min(hi, w)
            else:
                lo = max(lo, w)
            if lo >= hi:
                return None
            reg[d] = (lo, hi)
        return reg

    def first(self, a, lid, vals, env):
        """Law of the iteration in which a search loop stops."""
        out = None
        for r in self.records(lid):
            outs = r["brk"] if a[0] == "brk" else r["exits"]
            n = self.val(subst_ctx(r["n"], r["ctx"], vals), env) if a[0] == "brk" and r["n"] is not None else Fraction(60)
            base = {**env, **self.bind(r["ctx"], vals)}
            lo, hi, rem = Fraction(0), Fraction(1), Fraction(1)
            dist = []
            for i in range(int(min(n, 60))):
                e = {**base, r["it"]: Fraction(i)}
                go = [x for x in (self.region(f, e) for f in r["ends"]) if x is not None]
                st = [x for x in (self.region(f, e) for f in outs) if x is not None]
                ds = {d for x in go + st for d in x}
                if len(ds) > 1:
                    raise Unmodelled("several draws")
                if not ds:
                    if st and not go:
                        dist.append((Fraction(i), rem))
                        rem = Fraction(0)
                        break
                    if go and not st:
                        continue
                    raise Unmodelled("search")
                d = ds.pop()
                if deps_on(("x", d[3]), lambda z: z == r["it"]) or r["it"] in d[3]:
                    p = sum((x[d][1] - x[d][0] if d in x else Fraction(1) for x in st), Fraction(0))
                    dist.append((Fraction(i), rem * p))
                    rem *= 1 - p
                    continue
                p = Fraction(0)
                for x in st:
                    l, u = x.get(d, (Fraction(0), Fraction(1)))
                    p += max(Fraction(0), min(u, hi) - max(l, lo))
                dist.append((Fraction(i), p))
                rem -= p
                nl = [x.get(d, (Fraction(0), Fraction(1))) for x in go]
                nl = [(max(l, lo), min(u, hi)) for l, u in nl if min(u, hi) > max(l, lo)]
                if not nl:
                    break
                lo, hi = min(x[0] for x in nl), max(x[1] for x in nl)
            if out is not None and out != dist:
                raise Unmodelled("paths differ")
            out = dist
        return out

    def count(self, a, lid, vals, n, env):
        """Law of the number of iterations that take a counting path."""
        info = self.I.bcfacts.get((lid, a[2]))
        if info is None:
            raise Unmodelled("count")
        it, ends = info
        rs = self.records(lid)
        ps = set()
        for i in range(int(n)):
            e = {**env, **self.bind(rs[0]["ctx"], vals), it: Fraction(i)}
            groups = {}
            for f, amt in zip(ends, a[2]):
                own = [(c, b) for c, b in f if not deps_on(c, lambda z: z[0] in ("brk", "T", "phi", "lv", "havoc", "alt"))
                       and not selects(c)]
                x = self.region([(c, b) for c, b in own if c[0] in ("lt", "eq", "le")], e)
                if x is None:
                    continue
                k = tuple(sorted(((str(d), v) for d, v in x.items()), key=str))
                p = Fraction(1)
                for l, u in x.values():
                    p *= u - l
                o = groups.get(k, (p, 0))
                groups[k] = (p, max(o[1], amt))
            tot = sum(p for p, _ in groups.values())
            if tot != 1:
                raise Unmodelled("count")
            ps.add(sum(p for p, amt in groups.values() if amt))
        if not ps:
            return [(Fraction(0), Fraction(1))]
        if len(ps) != 1:
            raise Unmodelled("count")
        return binomial(int(n), ps.pop())


SIMPLE = {"param", "attr", "item", "len", "sum", "fact", "Sum", "Prod", "it", "ix", "bv", "svd_s", "minel", "maxel", "max",
          "min", "c", "grp", "pow0", "floordiv", "val", "rng", "rngi", "L", "seq", "upd", "worker", "sym"}


def selects(c):
    """A comparison of a draw with weights computed from amplitudes: it selects a mode, not the fate of a particle."""
    return deps_on(c, is_random) and deps_on(c, lambda z: isinstance(z[0], str) and z[0] not in SIMPLE)


def subst_ctx(n, ctx, vals):
    return subst(P(n), {c: P(v) for c, v in zip(ctx, vals) if isinstance(v, Fraction) and isinstance(c, tuple)})


def binomial(n, p):
    return [(Fraction(k), math.comb(n, k) * p ** k * (1 - p) ** (n - k)) for k in range(n + 1)]


def law(model, f, limit=4000):
    """Distribution of f() over the draws it needs: {value: probability}."""
    out = {}
    todo = [({}, Fraction(1))]
    steps = 0
    while todo:
        known, p = todo.pop()
        steps += 1
        if steps > limit:
            raise Unmodelled("too many draws")
        model.known = known
        try:
            v = f()
        except Need as e:
            for x, q in e.dist:
                if q != 0:
                    todo.append(({**known, e.key: x}, p * q))
            continue
        out[v] = out.get(v, 0) + p
    return {v: p for v, p in out.items() if p != 0}
