"""Loop summarisation.

A loop is never unrolled.  One abstract iteration is analysed from a head state in which every
location the body changes is a placeholder (phi); the recurrences read off the end states are
solved (counters, sums, products, appended lists, pointwise updates, trimmed windows, lists with a
known length and sum).  What has no closed form stays a placeholder, which makes results that use
it undecided."""
import ast

from .interp import FSeq, Out, View, subst_cond
from .terms import *
from .terms import as_term
from .values import *

MAXROUNDS = 9


def summarise(I, st, s, n, seg, test):
    return Loop(I, st, s, n, seg, test).go()


def new_facts(e, h):
    return [(c, b) for c, b in e.facts.items() if c not in h.facts]


def deps_on(c, f):
    return any(mentions(x, f) for x in c[1:] if isinstance(x, (tuple, Poly)))


def own_phi(L):
    return lambda a: bool(a) and a[0] == "phi" and len(a) > 1 and a[1] == L


class Loop:
    def __init__(self, I, st, s, n, seg, test):
        self.I, self.s, self.seg, self.test, self.n = I, s, seg, test, n
        ids = tuple(a[1][1] if a[0] == "it" else a[1] for a in st.ctx)
        self.key = (tuple(I.cstack), id(s), getattr(I, "segno", 0), ids)
        lid = I.loopids.setdefault(self.key, len(I.loopids) + 1)
        self.ctx0 = st.ctx
        self.L = ("L", lid, st.ctx)
        self.lid = lid
        self.it = ("it", self.L, n)
        self.entry = st
        self.H = {}          # loc -> info
        self.temps = set()
        self.dicts = {}      # addr -> summ tuple
        self.cong = {}       # loc -> class id
        self.names = {}
        self.comp = None
        self.headcells = {}
        self.isphi = own_phi(self.L)
        self.seqno = 0

    # -------------------------------------------------------------- locations
    def get(self, st, loc):
        if loc[0] == "v":
            return st.frames.get(loc[1], {}).get(loc[2])
        c = st.heap.get(loc[1])
        if c is None:
            return None
        if loc[0] == "f":
            return c.fields.get(loc[2])
        return Ref(loc[1])

    def name(self, loc):
        if loc not in self.names:
            if loc[0] == "v":
                nm = loc[2]
            elif loc[0] == "f":
                c = self.entry.heap.get(loc[1])
                nm = "%s.%s" % (c.cls.name if c is not None and c.cls else "?", loc[2])
            else:
                self.seqno += 1
                nm = "#%d" % self.seqno
            k = nm
            j = 1
            while k in self.names.values():
                j += 1
                k = "%s~%d" % (nm, j)
            self.names[loc] = k
        return self.names[loc]

    def veq(self, s1, a, s2, b):
        I = self.I
        if a is b:
            return True
        if type(a) is not type(b):
            if isinstance(a, (Num, Cst)) and isinstance(b, (Num, Cst)) and not (isinstance(a, Cst) and not isinstance(a.v, (int, float))) \
                    and not (isinstance(b, Cst) and not isinstance(b.v, (int, float))):
                return I.to_poly(s1, a) == I.to_poly(s2, b) and I.num_ty(a) == I.num_ty(b)
            if isinstance(a, (Unk, FSeq, Ref)) and isinstance(b, (Unk, FSeq, Ref)):
                w1, w2 = I.view(s1, a), I.view(s2, b)
                if w1 is not None and w2 is not None:
                    return I.term(s1, a) == I.term(s2, b) and w1.kind == w2.kind
            return False
        if isinstance(a, Num):
            return a.p == b.p and a.ty == b.ty
        if isinstance(a, Cst):
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, Ref):
            return a.a == b.a
        if isinstance(a, Unk):
            return a.t == b.t
        if isinstance(a, CondV):
            return I.cterm(a.c) == I.cterm(b.c)
        if isinstance(a, FSeq):
            return I.term(s1, a) == I.term(s2, b)
        if isinstance(a, (Fn,)):
            return a.info is b.info
        if isinstance(a, Bnd):
            return a.info is b.info and self.veq(s1, a.obj, s2, b.obj)
        if isinstance(a, (Ext, ModV)):
            return a.name == b.name
        if isinstance(a, ClsV):
            return a.info is b.info
        if isinstance(a, ExtM):
            return a.name == b.name and self.veq(s1, a.obj, s2, b.obj)
        if isinstance(a, Alt):
            return len(a.vs) == len(b.vs) and all(self.veq(s1, x, s2, y) for x, y in zip(a.vs, b.vs))
        return a == b

    def changed(self, h, e):
        """Locations of h that e changes; temporaries; lazily read fields are moved to the entry."""
        I = self.I
        locs = set()
        for fid, env in h.frames.items():
            e2 = e.frames.get(fid)
            if e2 is None or e2 is env:
                continue
            for name, b in e2.items():
                if name == "$closure":
                    continue
                if name not in env:
                    self.temps.add(("v", fid, name))
                elif not self.veq(h, env[name], e, b):
                    locs.add(("v", fid, name))
        for addr, c in h.heap.items():
            if addr in self.headcells:
                continue
            c2 = e.heap.get(addr)
            if c2 is None or c2 is c:
                continue
            if isinstance(c, SeqCell):
                if not isinstance(c2, SeqCell) or c.kind != c2.kind or c.tag != c2.tag or \
                        I.segs_term(h, c.segs) != I.segs_term(e, c2.segs) or \
                        self.ety(h, c.segs) != self.ety(e, c2.segs):
                    locs.add(("s", addr))
            elif isinstance(c, ObjCell):
                for f, b in c2.fields.items():
                    if f in c.fields:
                        if not self.veq(h, c.fields[f], e, b):
                            locs.add(("f", addr, f))
                    elif c.lazy is not None and self.lazy_read(e, c, f, b):
                        if f not in self.entry.heap[addr].fields if addr in self.entry.heap else False:
                            self.entry.setf(addr, f, b)
                            self.import_into(self.entry, e, b)
                    else:
                        self.temps.add(("f", addr, f))
            elif isinstance(c, DictCell):
                if c2.entries != c.entries or c2.summ != c.summ or c2.tag != c.tag:
                    locs.add(("d", addr))
        return locs

    def lazy_read(self, e, c, f, v):
        t = self.I.term(e, v)
        if isinstance(t, Poly):
            t = as_term(t)
        return isinstance(t, tuple) and len(t) > 2 and t[0] == "attr" and t[1] == c.lazy and t[2] == f

    def import_into(self, st, src, v):
        self.I.lib.import_cells(self.I, st, src, v)

    def ety(self, st, segs):
        ss = [Seg(s.n, s.ix, self.I.freeze(st, s.v)) for s in segs if s.n.const() != 0]
        if not ss:
            return None
        return self.I.lib.ety_of(self.I, ss)

    def join_ety(self, a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if isinstance(a, str) and isinstance(b, str) and "any" not in (a, b):
            return self.I.lib.tyjoin(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return ("seq", self.join_ety(a[1], b[1]))
        return "any"

    # -------------------------------------------------------------- head states
    def eterm(self, loc):
        v = self.get(self.entry, loc)
        if v is None:
            return ("undef",)
        if loc[0] == "d":
            return ("dict", loc[1])
        t = self.I.term(self.entry, v)
        return t if isinstance(t, (tuple, Poly)) else ("cst", repr(t))

    def phi(self, loc, info):
        cl = self.cong.get(loc)
        nm = self.name(loc) if cl is None else cl
        if info["shape"] == "num":
            return ("phi", self.L, nm, self.eterm(loc), info["ty"])
        return ("phi", self.L, nm, self.eterm(loc), "seq" if info["shape"] == "seq" else "any")

    def head(self):
        I = self.I
        h = self.entry.clone()
        h.ctx = self.ctx0 + (self.it,)
        self.headcells = {}
        shared = {}
        for loc, info in self.H.items():
            sh = info["shape"]
            if sh == "dict":
                c = h.heap[loc[1]]
                summ = self.dicts.get(loc[1], ())
                h.heap[loc[1]] = c.with_(summ=tuple(c.summ) + tuple(x for x in summ if x not in c.summ))
                for f in [f for f in h.facts if f[0] == "in" and f[2] == ("dict", loc[1])]:
                    if h.facts[f] is False or info.get("removes"):
                        del h.facts[f]
                continue
            if sh == "num":
                v = Num(info["closed"] if info.get("closed") is not None else A(self.phi(loc, info)), info["ty"])
                self.put(h, loc, v)
            elif sh == "seq":
                if info.get("closed") is not None:
                    segs = info["closed"]
                else:
                    p = self.phi(loc, info)
                    ix = I.ix()
                    segs = (Seg(seq_len(p), ix, I.elem_of(p, A(ix), info["ety"] or "any", info["er"])),)
                if loc[0] == "s":
                    c = h.heap[loc[1]]
                    h.heap[loc[1]] = c.with_(segs=tuple(segs), kind=info["kind"], er=info["er"])
                    self.headcells[loc[1]] = loc
                else:
                    al = info.get("alias")
                    if al is not None and al in shared:
                        self.put(h, loc, Ref(shared[al]))
                        continue
                    r = I.alloc(h, SeqCell(info["kind"], segs, info["roots"], info["er"], None, info.get("tag")))
                    self.headcells[r.a] = loc
                    if al is not None:
                        shared[al] = r.a
                    self.put(h, loc, r)
            else:
                v = info.get("closedv")
                self.put(h, loc, v if v is not None else Unk(self.phi(loc, info), "any", info["roots"], info["er"]))
        if self.comp:
            h.comp = h.comp | self.comp
        return h

    def put(self, st, loc, v):
        if loc[0] == "v":
            e = dict(st.frames[loc[1]])
            e[loc[2]] = v
            st.frames[loc[1]] = e
        else:
            st.setf(loc[1], loc[2], v)

    # -------------------------------------------------------------- running
    def run(self, quiet):
        I = self.I
        h = self.head()
        if quiet:
            I.quiet += 1
            I.exc.append([])
        try:
            r = I.iter_body(h.clone(), self.s, self.seg, self.test, self.it)
        finally:
            if quiet:
                I.quiet -= 1
                I.exc.pop()
        return h, r

    def shape_of(self, st, v):
        I = self.I
        if isinstance(v, (Num, CondV)) or (isinstance(v, Cst) and isinstance(v.v, (bool, int, float)) and v.v is not None):
            return "num"
        if isinstance(v, Alt):
            return "any"
        if I.view(st, v) is not None and not (isinstance(v, Cst)):
            return "seq"
        return "any"

    def discover(self, h, ends):
        """Register changed locations and widen their descriptions; True when something grew."""
        I = self.I
        grew = False
        for e in ends:
            for loc in self.changed(h, e):
                if loc not in self.H:
                    self.add(loc, h, e)
                    grew = True
        for loc, info in self.H.items():
            for e in ends:
                if self.widen(loc, info, h, e):
                    grew = True
        # dictionaries
        for loc, info in self.H.items():
            if info["shape"] != "dict":
                continue
            for e in ends:
                if self.dict_widen(loc, h, e):
                    grew = True
        if self.companions(h, ends):
            grew = True
        # aliases and congruence
        if self.classes(h, ends):
            grew = True
        if grew:
            for info in self.H.values():
                info["closed"] = None
                info["closedv"] = None
        return grew

    def add(self, loc, h, e):
        I = self.I
        if loc[0] == "d":
            self.H[loc] = {"shape": "dict", "roots": EMPTY, "er": EMPTY}
            return
        a, b = self.get(self.entry, loc), self.get(e, loc)
        if b is None:
            b = a
        sa, sb = self.shape_of(self.entry, a), self.shape_of(e, b)
        if sa == sb == "num":
            self.H[loc] = {"shape": "num", "ty": I.lib.tyjoin(I.num_ty(a), I.num_ty(b)), "roots": EMPTY, "er": EMPTY}
        elif sa == sb == "seq":
            w1, w2 = I.view(self.entry, a), I.view(e, b)
            self.H[loc] = {"shape": "seq", "ety": self.join_ety(self.ety(self.entry, w1.segs), self.ety(e, w2.segs)),
                           "kind": self.kinds(w1.kind, w2.kind), "roots": w1.roots | w2.roots, "er": w1.er | w2.er,
                           "tag": I.lib.tagof(self.entry, a) if I.lib.tagof(self.entry, a) == I.lib.tagof(e, b) else None}
        else:
            self.H[loc] = {"shape": "any", "roots": I.roots(self.entry, a) | I.roots(e, b), "er": EMPTY}

    def kinds(self, a, b):
        return a if a == b else "mixed"

    def widen(self, loc, info, h, e):
        I = self.I
        if info["shape"] in ("any", "dict"):
            return False
        b = self.get(e, loc)
        if b is None:
            return False
        sb = self.shape_of(e, b)
        if sb != info["shape"]:
            info.update({"shape": "any", "roots": info["roots"] | I.roots(e, b)})
            return True
        if sb == "num":
            t = I.lib.tyjoin(info["ty"], I.num_ty(b))
            if t != info["ty"]:
                info["ty"] = t
                return True
            return False
        w = I.view(e, b)
        new = {"ety": self.join_ety(info["ety"], self.ety(e, w.segs)), "kind": self.kinds(info["kind"], w.kind),
               "roots": info["roots"] | w.roots, "er": info["er"] | w.er}
        g = any(new[k] != info[k] for k in new)
        info.update(new)
        return g

    def dict_widen(self, loc, h, e):
        I = self.I
        addr = loc[1]
        c, c2 = h.heap[addr], e.heap.get(addr)
        if not isinstance(c2, DictCell):
            return False
        grew = False
        have = self.dicts.get(addr, ())
        old = {x[0] for x in c.entries}
        if c2.tag != c.tag:
            # cleared or replaced in the body
            pass
        new = [x for x in c2.entries if not any(x is y for y in c.entries)]
        tm = lambda v: I.term(e, v)
        anyt = ("summ_any", self.L, "any")
        terms = [tm(x) for x in have]
        mine = [tm(x) for x in self.entry.heap[addr].summ]
        for kt, kv, v in new + [(("KEY",), None, x) for x in c2.summ if x not in c.summ and x not in have]:
            v = I.freeze(e, v)
            t = I.sv(v, {kt: A(("KEY",)) if not isinstance(kt, tuple) else ("KEY",)}) if isinstance(kt, tuple) else v
            if isinstance(kt, Poly):
                inv = self.key_iteration(kt)
                if inv is not None:
                    t = I.sv(v, {self.it: inv})
            if any(a == self.it or self.isphi(a) for a in I.val_atoms(t)) or isinstance(t, Ref) and False:
                t = Unk(("summ_any", self.L, "any"), t.ty if isinstance(t, Unk) else
                        (("seq", self.ety(e, t.segs) or "any") if isinstance(t, FSeq) else "any"))
            if isinstance(t, Ref):
                self.import_into(self.entry, e, t)
            x = tm(t)
            if anyt in terms or x in terms or x in mine:
                continue
            if any(w[0] == "summ_any" and any(z[1] == w[1] for z in self.ctx0 if len(z) > 2) for w in mine if isinstance(w, tuple)):
                continue        # an enclosing loop has already given this dictionary unknown content
            if mentions(x, lambda a: a == anyt):
                t, x = Unk(anyt, "any"), anyt
            if True:
                if len(have) >= 3:
                    t = Unk(("summ_any", self.L, "any"), "any")
                    if tm(t) in terms:
                        continue
                    have = (t,)
                else:
                    have = have + (t,)
                terms = [tm(y) for y in have]
                grew = True
        self.dicts[addr] = have
        return grew

    def key_iteration(self, kt):
        """The iteration that writes key KEY, when the key moves by one per iteration."""
        a, b = None, P(0)
        for mo, c in kt.t.items():
            if mo and any(mentions(z[0], lambda w: w == self.it or self.isphi(w)) for z in mo):
                if len(mo) == 1 and mo[0][0] == self.it and mo[0][1] == 1 and c in (1, -1) and a is None:
                    a = c
                    continue
                return None
            b = b + Poly({mo: c})
        if a is None:
            return None
        return (A(("KEY",)) - b) * a

    def companions(self, h, ends):
        ds = [loc[1] for loc, i in self.H.items() if i["shape"] == "dict"]
        out = set()
        for a in ds:
            for b in ds:
                if a == b:
                    continue
                ea, eb = self.entry.heap[a], self.entry.heap[b]
                fresh = ea.tag == "empty" and not ea.entries and not ea.summ
                if not fresh and (a, b) not in self.entry.comp:
                    continue
                ok = True
                for e in ends:
                    na = {x[0] for x in e.heap[a].entries} - {x[0] for x in h.heap[a].entries}
                    nb = {x[0] for x in e.heap[b].entries}
                    if not na <= nb:
                        ok = False
                if ok:
                    out.add((a, b))
        out = frozenset(out)
        if self.comp is None:
            self.comp = out
            return bool(out)
        if out != self.comp and not self.comp <= out:
            self.comp = self.comp & out
            return True
        return False

    def classes(self, h, ends):
        """Locations holding one cell; sequences with equal content."""
        I = self.I
        grew = False
        seqs = [l for l, i in self.H.items() if i["shape"] == "seq"]
        # aliases
        sig = {}
        for l in seqs:
            if l[0] == "s":
                continue
            a = self.get(self.entry, l)
            k = tuple(self.get(e, l).a if isinstance(self.get(e, l), Ref) else None for e in ends)
            if None in k or not isinstance(a, Ref):
                continue
            sig.setdefault((a.a, k), []).append(l)
        al = {}
        for k, ls in sig.items():
            if len(ls) > 1:
                for l in ls:
                    al[l] = self.name(min(ls, key=lambda z: self.name(z)))
        for l in seqs:
            if self.H[l].get("alias") != al.get(l):
                # only split classes after the first round
                if "alias" in self.H[l] and self.H[l]["alias"] is None:
                    continue
                self.H[l]["alias"] = al.get(l)
                grew = True
        # congruence: start from equal entry content, split by end content
        groups = {}
        for l in seqs:
            if l in self.cong or "cong0" not in self.H[l]:
                k = (self.cong.get(l), I.term(self.entry, self.get(self.entry, l)), repr(self.H[l]["ety"]),
                     tuple(I.term(e, self.get(e, l)) for e in ends))
                groups.setdefault(k, []).append(l)
        for k, ls in groups.items():
            nm = "=" + self.name(min(ls, key=lambda z: self.name(z))) if len(ls) > 1 else None
            for l in ls:
                first = "cong0" not in self.H[l]
                self.H[l]["cong0"] = True
                if self.cong.get(l) != nm:
                    if nm is None:
                        self.cong.pop(l, None)
                    elif first or l in self.cong:
                        self.cong[l] = nm
                    grew = True
        return grew

    # -------------------------------------------------------------- solving
    def solve(self, h, ends, force):
        prog = False
        for loc, info in self.H.items():
            if info.get("closed") is not None or info.get("closedv") is not None or info.get("dead"):
                continue
            if info["shape"] == "num":
                r = self.solve_num(loc, info, h, ends)
                if r is not None:
                    info["closed"] = r
                    prog = True
            elif info["shape"] == "seq":
                r = self.solve_seq(loc, info, h, ends, force)
                if r is not None:
                    cl = self.cong.get(loc)
                    info["closed"] = tuple(r)
                    if cl is not None:
                        for l2 in self.H:
                            if self.cong.get(l2) == cl:
                                self.H[l2]["closed"] = tuple(r)
                    prog = True
            elif info["shape"] == "any":
                a = self.get(self.entry, loc)
                if a is not None and all(self.veq(h, self.get(h, loc), e, self.get(e, loc)) for e in ends
                                         if self.get(e, loc) is not None):
                    info["closedv"] = a
                    prog = True
        return prog

    def free(self, p):
        return not mentions(p, self.isphi)

    def bc(self, pat):
        return A(("bcount", self.L, pat, A(self.it)))

    def linear(self, entry, deltas, ends=None, h=None):
        """entry + accumulated deltas, one delta per end state."""
        it = self.it
        if not all(self.free(d) for d in deltas):
            return None
        ds = set(deltas)
        if len(ds) == 1:
            d = deltas[0]
            if not d.t:
                return entry
            v = ("ix", self.I.nix_next())
            return entry + Sum(A(it), subst(d, {it: A(v)}), v)
        nz = {d for d in ds if d.t}
        if len(nz) == 1:
            d = nz.pop()
            if not mentions(d, lambda a: a == it):
                pat = tuple(1 if x.t else 0 for x in deltas)
                if ends is not None:
                    self.I.bcfacts[(self.lid, pat)] = (self.it, [new_facts(e, h) for e in ends])
                return entry + d * self.bc(pat)
        return None

    def solve_num(self, loc, info, h, ends):
        I = self.I
        phi = self.phi(loc, info)
        entry = I.to_poly(self.entry, self.get(self.entry, loc))
        vals = []
        for e in ends:
            v = self.get(e, loc)
            if v is None:
                return None
            vals.append(I.to_poly(e, v))
        r = self.linear(entry, [v - A(phi) for v in vals], ends, h)
        if r is not None:
            return r
        # product
        fs = {v * power(A(phi), -1) for v in vals}
        if len(fs) == 1:
            f = fs.pop()
            if self.free(f):
                v = ("ix", I.nix_next())
                return entry * Prod(A(self.it), subst(f, {self.it: A(v)}), v)
        # value of the previous iteration
        if len(set(vals)) == 1 and self.free(vals[0]):
            if subst(vals[0], {self.it: P(-1)}) == entry:
                return subst(vals[0], {self.it: A(self.it) - 1})
        return None

    def elem(self, e, v, ix, h):
        """Element appended in iteration `it`, as a function of ix."""
        I = self.I
        if isinstance(v, Ref) and v.a in h.heap and v.a not in self.headcells and isinstance(h.heap[v.a], (SeqCell, DictCell)):
            return v
        fv = I.freeze(e, v)
        if isinstance(fv, Ref) or isinstance(fv, FSeq):
            self.import_into(self.entry, e, fv)
        m = {self.it: A(ix)}
        for a in set(I.val_atoms(fv)):
            if self.isphi(a):
                na = a[:-1] + (A(ix), a[-1])
                m[a] = na if a[-1] in ("seq", "any") else A(na)
                if a[-1] == "seq":
                    m[("len", a)] = A(("len", na))
        if not isinstance(ix, tuple) or True:
            return I.sv(fv, m)

    def solve_seq(self, loc, info, h, ends, force):
        I, it = self.I, self.it
        phi = self.phi(loc, info)
        ev = self.get(self.entry, loc)
        ew = I.view(self.entry, ev)
        esegs = [s for s in ew.segs if s.n.const() != 0]
        plen = A(("len", phi))
        views = []
        for e in ends:
            v = self.get(e, loc)
            w = I.view(e, v) if v is not None else None
            if w is None:
                return None
            views.append((e, w))
        terms = [I.segs_term(e, w.segs) for e, w in views]
        # unchanged content
        if all(t == phi for t in terms):
            return esegs
        # the same content in every iteration, equal to the entry's
        et = I.segs_term(self.entry, ew.segs)
        if all(t == et or t == phi for t in terms):
            return esegs
        # appending
        r = self.append(loc, info, h, views, phi, plen, esegs, force)
        if r is not None:
            return r
        # pointwise
        if len(set(terms)) == 1 and isinstance(terms[0], tuple) and terms[0] and terms[0][0] == "upd" and terms[0][1] == phi:
            _, _, k, val, ty = terms[0]
            c = k - A(it)
            own = ("item", phi, k, ty)
            et2 = et
            v2 = subst(P(val), {own: item(et2, k, ty)})
            if not mentions(c, lambda a: a == it) and self.free(c) and self.free(v2):
                j = I.ix()
                n = I.vlen(ew)
                left = I.lib.window(I, self.entry, esegs, P(0), c) if c.t else []
                right = I.lib.window(I, self.entry, esegs, c + A(it), n - c - A(it))
                if left is not None and right is not None:
                    nt = info["ety"] if isinstance(info["ety"], str) else "num"
                    return list(left) + [Seg(A(it), j, Num(subst(v2, {it: A(j)}), nt))] + list(right)
        r = self.clamp(loc, info, views, terms, phi, et, ew, esegs)
        if r is not None:
            return r
        # windows
        ds = []
        for e, w in views:
            if len(w.segs) == 1:
                g = w.segs[0]
                t = I.term(e, g.v)
                t = as_term(t) if isinstance(t, Poly) else t
                if isinstance(t, tuple) and t and t[0] == "item" and t[1] == phi:
                    ds.append((t[2] - A(g.ix), g.n - plen))
        if len(ds) == len(views) and len(set(ds)) == 1 and ds[0][0].const() is not None and ds[0][1].const() is not None:
            off, dl = ds[0]
            r = I.lib.window(I, self.entry, esegs, off * A(it), I.vlen(ew) + dl * A(it))
            if r is not None:
                return r
        r = self.onespot(loc, info, h, terms, phi, et, ew, esegs, ends)
        if r is not None:
            return r
        self.scatter(loc, terms, phi, et)
        # length and sum only
        if not force:
            if any(mentions(t, lambda a: self.isphi(a) and a != phi) for t in terms):
                return None
        lens = [I.vlen(w) - plen for _, w in views]
        ln = self.linear(I.vlen(ew), lens, ends, h)
        if ln is None:
            # a list rebuilt with a fixed length
            ls = {I.vlen(w) for _, w in views}
            if ls == {I.vlen(ew)}:
                ln = I.vlen(ew)
        sums = []
        es = I.vsum(ew)
        for e, w in views:
            x = I.vsum(w)
            sums.append(None if x is None else x)
        sm = None
        if es is not None and None not in sums:
            sm = self.linear(es, [x - A(("sum", phi)) for x in sums], ends, h)
            if sm is None and all(x == es for x in sums):
                sm = es
        if ln is None:
            return None
        ety = info["ety"] or "any"
        lb = None
        if isinstance(ety, str) and ety in ("int", "num", "float"):
            if all(I.occ(t) for t in terms) and I.occ(et):
                lb = 0
        if isinstance(ety, str) and ety != "any":
            t = ("lv", (self.L, self.name(loc) if loc not in self.cong else self.cong[loc], A(it)), ety, ln, sm, lb)
        else:
            t = ("lv", (self.L, self.name(loc) if loc not in self.cong else self.cong[loc], A(it)),
                 ety if isinstance(ety, str) else "any", ln, None, None)
        I.lvdeps.setdefault(self.lid, set()).update(a for t2 in terms for a in walk(t2) if a and a[0] in ("rng", "rngi", "L"))
        if I.watch_hist:
            I.note_deps(self, loc, [a for t2 in list(terms) + [et] for a in walk(t2) if I.source(a)])
        ix = I.ix()
        return [Seg(ln, ix, I.elem_of(t, A(ix), ety, info["er"]))]

    def clamp(self, loc, info, views, terms, phi, et, ew, esegs):
        """Entries replaced by a bound where they exceed it: a[i] = max(a[i], b) or min(a[i], b) for every i."""
        I, it = self.I, self.it
        ups = [(e, t) for (e, w), t in zip(views, terms) if isinstance(t, tuple) and t and t[0] == "upd" and t[1] == phi]
        rest = [e for (e, w), t in zip(views, terms) if t == phi]
        if len(ups) != 1 or len(rest) != 1 or len(views) != 2:
            return None
        e, (_, _, k, val, ty) = ups[0]
        if P(k) != A(it):
            return None
        general = None
        own = A(("item", phi, k, ty))
        old = item(et, k, ty)
        for c, b in e.facts.items():
            if c[0] not in ("lt", "eq") or rest[0].facts.get(c) != (not b):
                continue
            v3 = subst(P(val), {("item", phi, k, ty): old})
            c3 = (c[0], subst(P(c[1]), {("item", phi, k, ty): old}))
            if general is None and info["ety"] in ("float", "num") and self.free(v3) and self.free(c3[1]):
                general = ite(c3, v3, old, "num") if b else ite(c3, old, v3, "num")
            if c[0] != "lt" or mentions(P(val), lambda a: self.isphi(a) or a == it):
                continue
            # own - val < 0 replaced by val: max; val - own < 0 replaced by val: min (also with the comparison the other way round)
            d = P(c[1]) if b else -P(c[1])
            if d == own - P(val):
                v2 = pmax(old, P(val))
            elif d == P(val) - own:
                v2 = pmin(old, P(val))
            else:
                continue
            if not self.free(v2):
                return None
            general = v2
            break
        if general is not None:
            v2 = general
            j = I.ix()
            right = I.lib.window(I, self.entry, esegs, A(it), I.vlen(ew) - A(it))
            if right is None:
                return None
            nt = info["ety"] if isinstance(info["ety"], str) else "num"
            return [Seg(A(it), j, Num(subst(v2, {it: A(j)}), nt))] + list(right)
        return None

    def onespot(self, loc, info, h, terms, phi, et, ew, esegs, ends):
        """The same entry is added to (or multiplied) in every iteration: a[k] += d(i)."""
        I = self.I
        n = I.vlen(ew)
        m = {("len", phi): n}
        ks = set()
        vals = []
        for t in terms:
            if not (isinstance(t, tuple) and t):
                return None
            if t == phi:
                vals.append(None)
            elif t[0] == "upd" and t[1] == phi:
                ks.add((P(t[2]), t[4]))
                vals.append(P(t[3]))
            else:
                return None
        if len(ks) != 1:
            return None
        (k0, ty), = ks
        k = subst(k0, m)
        if not self.free(k) or mentions(k, lambda a: a == self.it):
            return None
        own = A(("item", phi, k0, ty))
        old = item(et, k, ty)
        off = P(0)
        for g in esegs:
            if off == k and isinstance(g.v, (Num, Cst)):
                old = subst(I.to_poly(self.entry, g.v), {g.ix: P(0)})
                break
            off = off + g.n
        vals = [own if v is None else v for v in vals]
        new = self.linear(old, [v - own for v in vals], ends, h)
        if new is None:
            fs = {v * power(own, -1) for v in vals}
            f = fs.pop()
            if fs or not self.free(f):
                return None
            v = ("ix", I.nix_next())
            new = old * Prod(A(self.it), subst(f, {self.it: A(v)}), v)
        left = I.lib.window(I, self.entry, esegs, P(0), k) if k.t else []
        right = I.lib.window(I, self.entry, esegs, k + 1, n - k - 1) if (n - k - 1).t else []
        if left is None or right is None:
            return None
        nt = info["ety"] if isinstance(info["ety"], str) else "num"
        return list(left) + [Seg(P(1), I.ix(), Num(new, nt))] + list(right)

    def scatter(self, loc, terms, phi, et):
        """a[k(i)] is replaced by a function of i and itself in every iteration (a[k(i)] += d(i), for example)."""
        t = terms[0]
        if len(set(terms)) != 1 or not (isinstance(t, tuple) and t and t[0] == "upd" and t[1] == phi):
            return
        own = ("item", phi, t[2], t[4])
        new = subst(P(t[3]), {own: A(("own",))})
        if self.free(new) and self.free(P(t[2])):
            k = (self.L, self.name(loc) if loc not in self.cong else self.cong[loc])
            self.record(self.I.scattered, k + (seq_len(et),), (self.it, P(t[2]), new, et))

    def record(self, table, k, v):
        """Remember a loop summary; what different paths say about the same loop has to agree."""
        o = self.I.owners.setdefault((id(table), k), self)
        if o is not self and table.get(k) != v:
            v = None
        table[k] = v

    def append(self, loc, info, h, views, phi, plen, esegs, force):
        I, it = self.I, self.it
        extras = []
        for e, w in views:
            segs = [s for s in w.segs if s.n.const() != 0]
            if not segs:
                return None
            g = segs[0]
            t = I.term(e, g.v)
            t = as_term(t) if isinstance(t, Poly) else t
            if g.n != plen or not (isinstance(t, tuple) and t and t[0] == "item" and t[1] == phi and t[2] == A(g.ix)):
                return None
            extras.append((e, segs[1:]))
        if not any(x for _, x in extras):
            return None
        if not force:
            for e, x in extras:
                for s in x:
                    fv = I.freeze(e, s.v)
                    if any(self.isphi(a) for a in I.val_atoms(fv)) or not self.free(s.n):
                        return None
        for e, x in extras:
            for s in x:
                if mentions(s.n, lambda a: a == phi):
                    return None
        if len(extras) == 1 or all(len(x) == len(extras[0][1]) for _, x in extras):
            e0, x0 = extras[0]
            if all(all(a.n == b.n for a, b in zip(x, x0)) for _, x in extras):
                if all(s.n.const() == 1 for s in x0):
                    k = len(x0)
                    if k == 1:
                        ix = I.ix()
                        vs = [self.elem(e, I.sv(x[0].v, {x[0].ix: P(0)}), ix, h) for e, x in extras]
                        return esegs + [Seg(A(it), ix, self.join(vs, [self.guard(h, e, ix) for e, _ in extras]))]
                    ix = I.ix()
                    j = floordiv(A(ix), P(k))
                    vs = []
                    for e, x in extras:
                        for s in x:
                            t = ("ix", I.nix_next())
                            v = self.elem(e, I.sv(s.v, {s.ix: P(0)}), t, h)
                            vs.append(I.sv(v, {t: j}))
                    return esegs + [Seg(A(it) * k, ix, self.join(vs))]
        # general: total length by summation, elements from some iteration
        lens = []
        for e, x in extras:
            r = P(0)
            for s in x:
                r = r + s.n
            lens.append(r)
        ln = self.linear(P(0), lens, [e for e, _ in extras], h)
        if ln is None:
            if not force:
                return None
            ln = A(("phi", self.L, self.name(loc) + ".len", ("undef",), "int"))
            BOUNDS[as_term(ln)] = (P(0), None)
        if len(extras) == 1:
            self.record(I.layout, (self.L, self.name(loc)), (self.it, tuple(s.n for s in extras[0][1])))
        ix = I.ix()
        vs = []
        for e, x in extras:
            for s in x:
                t = ("ix", I.nix_next())
                v = I.sv(s.v, {s.ix: A(("anyix", self.L, self.name(loc), A(ix), s.n))}) if s.n.const() != 1 else I.sv(s.v, {s.ix: P(0)})
                v = self.elem(e, v, t, h)
                vs.append(I.sv(v, {t: A(("anyit", self.L, self.name(loc), A(ix), self.n))}))
        return esegs + [Seg(ln, ix, self.join(vs))]

    def join(self, vs, gs=None):
        out, go = [], []
        for i, v in enumerate(vs):
            for k, o in enumerate(out):
                if self.veq(self.entry, v, self.entry, o):
                    if gs is not None:
                        go[k] = go[k] + (gs[i],)
                    break
            else:
                out.append(v)
                go.append((gs[i],) if gs is not None else ())
        if len(out) == 1:
            return out[0]
        return Alt(out[:8], go[:8])

    def guard(self, h, e, ix):
        """What was decided in the iteration that ended in e."""
        m = {self.it: A(ix)}
        return tuple((subst_cond(c, m), b) for c, b in e.facts.items() if c not in h.facts and not deps_on(c, self.isphi))

    # -------------------------------------------------------------- whole
    def go(self):
        I = self.I
        cache = I.__dict__.setdefault("loopcache", {})
        h, r = self.run(True)
        stale = True
        for _ in range(MAXROUNDS + 3):
            if not r[0]:
                break
            if not self.discover(h, r[0]):
                if stale and any(self.dicts.values()):
                    # templates learned before every changed location was known: learn them again
                    stale = False
                    self.dicts = {a: () for a in self.dicts}
                    h, r = self.run(True)
                    continue
                break
            h, r = self.run(True)
        else:
            I.truncated += 1
            for info in self.H.values():
                info["dead"] = True
        if r[0] and self.H:
            force = False
            for _ in range(MAXROUNDS):
                if self.solve(h, r[0], force):
                    h, r = self.run(True)
                    if not r[0]:
                        break
                    new = set()
                    for e in r[0]:
                        new |= {l for l in self.changed(h, e) if l not in self.H}
                    if new:
                        for l in new:
                            self.add(l, h, r[0][0])
                        for info in self.H.values():
                            info["closed"] = info["closedv"] = None
                            info["dead"] = True
                        I.truncated += 1
                        h, r = self.run(True)
                        break
                elif not force:
                    force = True
                else:
                    break
        if not I.quiet:
            h, r = self.run(False)
        ends, brk, ret, exits = r
        for e in ends:
            self.changed(h, e)      # collects temporaries and lazily read fields
        self.record_deps(h, ends, exits, list(brk) + [x for x, _ in ret])
        o = Out()
        base = max([self.entry.rngn] + [e.rngn for e in ends])
        single = not ends           # the body never completes: at most one iteration
        if self.test is None:
            x = self.head()
            o.norm.append(self.finish(x, self.n if not single else P(0), h, ends, base, P(self.n)))
            if single and self.n.const() is None:
                # leaving without an iteration: the sequence is empty
                y = o.norm[-1]
                c = I.norm_cond(("eq", P(self.n)))
                d = I.decide(y, c)
                if d is False:
                    o.norm.pop()
                elif d is None:
                    y.facts[c] = True
            elif single and self.n.const() > 0:
                o.norm.pop()
        else:
            for x in exits:
                T, sub = self.trip(h, x, ends) if not single else (P(0), {})
                o.norm.append(self.finish(x, T, h, ends, base, None, sub))
        for x in brk:
            o.brk.append(self.leave(x, h, ends, single))
        for x, v in ret:
            y, m = self.leave(x, h, ends, single, True)
            o.ret.append((y, I.sv(v, m)))
        return o

    def leave(self, x, h, ends, single, ret=False):
        """State that left the loop in the middle of an iteration."""
        I = self.I
        b = ("brk", self.L, self.n if self.n is not None else self.limit(h, x))
        m = {self.it: A(b)}
        if single:
            m = {self.it: P(0)}
        elif self.n is None:
            T = self.first(h, x, ends)
            if T is not None:
                m = T if isinstance(T, dict) else {self.it: T}
        y = I.subst_state(x, m)
        y.ctx = self.ctx0
        y.comp = y.comp | (self.comp or EMPTY)
        return (y, m) if ret else y

    def limit(self, h, x):
        """Bound on the iterations of a loop without a fixed count, from the condition under which one is entered."""
        for c, b in x.facts.items():
            if c not in h.facts and c[0] == "lt" and b is True and is_int(c[1]):
                r = self.lin_it(c[1])
                if r is not None and r[0] == 1:
                    return -r[1]
        return None

    def lin_it(self, p):
        """p = a*it + b with a constant."""
        a = Fraction(0)
        b = P(0)
        for mo, c in p.t.items():
            if mo == ((self.it, 1),):
                a += c
            elif any(x == self.it or mentions(x, lambda z: z == self.it) or
                     (isinstance(ex, Poly) and mentions(ex, lambda z: z == self.it)) for x, ex in mo):
                return None
            else:
                b = b + Poly({mo: c})
        return a, b

    def nn(self, st, p):
        return p if self.I.lib.ge0(self.I, st, p) else pmax(0, p)

    def solve_fact(self, st, c, val):
        """First iteration at which a condition takes the value `val`, having had the other before."""
        if c[0] not in ("lt", "eq"):
            return None
        r = self.lin_it(c[1])
        if r is None or r[0] == 0:
            return None
        a, b = r
        if abs(a) != 1:
            b = b * P(Fraction(1) / abs(a))
            a = Fraction(1) if a > 0 else Fraction(-1)
            if not is_int(b):
                return None
        if not is_int(b):
            return None
        if c[0] == "eq":
            return (b * -a) if val else None
        if a == 1 and val is False:      # it + b >= 0
            return self.nn(st, -b)
        if a == -1 and val is True:      # b - it < 0
            return self.nn(st, b + 1)
        return None

    def trip(self, h, x, ends):
        """Number of completed iterations at this exit, and extra substitutions."""
        I = self.I
        new = [(c, b) for c, b in x.facts.items() if c not in h.facts]
        if len(new) == 1:
            c, b = new[0]
            T = self.solve_fact(self.entry, c, b)
            if T is not None:
                return T, {}
            # counting loop: bcount + X reaches a bound in steps of one
            r = self.count_fact(c, b)
            if r is not None:
                T = A(("T", self.L))
                return T, {subst_term(r[0], {self.it: T}): r[1]}
        elif not new and self.test is not None:
            # decided at once
            if not ends:
                return P(0), {}
        return A(("T", self.L)), {}

    def first(self, h, x, ends):
        for c, b in x.facts.items():
            if c in h.facts:
                continue
            if ends and all(e.facts.get(c) is (not b) for e in ends):
                T = self.solve_fact(self.entry, c, b)
                if T is not None:
                    return T
                r = self.count_fact(c, b)
                if r is not None:
                    return {self.it: A(("brk", self.L, self.n)), r[0]: r[1]}
        return None

    def count_fact(self, c, b):
        """A counter that goes up in steps of one has just reached its bound."""
        if c[0] == "lt" and b is False:
            bs = [a for a in c[1].atoms() if a[0] == "bcount" and a[1] == self.L]
            if len(bs) == 1 and c[1].t.get(((bs[0], 1),)) == 1:
                rest = c[1] - A(bs[0])
                if is_int(rest) and not mentions(rest, lambda z: z == self.it):
                    return bs[0], self.nn(self.entry, -rest)
        return None

    def finish(self, x, T, h, ends, rngn, n, sub=None):
        I = self.I
        y = I.subst_state(x, {self.it: T})
        if sub:
            y = I.subst_state(y, sub)
        y.ctx = self.ctx0
        y.rngn = max(rngn, y.rngn)
        y.comp = self.entry.comp | (self.comp or EMPTY)
        fl = frozenset().union(*[e.flags for e in ends]) if ends else EMPTY
        y.flags = y.flags | fl
        once = I.lib.ge0(I, self.entry, T - 1)
        m = {self.it: T - 1}
        targets = {nd.id for nd in ast.walk(self.s.target) if isinstance(nd, ast.Name)} if hasattr(self.s, "target") else set()
        for loc in list(self.temps) + [l for l, i in self.H.items() if i.get("closed") is None and i.get("closedv") is None
                                       and i["shape"] != "dict"]:
            tmp = loc in self.temps and loc not in self.H or (loc[0] == "v" and loc[2] in targets)
            if not ends:
                continue
            if not tmp and not once:
                self.weak_exit(y, loc, h, ends, m)
                continue
            vs = []
            okv = True
            for e in ends:
                v = self.get(e, loc)
                if v is None:
                    continue
                fv = I.freeze(e, v)
                vs.append((e, v, fv))
            if not vs:
                continue
            if any(self.isphi(a) for _, _, fv in vs for a in I.val_atoms(fv)):
                if not tmp:
                    continue
            first = vs[0]
            if all(self.veq(first[0], first[2], e, fv) or (isinstance(first[2], FSeq) and isinstance(fv, FSeq) and
                                                           I.term(first[0], first[2]) == I.term(e, fv)) for e, _, fv in vs):
                nv = first[2]
            else:
                nv = Alt([fv for _, _, fv in vs[:6]])
            for e, v, fv in vs:
                self.import_into(y, I.subst_state(e, m) if any(True for _ in ()) else e, fv)
            nv = I.sv(nv, m)
            if isinstance(nv, FSeq):
                # mutable again
                nv = I.alloc(y, SeqCell(nv.kind, nv.segs, nv.roots, nv.er))
            if loc[0] == "s":
                if isinstance(nv, Ref):
                    y.heap[loc[1]] = y.heap[loc[1]].with_(segs=y.heap[nv.a].segs)
            elif loc[0] == "v":
                if loc[1] in y.frames:
                    self.put(y, loc, nv)
            elif loc[1] in y.heap:
                self.put(y, loc, nv)
        return y

    def weak_exit(self, y, loc, h, ends, m):
        """Unsolved location after a possibly empty loop: entry value or last iteration's."""
        I = self.I
        info = self.H[loc]
        a = self.get(self.entry, loc)
        if info["shape"] == "num":
            # overwritten in every iteration with a value that does not depend on the old one
            if len(ends) != 1 or not isinstance(self.get(ends[0], loc), Num) or not self.free(self.get(ends[0], loc).p) \
                    or not isinstance(a, Num):
                return
        elif info["shape"] != "any":
            return
        vs = [a]
        none = ("eq", m[self.it] + 1)
        gs = [(((none, True),),)]
        for e in ends:
            v = self.get(e, loc)
            if v is not None and not any(self.veq(e, v, e, o) for o in vs):
                fv = I.sv(I.freeze(e, v), m)
                self.import_into(y, e, fv)
                vs.append(fv)
                gs.append((((none, False),),))
        if loc[0] in ("v", "f"):
            self.put(y, loc, Alt(vs[:6], gs[:6] if len(ends) == 1 else None) if len(vs) > 1 else a)

    def record_deps(self, h, ends, exits, brk):
        """What the trip count and the unsolved values of this loop depend on."""
        I = self.I
        if not I.quiet:
            I.loopinfo.setdefault(self.lid, []).append(
                {"it": self.it, "n": self.n, "ctx": self.ctx0, "entry": dict(self.entry.facts),
                 "ends": [new_facts(e, h) for e in ends], "brk": [new_facts(x, h) for x in brk],
                 "exits": [new_facts(x, h) for x in exits]})
        atoms = set(I.lvdeps.get(self.lid, ()))
        for x in list(ends) + list(exits) + list(brk):
            for c in x.facts:
                if c not in h.facts:
                    for p in c[1:]:
                        if isinstance(p, (tuple, Poly)):
                            atoms.update(a for a in walk(p) if I.source(a))
        for e in ends:
            for loc, info in self.H.items():
                if info.get("closed") is None and info.get("closedv") is None and info["shape"] != "dict":
                    v = self.get(e, loc)
                    if v is not None:
                        all_ = list(I.val_atoms(I.freeze(e, v)))
                        own = {a for a in all_ if a and a[0] in ("rng", "rngi", "L")}
                        if I.watch_hist:
                            I.note_deps(self, loc, [a for a in all_ if I.source(a)])
                        atoms.update(own)
                        draws = {a for a in own if a[0] in ("rng", "rngi") and self.it in a[3]}
                        if draws:
                            cl = self.cong.get(loc)
                            k = (self.lid, self.name(loc) if cl is None else cl)
                            I.phideps[k] = I.phideps.get(k, frozenset()) | draws
        atoms.discard(self.L)
        old = I.ldeps.get(self.lid)
        I.ldeps[self.lid] = (self.ctx0, frozenset(atoms) | (old[1] if old else frozenset()))
