"""Contracts used in place of a callee's body when one part of the package is analysed as a client of another.

Every contract is an obligation of the part it describes: the strategies' `simulate` is analysed against the same
statement on its own (C03, C04), and so are the permanent calculators (C02, C08, C17)."""
import ast
from .interp import FSeq
from .lib import fseq, rng_site, rng_float, ge0, one
from .terms import *
from .values import *

# strategies that keep every particle of the state they are given
CONSERVING = ("GeneralizedCliffordsSimulationStrategy", "GeneralizedCliffordsBSimulationStrategy")


def simulate_contract(I, info, args, kw, st, node):
    if not args or not isinstance(args[0], Ref):
        return None
    c = st.heap.get(args[0].a)
    if not isinstance(c, ObjCell) or c.cls is None or c.lazy is not None:
        return None
    # an object's own call (super().simulate, self.simulate) is analysed in place
    me = st.getv("self") if st.cur is not None else None
    if isinstance(me, Ref) and me.a == args[0].a:
        return None
    env = I.bind(info, args, dict(kw), st, node)
    inp, k = env.get("input_state"), env.get("samples_number")
    w = I.view(st, inp) if inp is not None else None
    if w is None or k is None:
        return None
    n = I.to_poly(st, k)
    nn = n if ge0(I, st, n) else pmax(0, n)
    i = I.ix()
    st.rngn += 1
    ctx = st.ctx if n.const() == 1 else st.ctx + (i,)
    site = rng_site(I, node)
    a = ("rng", site, st.rngn, ctx, None, "float")
    total = I.vsum(w)
    m = calc_matrix(I, st, args[0], node)
    I.event("draw", node, st, fname="simulate", atom=a, count=nn)
    I.note_draw(st, a, (inp, k) + tuple(settled(c)), list(walk(m)) if m is not None else ())
    I.event("sampling", node, st, strategy=args[0], cls=c.cls, input=inp, input_term=I.term(st, inp), n=n, matrix=m, view=w)
    if c.cls.name in CONSERVING:
        s = total
    else:
        if total is not None:
            s = A(("rngi", site, st.rngn, ctx, None, P(0), total, "int"))
        else:
            s = None
    deps = {z for x in (I.term(st, inp), m) if x is not None for z in walk(x) if z and z[0] in ("rng", "rngi", "L", "phi")}
    t = ("lv", ("sim", c.cls.name, a) + tuple(sorted(deps, key=skey)), "int", I.vlen(w), s, 0)
    sample = I.lib.seq_term_value(I, st, t, "int", "tuple")
    sample = I.freeze(st, sample)
    return one(st, fseq(I, st, "list", [Seg(nn, i, sample)]))


def settled(c):
    """Fields of a strategy that only its constructor assigns."""
    out = []
    for n, v in c.fields.items():
        if isinstance(v, (Num, Unk, Cst)) and not any(
                isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and t.attr == n
                for k in c.cls.mro() for f in k.methods.values() if f.name != "__init__" for t in ast.walk(f.node)):
            out.append(v)
    return out


def calc_matrix(I, st, ref, node, depth=3):
    """Matrix held by the permanent calculator of a strategy (or of the strategy it delegates to), as a term."""
    c = st.heap.get(ref.a)
    if not isinstance(c, ObjCell):
        return None
    for f, v in c.fields.items():
        if isinstance(v, Ref):
            d = st.heap.get(v.a)
            if isinstance(d, ObjCell) and d.cls is not None and d.cls.find_method("compute_permanent") is not None:
                m = I.get_field(st.clone(), v, d, "matrix", node)
                if m:
                    return I.term(m[0][0], m[0][1])
    if depth:
        for f, v in c.fields.items():
            if isinstance(v, Ref):
                d = st.heap.get(v.a)
                if isinstance(d, ObjCell) and d.cls is not None and d.cls.find_method("simulate") is not None:
                    m = calc_matrix(I, st, v, node, depth - 1)
                    if m is not None:
                        return m
    return None


def permanents_contract(I, info, args, kw, st, node):
    """One complex number per mode of the input state, depending on the matrix and both states only."""
    if not args or not isinstance(args[0], Ref):
        return None
    c = st.heap.get(args[0].a)
    if not isinstance(c, ObjCell) or c.cls is None:
        return None
    me = st.getv("self") if st.cur is not None else None
    if isinstance(me, Ref) and me.a == args[0].a:
        return None
    parts = []
    for a in ("matrix", "input_state", "output_state"):
        r = I.get_attr(st, args[0], a, node)
        if len(r) != 1:
            return None
        st, v = r[0]
        if a == "input_state":
            w = I.view(st, v)
            if w is None:
                return None
            ln = I.vlen(w)
        parts.append(I.term(st, v))
    I.event("icall", node, st, callee=info, ref=args[0], env={})
    t = ("permanents",) + tuple(parts)
    SEQINFO[t] = {"len": ln, "sum": None, "ty": "num", "lb": None}
    return one(st, I.lib.seq_term_value(I, st, t, "complex", "list"))


def permanent_contract(I, info, args, kw, st, node):
    if not args or not isinstance(args[0], Ref):
        return None
    c = st.heap.get(args[0].a)
    if not isinstance(c, ObjCell) or c.cls is None:
        return None
    me = st.getv("self") if st.cur is not None else None
    if isinstance(me, Ref) and me.a == args[0].a:
        return None
    parts = []
    for a in ("matrix", "input_state", "output_state"):
        r = I.get_attr(st, args[0], a, node)
        if len(r) != 1:
            return None
        st, v = r[0]
        parts.append(I.term(st, v))
    I.event("icall", node, st, callee=info, ref=args[0], env={})
    return one(st, Num(A(("permanent",) + tuple(parts) + ("num",)), "complex"))


def expand_contract(I, info, args, kw, st, node):
    env = I.bind(info, args, dict(kw), st, node)
    m = first(env)
    I.event("expand", node, st, arg=I.term(st, m))
    return one(st, Unk(("expand", I.term(st, m)), ("seq", ("seq", "complex"))))


def first(env, i=0):
    return [v for k, v in env.items() if not k.startswith("$")][i]


def qft_contract(I, info, args, kw, st, node):
    env = I.bind(info, args, dict(kw), st, node)
    m, n = I.to_poly(st, first(env)), I.to_poly(st, first(env, 1))
    I.event("qft", node, st, m=m, n=n)
    return one(st, Unk(("qft", m, n), ("seq", ("seq", "complex"))))


def phases_contract(I, info, args, kw, st, node):
    env = I.bind(info, args, dict(kw), st, node)
    m, n = I.to_poly(st, first(env)), I.to_poly(st, first(env, 1))
    a = rng_float(I, st, node, "phases")
    I.event("draw", node, st, fname="phases", atom=a, count=m)
    I.event("phases", node, st, m=m, n=n)
    return one(st, Unk(("phases", a, m, n), ("seq", ("seq", "complex"))))


def lossy_states_contract(I, info, args, kw, st, node):
    """Every way of keeping n particles of the given state, each once: states of the same length with n particles."""
    env = I.bind(info, args, dict(kw), st, node)
    v = first(env)
    w = I.view(st, v)
    n = I.to_poly(st, first(env, 1))
    if w is None:
        return None
    t = I.term(st, v)
    if (n - I.vsum(w)).const() == 0:
        return one(st, I.alloc(st, SeqCell("list", (Seg(P(1), I.ix(), FSeq("tuple", w.segs, EMPTY, EMPTY)),))))
    i = I.ix()
    cnt = ("val", ("nlossy", t, n), "int")
    BOUNDS[cnt] = (P(1), None)
    e = ("lv", ("lossy", t, n, A(i)), "int", I.vlen(w), n, 0)
    x = I.freeze(st, I.lib.seq_term_value(I, st, e, "int", "tuple"))
    return one(st, fseq(I, st, "list", [Seg(A(cnt), i, x)]))


def states_contract(I, info, args, kw, st, node):
    """A list of states that depends on the arguments only."""
    env = I.bind(info, args, dict(kw), st, node)
    vs = [v for k, v in env.items() if not k.startswith("$")]
    if len(vs) < 2:
        return None
    t = ("states",) + tuple(I.term(st, v) for v in vs)
    SEQINFO[t] = {"len": A(("val", ("nstates",) + t[1:], "int")), "sum": None, "ty": ("seq", "int"), "lb": None}
    BOUNDS[("val", ("nstates",) + t[1:], "int")] = (P(0), None)
    i = I.ix()
    n = A(("val", ("nstates",) + t[1:], "int"))
    return one(st, I.alloc(st, SeqCell("list", (Seg(n, i, I.elem_of(t, A(i), ("seq", "int"))),))))


STATES = {"generate_possible_states": states_contract}


UTILITIES = {"prepare_interferometer_matrix_in_expanded_space": expand_contract,
             "generate_qft_matrix_for_first_m_modes": qft_contract,
             "generate_random_phases_matrix_for_first_m_modes": phases_contract,
             "generate_lossy_n_particle_input_states": lossy_states_contract}


def build(prog, simulate=True, more=()):
    v = {}
    for c in prog.classes.values():
        if simulate and "simulate" in c.methods and c.name.endswith("Strategy") and "simulation_strateg" in c.mod.name \
                and c.name != "FixedLossSimulationStrategy":
            v[c.methods["simulate"].qual] = simulate_contract
        if "compute_permanents" in c.methods and not c.methods["compute_permanents"].is_abstract:
            v[c.methods["compute_permanents"].qual] = permanents_contract
        if "compute_permanent" in c.methods and not c.methods["compute_permanent"].is_abstract:
            v[c.methods["compute_permanent"].qual] = permanent_contract
    for m in prog.mods.values():
        if m.name.endswith("boson_sampling_utilities"):
            for n, h in list(UTILITIES.items()) + list(dict(more).items()):
                v[m.name + "." + n] = h
    return v
