"""C09: complete, interchangeable implementations; nothing refers to what does not exist."""
import builtins
import symtable

from .common import *
from .interp import own_nodes

RULES["C09"] = (
    "Resolution of the whole package. (a) Every class of the package's public families has no abstract operation "
    "left, and the method found on its MRO for each interface operation accepts the interface's parameters by "
    "position and by name with the interface's defaults; interface properties keep their setters. (b) Every global "
    "name used in any scope (symbol tables) is bound in its module or built in, every name imported from the package "
    "exists there. (c) For every concrete class, each attribute read on self in any method of its MRO is assigned or "
    "defined somewhere on that MRO; calls of package functions, methods and constructors fit the callee's signature. "
    "(d) The abstract interpretation of every public operation on a freshly constructed object meets no read of an "
    "attribute that does not exist yet, of a configuration field or interface member that does not exist, and no call "
    "that does not fit.")

FAMILIES = {
    "SimulationStrategyInterface": [
        "CliffordsRSimulationStrategy", "FixedLossSimulationStrategy", "GeneralizedCliffordsBSimulationStrategy",
        "GeneralizedCliffordsBUniformLossesSimulationStrategy", "GeneralizedCliffordsSimulationStrategy",
        "GeneralizedCliffordsUniformLossesSimulationStrategy", "LossyNetworksGeneralizedCliffordsSimulationStrategy",
        "LossyStateApproximationSimulationStrategy", "ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface",
        "NonuniformLossesApproximationStrategy", "UniformLossSimulationStrategy"],
    "NetworkSimulationStrategy": ["LosslessNetworkSimulationStrategy", "LossyNetworkSimulationStrategy"],
    "BSPermanentCalculatorInterface": [
        "ClassicPermanentCalculator", "GlynnGrayPermanentCalculator", "ChinHuhPermanentCalculator",
        "RyserPermanentCalculator"],
    "BSSubmatricesPermanentCalculatorInterface": [
        "BSCCCHSubmatricesPermanentCalculator", "BSCCRyserSubmatricesPermanentCalculator"],
    "BSDistributionCalculatorInterface": [
        "BSApproximatedLossyDistributionCalculator", "BSDistributionCalculatorWithFixedLosses",
        "BSDistributionCalculatorWithUniformLosses", "BSSampleBasedDistributionCalculator"],
}


def family_members(prog, iface):
    names = list(FAMILIES.get(iface, []))
    i = prog.classes.get(iface)
    if i is not None:
        for c in concrete_classes(prog):
            if i in c.mro() and c is not i and c.name not in names:
                names.append(c.name)
    return names


def t_c09_iface(prog, rep, iface):
    i = prog.classes.get(iface)
    if i is None:
        raise Missing(iface)
    for cname in family_members(prog, iface):
        c = prog.classes.get(cname)
        if c is None:
            rep.dunno("complete implementation", cname, "class not present")
            continue
        loc = "%s:%d" % (c.mod.rel, c.node.lineno)
        dynamic = any(n in ("__getattr__", "__getattribute__") for k in c.mro() for n in k.methods) or odd_bases(c)
        ab = sorted(c.abstract_names())
        rep.decide("complete implementation", cname, not ab, "abstract operations left: %s" % ", ".join(ab), loc)
        for n, f in i.methods.items():
            if n.startswith("__"):
                continue
            g = c.find_method(n)
            where = "%s.%s" % (cname, n)
            if g is None:
                if c.find("getters", n) is None and not any(n in k.attrs for k in c.mro()):
                    rep.decide("interface operation", where, None if dynamic else False, "is not defined", loc)
                continue
            ok, why = accepts(f, g)
            rep.decide("interface signature", where, ok, why, "%s:%d" % (g.mod.rel, g.node.lineno))
        for table in ("getters", "setters"):
            for n in getattr(i, table):
                g = c.find(table, n)
                if g is None and (table == "getters") and any(n in k.attrs for k in c.mro()):
                    continue
                where = "%s.%s" % (cname, n)
                if g is None and (assigned_plain(c, n) or dynamic):
                    rep.holds("interface property", where, "plain attribute")
                    continue
                rep.decide("interface property", where, g is not None and not g.is_abstract,
                           "has no %s" % table[:-1], loc)


def odd_bases(c):
    return any(not (b.startswith(("abc.", "builtins.object", "enum.")) or b in ("object",)) for b in c.ext_bases())


def assigned_plain(c, n):
    return any(n in attrs_assigned(k) for k in c.mro()) and c.find("getters", n) is None


def accepts(f, g):
    """g can be called wherever f can."""
    if any(d not in ("staticmethod", "classmethod", "property") and "abstract" not in d and "override" not in d
           for d in g.decos):
        return None, "decorated"
    pf = f.params()[0 if f.is_static else 1:]
    pg = g.params()[0 if g.is_static else 1:]
    posg = [p for p in pg if p[3] == "pos"]
    var, varkw = any(p[3] == "var" for p in pg), any(p[3] == "varkw" for p in pg)
    k = 0
    for p in pf:
        if p[3] in ("var", "varkw"):
            continue
        at = posg[k] if k < len(posg) else None
        k += 1
        if at is None and not var:
            return False, "takes no argument %s by position" % p[0]
        if at is not None and at[0] != p[0]:
            byname = [q for q in pg if q[0] == p[0]]
            if not byname and not varkw:
                return False, "parameter %s of the interface is called %s" % (p[0], at[0])
            if byname:
                return False, "parameter %s of the interface is in another position" % p[0]
        q = next((q for q in pg if q[0] == p[0]), None)
        if p[2] is not None and q is not None:
            if q[2] is None:
                return False, "parameter %s has no default" % p[0]
            if isinstance(p[2], ast.Constant) and isinstance(q[2], ast.Constant) and p[2].value != q[2].value:
                return False, "parameter %s defaults to %r instead of %r" % (p[0], q[2].value, p[2].value)
    for q in pg:
        if q[3] in ("pos", "kw") and q[2] is None and not any(p[0] == q[0] for p in pf):
            return False, "needs a further argument %s" % q[0]
    return True, ""


# ------------------------------------------------------------------------------------ names

def t_c09_names(prog, rep, mod):
    m = prog.mods[mod]
    top = symtable.symtable(m.src, m.path, "exec")
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))
    bound = set()
    for s in top.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            bound.add(s.get_name())
    for t in all_tables(top):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                bound.add(s.get_name())
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in m.tree.body)
    ann = annotation_names(m.tree) if future else set()
    count = 0
    for t in all_tables(top):
        for s in t.get_symbols():
            n = s.get_name()
            if not s.is_referenced() or not (s.is_global() or t is top):
                continue
            count += 1
            if n in bound or hasattr(builtins, n) or n in ("__file__", "__name__", "__doc__", "__path__", "__class__",
                                                           "__package__", "__spec__", "__annotations__"):
                continue
            if star or n in ann:
                rep.dunno("name resolves", "%s: %s" % (m.rel, n), "")
                continue
            rep.bad("name resolves", "%s: %s" % (t.get_name() if t is not top else m.rel, n), "name %s is not defined" % n,
                    "%s:%d" % (m.rel, t.get_lineno()))
    rep.holds("names resolve", m.rel, "%d global references" % count)
    rep.count(global_references=count)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            base = prog.abs_from(m, n)
            if not (base == prog.pkg or base.startswith(prog.pkg + ".")):
                continue
            for a in n.names:
                if a.name == "*":
                    continue
                r = prog.resolve_binding(("from", base, a.name))
                if isinstance(r, tuple) and r[0] == "missing":
                    rep.bad("import resolves", "%s: %s.%s" % (m.rel, base, a.name), "%s has no %s" % (base, a.name),
                            "%s:%d" % (m.rel, n.lineno))
                else:
                    rep.holds("import resolves", "%s: %s.%s" % (m.rel, base, a.name))


def all_tables(t):
    yield t
    for c in t.get_children():
        yield from all_tables(c)


def annotation_names(tree):
    out = set()
    for n in ast.walk(tree):
        anns = []
        if isinstance(n, ast.arg):
            anns.append(n.annotation)
        elif isinstance(n, ast.AnnAssign):
            anns.append(n.annotation)
        elif isinstance(n, ast.FunctionDef):
            anns.append(n.returns)
        for a in anns:
            if a is not None:
                out |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
    return out


# ------------------------------------------------------------------------------------ attributes of self

def self_name(f):
    if f.is_static or f.is_classmethod:
        return None
    p = f.params()
    return p[0][0] if p else None


def attrs_assigned(c):
    """Attributes of self given a value in the methods of one class."""
    out = set(c.attrs) | set(c.methods) | set(c.getters)
    if c.is_dataclass:
        out |= set(c.ann)
    pre = "_" + c.name.lstrip("_")
    for f in list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values()):
        me = self_name(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                    if n.attr.startswith("__") and not n.attr.endswith("__"):
                        out.add(pre + n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                out.add("*")
        # a bare annotation (self.x: T) assigns nothing
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and n.value is None and isinstance(n.target, ast.Attribute):
                t = n.target
                if isinstance(t.value, ast.Name) and t.value.id == me and not stored_elsewhere(c, t.attr):
                    out.discard(t.attr)
    return out


def stored_elsewhere(c, attr):
    for f in list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values()):
        me = self_name(f)
        bare = {id(n.target) for n in ast.walk(f.node) if isinstance(n, ast.AnnAssign) and n.value is None}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and id(n) not in bare \
                    and isinstance(n.value, ast.Name) and n.value.id == me:
                return True
    return attr in c.attrs or attr in c.methods or attr in c.getters


def t_c09_attrs(prog, rep, cname):
    c = prog.classes[cname]
    have = set()
    for k in c.mro():
        have |= attrs_assigned(k)
    dynamic = "*" in have or odd_bases(c) or any(
        n in ("__getattr__", "__getattribute__", "__setattr__") for k in c.mro() for n in k.methods) or any(
        isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Name) and n.id == "vars"
        for k in c.mro() for n in ast.walk(k.node)) or any(k.node.decorator_list for k in c.mro() if not k.is_dataclass)
    outside = stored_on_objects(prog)
    count = 0
    for k in c.mro():
        pre = "_" + k.name.lstrip("_")
        for f in list(k.methods.values()) + list(k.getters.values()) + list(k.setters.values()):
            me = self_name(f)
            if me is None:
                continue
            guarded = guarded_attrs(f.node)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me \
                        and isinstance(n.ctx, ast.Load):
                    count += 1
                    a = n.attr
                    if a.startswith("__") and a.endswith("__"):
                        continue
                    names = {a, pre + a} if a.startswith("__") else {a}
                    if names & have:
                        continue
                    where = "%s.%s in %s" % (cname, a, f.qual)
                    if dynamic or a in guarded or a in outside:
                        rep.dunno("attribute exists", where, "")
                    else:
                        rep.bad("attribute exists", where, "attribute %s is never assigned in %s or its bases" % (a, cname),
                                "%s:%d" % (f.mod.rel, n.lineno))
    rep.holds("attributes exist", cname, "%d reads of attributes of self" % count)
    rep.count(self_attribute_reads=count)


def stored_on_objects(prog):
    """Attribute names stored on something other than self anywhere in the package."""
    out = set()
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                out.add(n.attr)
    return out


def guarded_attrs(fn):
    """Attributes a function tests for with hasattr/getattr or AttributeError handlers."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1:
            if isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    for n in ast.walk(fn):
        if isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) or
                                          "Exception" in ast.unparse(h.type) for h in n.handlers):
            out |= {x.attr for b in n.body for x in ast.walk(b) if isinstance(x, ast.Attribute)}
    return out


# ------------------------------------------------------------------------------------ calls

def t_c09_calls(prog, rep, mod):
    m = prog.mods[mod]
    count = 0
    for f, c in funcs_of(m):
        me = self_name(f) if c is not None else None
        local = {a.arg for n in ast.walk(f.node) if isinstance(n, ast.arguments)
                 for a in n.posonlyargs + n.args + n.kwonlyargs} | \
            {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.name for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node} | \
            {(a.asname or a.name).split(".")[0] for n in ast.walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom))
             for a in n.names}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            for g, skip, who in callees(prog, m, c, me, local, n):
                count += 1
                why = fits(g, skip, n)
                where = "%s calls %s" % (f.qual, who)
                if why:
                    rep.bad("call fits", where, why, "%s:%d" % (m.rel, n.lineno))
    rep.holds("calls fit", m.rel, "%d call sites of package functions" % count)
    rep.count(call_sites=count)


def funcs_of(m):
    for v in m.scope.values():
        if isinstance(v, FuncInfo) and v.mod is m:
            yield v, None
        elif isinstance(v, ClassInfo) and v.mod is m:
            for t in ("methods", "getters", "setters"):
                for f in getattr(v, t).values():
                    yield f, v


def callees(prog, m, c, me, local, n):
    """Package functions a call site certainly refers to."""
    f = n.func
    if isinstance(f, ast.Name) and f.id not in local:
        r = prog.resolve_name(m, f.id)
        yield from target(r)
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and c is not None \
            and me not in local - {me}:
        name = f.attr
        subs = [k for k in prog.classes.values() if c in k.mro() and not k.abstract_names()] or [c]
        seen = set()
        for k in subs:
            g = None
            for b in k.mro():
                if name in b.methods:
                    g = b.methods[name]
                    break
                if name in b.getters or name in b.attrs:
                    break
            if g is not None and id(g) not in seen and not any(name in attrs_assigned(b) - set(b.methods) for b in k.mro()):
                seen.add(id(g))
                if not plain(g):
                    continue
                yield g, 0 if g.is_static else 1, "%s.%s" % (k.name, name)
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
            and f.value.func.id == "super" and c is not None and not f.value.args:
        g = c.find_after(c, "methods", f.attr)
        if g is not None and plain(g):
            yield g, 0 if g.is_static else 1, "super().%s" % f.attr
    elif isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Name, ast.Attribute)):
        root = f.value
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in local and root.id != me:
            yield from target(prog.resolve_expr(m, f))


def plain(g):
    return all(d in ("staticmethod", "classmethod") or "abstract" in d for d in g.decos)


def target(r):
    if isinstance(r, FuncInfo) and plain(r):
        yield r, 0, r.name
    elif isinstance(r, ClassInfo) and not r.is_enum and not r.is_dataclass and not odd_bases(r):
        if any("__new__" in k.methods or k.node.keywords for k in r.mro()):
            return
        g = r.find_method("__init__")
        if g is not None and plain(g):
            yield g, 1, r.name


def fits(g, skip, n):
    ps = g.params()[skip:]
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    pos = [p for p in ps if p[3] == "pos"]
    if len(n.args) > len(pos) and not any(p[3] == "var" for p in ps):
        return "%d positional arguments for %d parameters" % (len(n.args), len(pos))
    got = {p[0] for p in pos[:len(n.args)]}
    for k in n.keywords:
        if k.arg in got:
            return "argument %s given twice" % k.arg
        if not any(p[0] == k.arg and p[3] in ("pos", "kw") for p in ps) and not any(p[3] == "varkw" for p in ps):
            return "no parameter %s" % k.arg
        got.add(k.arg)
    for p in ps:
        if p[3] in ("pos", "kw") and p[2] is None and p[0] not in got:
            return "no value for parameter %s" % p[0]
    return None


# ------------------------------------------------------------------------------------ reads before writes

def t_c09_run(prog, rep, cname, method):
    r = Run(prog, cname, method)
    n = 0
    for e in r.ctor_events + r.events:
        if e.kind == "read":
            n += 1
        if e.flags:
            continue
        if e.kind == "undefined_attr":
            if "(no setter)" in e.attr and False:
                continue
            rep.bad("attribute exists when read", "%s.%s in %s" % (e.obj, e.attr, e.fn.qual if e.fn else "?"),
                    "%s reaches a read of %s.%s, which does not exist there" % (r.where, e.obj, e.attr), e.where)
        elif e.kind == "bad_call":
            rep.bad("call fits its callee", "%s in %s" % (e.callee, e.fn.qual if e.fn else "?"),
                    "%s calls %s: %s" % (r.where, e.callee, e.why), e.where)
    rep.holds("operation resolves", r.where, "%d attribute reads" % n)
    rep.count(attribute_reads=n)
    rep.engine(r.I)


def c09(prog, tier):
    out = [("t_c09_iface", (i,)) for i in FAMILIES]
    for m in prog.mods:
        out.append(("t_c09_names", (m,)))
        out.append(("t_c09_calls", (m,)))
    for c in concrete_classes(prog):
        out.append(("t_c09_attrs", (c.name,)))
        for n in sorted(public_methods(c)):
            out.append(("t_c09_run", (c.name, n)))
    return out


TASKS["C09"] = c09
