"""Program model: every module of /repo/theboss parsed, names resolved to definitions.

Nothing of the analysed package is imported or executed."""
import ast
import builtins
import os


class FuncInfo:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = getattr(node, "name", "<lambda>")
        self.decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def is_static(self):
        return "staticmethod" in self.decos

    @property
    def is_classmethod(self):
        return "classmethod" in self.decos

    @property
    def is_property(self):
        return any(d in ("property", "abc.abstractproperty") or d.endswith("cached_property")
                   for d in self.decos)

    @property
    def is_setter(self):
        return any(d.endswith(".setter") for d in self.decos)

    @property
    def is_abstract(self):
        return any(d.split(".")[-1].startswith("abstract") for d in self.decos)

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d %s" % (self.mod.rel, getattr(n, "lineno", 0), self.qual)

    def params(self):
        """[(name, annotation, default-node-or-None, kind)], kind in pos/kw/var/varkw."""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = []
        nd = len(pos) - len(a.defaults)
        for i, p in enumerate(pos):
            out.append((p.arg, getattr(p, "annotation", None), a.defaults[i - nd] if i >= nd else None, "pos"))
        if a.vararg:
            out.append((a.vararg.arg, None, None, "var"))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((p.arg, p.annotation, d, "kw"))
        if a.kwarg:
            out.append((a.kwarg.arg, None, None, "varkw"))
        return out


class ClassInfo:
    def __init__(self, mod, node, prog):
        self.mod, self.node, self.prog = mod, node, prog
        self.name = node.name
        self.methods, self.getters, self.setters = {}, {}, {}
        self.attrs = {}      # class-level assignments name -> expr
        self.ann = {}        # class-level annotations name -> (annotation, default)
        self.ann_order = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(mod, s, self)
                if f.is_property:
                    self.getters[f.name] = f
                elif f.is_setter:
                    self.setters[f.name] = f
                elif any(d.endswith(".deleter") for d in f.decos):
                    pass
                else:
                    self.methods[f.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = (s.annotation, s.value)
                self.ann_order.append(s.target.id)
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self._mro = None

    @property
    def qual(self):
        return self.mod.name + "." + self.name

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.prog.resolve_expr(self.mod, b)
            out.append(r)
        return out

    def mro(self):
        """C3 over repository classes; external bases are listed by dotted name at the end."""
        if self._mro is None:
            self._mro = [self]          # guards against cycles
            seqs, ext = [], []
            direct = []
            for b in self.bases():
                if isinstance(b, ClassInfo):
                    seqs.append(list(b.mro()))
                    direct.append(b)
                else:
                    ext.append(b)
            seqs.append(direct)
            res = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        del s[0]
            self._mro = res
        return self._mro

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases():
                if not isinstance(b, ClassInfo):
                    out.append(b[1] if isinstance(b, tuple) else str(b))
        return out

    @property
    def is_enum(self):
        return any("enum." in str(b) for b in self.ext_bases())

    def find(self, table, name):
        for c in self.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def find_method(self, name):
        return self.find("methods", name)

    def find_after(self, after, table, name):
        m = self.mro()
        i = m.index(after) + 1 if after in m else 0
        for c in m[i:]:
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def subclass_of(self, other):
        return other in self.mro()

    def abstract_names(self):
        """Names still abstract in this class."""
        out = set()
        names = set()
        for c in self.mro():
            names |= set(c.methods) | set(c.getters) | set(c.setters)
        for n in names:
            for c in self.mro():
                f = c.methods.get(n) or c.getters.get(n) or c.setters.get(n)
                if f is not None or n in c.attrs:
                    if f is not None and f.is_abstract:
                        out.add(n)
                    break
        return out

    def dataclass_fields(self):
        out = []
        for c in reversed(self.mro()):
            if c.is_dataclass:
                for n in c.ann_order:
                    ann, d = c.ann[n]
                    out = [o for o in out if o[0] != n] + [(n, ann, d)]
        return out


class ModInfo:
    def __init__(self, name, path, rel, is_pkg, src):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        self.src = src
        self.tree = ast.parse(src, path)
        self.scope = {}
        self.consts = {}


class Program:
    def __init__(self, root="/repo", pkg="theboss"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        for d, ds, fs in os.walk(os.path.join(root, pkg)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    is_pkg = name.endswith(".__init__")
                    if is_pkg:
                        name = name[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        self.mods[name] = ModInfo(name, p, rel, is_pkg, fh.read())
        self.classes = {}
        for m in self.mods.values():
            self._scope(m)
        for m in self.mods.values():
            for v in list(m.scope.values()):
                if isinstance(v, ClassInfo) and v.mod is m:
                    self.classes[v.name] = v

    def _scope(self, m):
        def imp(s, scope):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        scope[a.asname] = ("modref", a.name)
                    else:
                        scope[a.name.split(".")[0]] = ("modref", a.name.split(".")[0])
            else:
                base = self.abs_from(m, s)
                for a in s.names:
                    scope[a.asname or a.name] = ("from", base, a.name)

        def walk(body):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    imp(s, m.scope)
                elif isinstance(s, ast.ClassDef):
                    m.scope[s.name] = ClassInfo(m, s, self)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.scope[s.name] = FuncInfo(m, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                m.scope[x.id] = ("const", m, s.value if isinstance(t, ast.Name) else None)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.scope[s.target.id] = ("const", m, s.value)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                    walk(s.body)
                    walk(getattr(s, "orelse", []))
                elif isinstance(s, ast.Try):
                    walk(s.body)
                    for h in s.handlers:
                        walk(h.body)
                    walk(s.orelse)
                    walk(s.finalbody)
        self.imp = imp
        walk(m.tree.body)

    def abs_from(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def resolve_binding(self, b, depth=0):
        """-> FuncInfo | ClassInfo | ('mod', name) | ('ext', dotted) | ('const', mod, expr) | None"""
        if depth > 12 or b is None:
            return None
        if isinstance(b, (FuncInfo, ClassInfo)):
            return b
        if b[0] == "modref":
            return ("mod", b[1]) if b[1] in self.mods else ("ext", b[1])
        if b[0] == "from":
            base, name = b[1], b[2]
            if base in self.mods:
                m = self.mods[base]
                if name in m.scope:
                    return self.resolve_binding(m.scope[name], depth + 1)
                if base + "." + name in self.mods:
                    return ("mod", base + "." + name)
                return ("missing", base, name)
            if base == self.pkg or base.startswith(self.pkg + "."):
                return ("missing", base, name)
            return ("ext", base + "." + name)
        return b

    def resolve_name(self, m, name):
        if name in m.scope:
            return self.resolve_binding(m.scope[name])
        if hasattr(builtins, name):
            return ("ext", "builtins." + name)
        return None

    def resolve_attr(self, r, attr):
        if isinstance(r, tuple) and r[0] == "mod":
            m = self.mods[r[1]]
            if attr in m.scope:
                return self.resolve_binding(m.scope[attr])
            if r[1] + "." + attr in self.mods:
                return ("mod", r[1] + "." + attr)
            return ("missing", r[1], attr)
        if isinstance(r, tuple) and r[0] == "ext":
            return ("ext", r[1] + "." + attr)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            return self.resolve_attr(r, e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        return None

    def functions(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
