"""Loads /repo/causy as a resolved program: modules, classes (with MRO), functions, imports."""
import ast
import os


class AnalysisError(Exception):
    """The checker cannot find what it must analyse (vanished anchor, unparsable source)."""


class PrivateAnchor(Exception):
    """a non-public helper is gone: the obligation is undecided, not broken"""


def private(name):
    return name.startswith("_") and not name.endswith("__")


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self._gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node)
            )
        return self._gen

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_abstract(self):
        if any(d.split(".")[-1] == "abstractmethod" for d in self.decorators):
            return True
        return False

    @property
    def loc(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)


def walk_own(fn):
    """walk a function body without entering nested functions/classes/lambdas"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            stack.append(c)


class ClassInfo:
    def __init__(self, qual, node, module, outer=None):
        self.qual, self.node, self.module, self.outer = qual, node, module, outer
        self.name = node.name
        self.methods, self.attrs, self.nested = {}, {}, {}
        self.attr_order = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FuncInfo(qual + "." + s.name, s, module, self)
            elif isinstance(s, ast.ClassDef):
                self.nested[s.name] = ClassInfo(qual + "." + s.name, s, module, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = (s.annotation, s.value)
                self.attr_order.append(s.target.id)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = (None, s.value)
                        self.attr_order.append(t.id)
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def loc(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)


class Module:
    def __init__(self, name, path, relpath, tree, src):
        self.name, self.path, self.relpath, self.tree, self.src = name, path, relpath, tree, src
        self.defs = {}


class Program:
    def __init__(self, root="/repo", package="causy", extra=()):
        self.root, self.package = root, package
        self.modules, self.classes, self.funcs = {}, {}, {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError("no package directory %s" % base)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("__pycache__", "node_modules")]
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))
        # reference models: (module name, path) parsed next to the repository, never executed
        for name, path in extra:
            src = open(path, encoding="utf-8").read()
            m = self.modules[name] = Module(name, path, os.path.relpath(path, os.path.dirname(os.path.dirname(path))), ast.parse(src), src)
            m.is_pkg = False
        for m in self.modules.values():
            self._index(m)
        self._mro = {}
        self._subs = None

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        if parts[-1] == "__init__":
            parts = parts[:-1]
        name = ".".join(parts)
        src = open(path, encoding="utf-8").read()
        try:
            tree = ast.parse(src, filename=rel)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (rel, e))
        self.modules[name] = Module(name, path, rel, tree, src)
        self.modules[name].is_pkg = path.endswith("__init__.py")

    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m.name + "." + s.name, s, m)
                m.defs[s.name] = ("func", fi)
                self.funcs[fi.qual] = fi
            elif isinstance(s, ast.ClassDef):
                ci = ClassInfo(m.name + "." + s.name, s, m)
                m.defs[s.name] = ("class", ci)
                self._reg_class(ci)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ("assign", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.defs[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split(".")[0]
                    m.defs[nm] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    m.defs[a.asname or a.name] = ("from", self._abs(m, s), a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self._index_body(m, s.body)

    def _abs(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def _reg_class(self, ci):
        self.classes[ci.qual] = ci
        for f in ci.methods.values():
            self.funcs[f.qual] = f
        for n in ci.nested.values():
            self._reg_class(n)

    # -------------------------------------------------- resolution
    def resolve(self, m, name, depth=0):
        """-> ('class',ci) ('func',fi) ('assign',expr,module) ('module',name) ('ext',dotted) or None"""
        if depth > 10:
            return None
        d = m.defs.get(name)
        if d is None:
            sub = m.name + "." + name
            if sub in self.modules:
                return ("module", sub)
            return None
        if d[0] in ("class", "func"):
            return d
        if d[0] == "assign":
            return ("assign", d[1], m, name)
        if d[0] == "module":
            return ("module", d[1])
        if d[0] == "from":
            return self.resolve_from(d[1], d[2], depth)
        return None

    def resolve_from(self, modname, name, depth=0):
        if modname in self.modules:
            sub = modname + "." + name
            r = self.resolve(self.modules[modname], name, depth + 1)
            if r is not None:
                return r
            if sub in self.modules:
                return ("module", sub)
            return ("ext", modname + "." + name)
        return ("ext", modname + "." + name)

    def resolve_expr(self, m, node, cls=None):
        """resolve a dotted-name/subscript expression used as base class or annotation"""
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(m, node.value, cls)
        if isinstance(node, ast.Name):
            r = self.resolve(m, node.id)
            if r is None:
                c = cls
                while c is not None:
                    if node.id in c.nested:
                        return ("class", c.nested[node.id])
                    c = c.outer
                return ("ext", "builtins." + node.id)
            return r
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(m, node.value, cls)
            if r is None:
                return None
            if r[0] == "module":
                return self.resolve_from(r[1], node.attr)
            if r[0] == "class":
                for c in self.mro(r[1]):
                    if isinstance(c, ClassInfo) and node.attr in c.nested:
                        return ("class", c.nested[node.attr])
                return None
            if r[0] == "ext":
                return ("ext", r[1] + "." + node.attr)
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr(m, ast.parse(node.value, mode="eval").body, cls)
            except SyntaxError:
                return None
        return None

    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            r = self.resolve_expr(ci.module, b, ci.outer)
            if r is None:
                continue
            if r[0] == "class":
                out.append(r[1])
            elif r[0] == "ext":
                out.append(r[1])
        return out

    def mro(self, ci):
        r = self._mro.get(ci.qual)
        if r is not None:
            return r
        # C3
        seqs = []
        bs = self.bases(ci)
        for b in bs:
            seqs.append(list(self.mro(b)) if isinstance(b, ClassInfo) else [b])
        seqs.append(list(bs))
        res = [ci]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            for s in seqs:
                if c in s:
                    s.remove(c)
        self._mro[ci.qual] = res
        return res

    def is_subclass(self, ci, other_qual):
        for c in self.mro(ci):
            if (c.qual if isinstance(c, ClassInfo) else c) == other_qual:
                return True
        return False

    def ext_bases(self, ci):
        return [c for c in self.mro(ci) if not isinstance(c, ClassInfo)]

    def find_method(self, ci, name, after=None):
        seen = after is None
        for c in self.mro(ci):
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, ci, name):
        """(annotation, value, owner) of a class attribute"""
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.attrs:
                a, v = c.attrs[name]
                return a, v, c
        return None

    def subclasses(self, qual):
        return [c for c in self.classes.values() if c.qual != qual and self.is_subclass(c, qual)]

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            # moved class: accept a unique class of that simple name
            n = qual.split(".")[-1]
            cands = [x for x in self.classes.values() if x.name == n and x.outer is None]
            if len(cands) == 1:
                return cands[0]
            raise AnalysisError("class %s not found" % qual)
        return c

    def method(self, qual, name):
        c = self.cls(qual)
        f = self.find_method(c, name)
        if f is None:
            raise (PrivateAnchor if private(name) else AnalysisError)("method %s.%s not found" % (qual, name))
        return f

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            n = qual.split(".")[-1]
            cands = [x for x in self.funcs.values() if x.name == n and x.cls is None]
            if len(cands) == 1:
                return cands[0]
            raise (PrivateAnchor if private(n) else AnalysisError)("function %s not found" % qual)
        return f

    def is_enum(self, ci):
        return any(b in ("enum.Enum", "enum.IntEnum", "enum.StrEnum") for b in self.ext_bases(ci))

    def is_model(self, ci):
        return "pydantic.BaseModel" in self.ext_bases(ci) or "pydantic.main.BaseModel" in self.ext_bases(ci)

    def is_dataclass(self, ci):
        return any(d.split("(")[0].split(".")[-1] == "dataclass" for d in ci.decorators)
