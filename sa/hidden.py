"""State kept between calls: memoised answers that depend on more than the key they are kept under, and mutable defaults.

The interpreter looks at one call in an arbitrary state. What a function remembers from earlier calls is outside that view, so it is
decided here, for every function the property analysed: if an answer is remembered (memoising decorator, module or class level
container, attribute of the instance, default argument) it must not depend on anything that can change while it is remembered."""
import ast

from .core import UNDECIDED, VIOLATED
from .program import walk_own

MEMO = ("lru_cache", "cache", "cached_property", "memoize")
IO = {"open", "os.listdir", "os.path.exists", "os.path.isfile", "os.path.getmtime", "os.stat", "os.scandir", "os.walk", "glob.glob", "os.getcwd", "os.environ", "os.path.realpath", "importlib.import_module", "datetime.now", "datetime.utcnow", "time.time", "random.random", "random.shuffle", "random.sample", "random.choice", "random.randint", "torch.rand", "torch.randn", "torch.normal", "uuid.uuid4"}
MUTATORS = {"append", "add", "update", "extend", "insert", "setdefault", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse", "__setitem__", "move_to_end"}
STORE = {"append", "add", "update", "extend", "insert", "setdefault", "__setitem__"}
FORGET = {"pop", "popitem", "remove", "discard", "clear"}
INITS = ("__init__", "__post_init__", "model_post_init", "__new__", "__init_subclass__")
CONTAINERS = ("dict", "list", "set", "defaultdict", "OrderedDict", "WeakKeyDictionary", "WeakValueDictionary", "Counter", "deque")


def attr_root(n):
    """attribute (or name) that a subscript chain starts from"""
    while isinstance(n, ast.Subscript):
        n = n.value
    return n


def mutated_attributes(prog):
    out = set()
    for f in all_functions(prog):
        if f.name in INITS:
            continue
        for n in ast.walk(f.node):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for x in ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    r = attr_root(x)
                    if isinstance(r, ast.Attribute):
                        out.add(r.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r = attr_root(n.func.value)
                if isinstance(r, ast.Attribute):
                    out.add(r.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out - {"name", "path", "pool", "author", "__bases__", "__dict__"}  # settings that are given once


def all_functions(prog):
    for f in prog.funcs.values():
        if f.qual.startswith("causy."):
            yield f
    for c in prog.classes.values():
        if c.qual.startswith("causy."):
            for f in c.methods.values():
                yield f


def find(prog, qual):
    if qual in prog.funcs:
        return prog.funcs[qual]
    c, _, m = qual.rpartition(".")
    if c in prog.classes:
        return prog.classes[c].methods.get(m)
    return None


class Container:
    """something that outlives a call"""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def key(self):
        return self.kind, self.name


def is_container(v):
    return isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in CONTAINERS


def containers(fi):
    """matcher: expression -> Container that it denotes, or None"""
    node = fi.node
    a = node.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    own = [n for n in walk_own(node)]
    globs = {x for n in own if isinstance(n, ast.Global) for x in n.names}
    local = {n.id for n in own if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(params)
    local -= globs
    modlevel = {}
    for s in fi.module.tree.body:
        for t in s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []:
            if isinstance(t, ast.Name):
                modlevel[t.id] = s.value
    defaults = {}
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if is_container(d):
            defaults[x.arg] = d
    first = params[0] if fi.cls is not None and params and not fi.is_static else None
    alias = {}

    def match(e):
        if isinstance(e, ast.Name):
            if e.id in alias:
                return alias[e.id]
            if e.id in defaults:
                return Container("default", e.id)
            if e.id not in local and e.id in modlevel:
                v = modlevel[e.id]
                if v is not None and is_container(v):
                    return Container("module", e.id)
                if e.id in globs:
                    return Container("module", e.id)
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                b = e.value.id
                if b == first and first:
                    if e.attr == "__dict__":
                        return None
                    lev = "class" if fi.cls is not None and fi.is_classmethod or fi.cls is not None and e.attr in fi.cls.attrs and fi.cls.attrs[e.attr][0] is None else "instance"
                    return Container(lev, e.attr)
                d = fi.module.defs.get(b)
                if b not in local and d is not None and d[0] == "class":
                    return Container("class", e.attr)
                if b not in local and d is not None and d[0] == "func":
                    return Container("module", b + "." + e.attr)
            if isinstance(e.value, ast.Attribute) and e.value.attr == "__class__" or isinstance(e.value, ast.Call) and ast.unparse(e.value.func) == "type":
                return Container("class", e.attr)
            return None
        if isinstance(e, ast.Call) and first:
            s = ast.unparse(e.func)
            if s in (first + ".__dict__.setdefault", first + ".__dict__.get") and e.args and isinstance(e.args[0], ast.Constant):
                return Container("instance", e.args[0].value)
            if s == "getattr" and len(e.args) > 1 and ast.unparse(e.args[0]) == first and isinstance(e.args[1], ast.Constant):
                return Container("instance", e.args[1].value)
        return None

    for n in own:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in local:
            c = match(n.value)
            if c is not None and (c.kind != "instance" or isinstance(n.value, ast.Call)):
                alias[n.targets[0].id] = c
            elif c is not None:
                alias.setdefault(n.targets[0].id, c)
    return match, params, first, own


class Hidden:
    def __init__(self, prog):
        self.prog = prog
        self.mut = mutated_attributes(prog)
        self.byname = {}
        for f in all_functions(prog):
            if f.cls is not None:
                self.byname.setdefault(f.name, []).append(f)

    def callee(self, fi, call):
        f = call.func
        if isinstance(f, ast.Name):
            d = fi.module.defs.get(f.id)
            if d is not None and d[0] == "func":
                return d[1]
            if d is None:
                for s in fi.module.tree.body:
                    if isinstance(s, ast.ImportFrom) and s.module and any((x.asname or x.name) == f.id for x in s.names):
                        n = next(x.name for x in s.names if (x.asname or x.name) == f.id)
                        return self.prog.funcs.get(s.module + "." + n)
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "self" and fi.cls is not None:
                try:
                    return self.prog.find_method(fi.cls, f.attr)
                except Exception:
                    return None
            c = self.byname.get(f.attr, [])
            return c[0] if len(c) == 1 else None
        return None

    def depends(self, fi, skip, seen=None):
        """(things that can change, external state) that the answer of a function is computed from"""
        seen = set() if seen is None else seen
        if fi.qual in seen:
            return set(), set()
        seen.add(fi.qual)
        attrs, io = set(), set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in self.mut and n.attr not in skip:
                attrs.add(n.attr)
            if isinstance(n, ast.Attribute) and ast.unparse(n) == "os.environ":
                io.add("os.environ")
            if isinstance(n, ast.Call):
                s = ast.unparse(n.func)
                if s in IO or any(s.endswith("." + x) for x in ("now", "import_module", "getmtime")):
                    io.add(s)
                if isinstance(n.func, ast.Attribute) and n.func.attr == "hash" and not n.args:
                    for g in self.byname.get("hash", []):
                        x, y = self.depends(g, skip, seen)
                        io |= y
                g = self.callee(fi, n)
                if g is not None:
                    x, y = self.depends(g, skip, seen)
                    attrs |= x
                    io |= y
        return attrs, io

    def judge(self, ctx, fi, what, level, skip, extra=""):
        rule = ctx.prop + ".remembered"
        nm = "%s remembers its answer (%s)" % (fi.qual, what)
        attrs, io = self.depends(fi, skip)
        if extra:
            return ctx.add(rule, nm, VIOLATED, extra, fi.loc)
        dep = sorted(attrs | (io if level != "instance" else set()))
        if dep:
            return ctx.add(rule, nm, VIOLATED, "it depends on %s, which can change afterwards" % ", ".join(dep[:5]), fi.loc)
        if io:
            ctx.add(rule, nm, UNDECIDED, "it depends on %s" % ", ".join(sorted(io)[:5]), fi.loc)

    def function(self, ctx, fi):
        for d in getattr(fi.node, "decorator_list", []):
            s = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
            if s in MEMO:
                self.judge(ctx, fi, "decorator " + s, "instance" if s == "cached_property" else "module", set())
        if not isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)) or fi.name in INITS:
            return
        match, params, first, own = containers(fi)
        writes, tests, keys = {}, {}, {}

        def note(table, c, n):
            table.setdefault(c.key(), []).append(n)

        for n in own:
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Subscript):
                        c = match(t.value)
                        if c:
                            note(writes, c, n)
                            note(keys, c, t.slice)
                    elif isinstance(t, (ast.Attribute, ast.Name)):
                        c = match(t) if isinstance(t, ast.Attribute) else None
                        if isinstance(t, ast.Name) and any(isinstance(g, ast.Global) and t.id in g.names for g in own):
                            c = Container("module", t.id)
                        if c and c.kind in ("instance", "class", "module"):
                            note(writes, c, n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORE:
                c = match(n.func.value)
                if c:
                    note(writes, c, n)
                    if n.func.attr == "setdefault" and n.args:
                        note(keys, c, n.args[0])
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                c = match(n.comparators[0])
                if c:
                    note(tests, c, n)
                    note(keys, c, n.left)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                c = match(n.left)
                if c:
                    note(tests, c, n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args:
                c = match(n.func.value)
                if c:
                    note(tests, c, n)
                    note(keys, c, n.args[0])
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and ast.unparse(n.args[0]) == first:
                note(tests, Container("instance", n.args[1].value), n)
            if isinstance(n, ast.If) or isinstance(n, ast.IfExp):
                for x in ast.walk(n.test):
                    c = match(x)
                    if c and isinstance(x, (ast.Name, ast.Attribute)):
                        note(tests, c, n)
            if isinstance(n, ast.ExceptHandler) and n.type is not None and "KeyError" in ast.unparse(n.type):
                for k in list(writes) or []:
                    tests.setdefault(k, []).append(n)
        local = {}
        for n in own:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                local.setdefault(n.targets[0].id, []).append(n.value)
            if isinstance(n, ast.NamedExpr):
                local.setdefault(n.target.id, []).append(n.value)

        def reaches(e, k, seen):
            for x in ast.walk(e):
                if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops):
                    continue
                c = match(x)
                if c and c.key() == k:
                    return True
                if isinstance(x, ast.Name) and x.id in local and x.id not in seen:
                    seen.add(x.id)
                    if any(reaches(v, k, seen) for v in local[x.id]):
                        return True
            return False

        def names(e, seen):
            out = set()
            for x in ast.walk(e):
                if isinstance(x, ast.Name):
                    out.add(x.id)
                    if x.id in local and x.id not in seen:
                        seen.add(x.id)
                        for v in local[x.id]:
                            out |= names(v, seen)
            return out

        outs = [n.value for n in own if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None]
        for k in set(writes):
            kind, name = k
            if kind == "default":
                ctx.add(ctx.prop + ".remembered", "%s keeps what earlier calls put into its default argument %s" % (fi.qual, name), VIOLATED, "the default is one object for all calls and is changed here", fi.loc)
                continue
            if k not in tests or not any(reaches(o, k, set()) for o in outs):
                continue
            if kind == "instance" and self.forgotten(fi, name):
                ctx.add(ctx.prop + ".remembered", "%s remembers its answer (self.%s)" % (fi.qual, name), UNDECIDED, "it is reset elsewhere", fi.loc)
                continue
            extra = ""
            ks = keys.get(k, [])
            if ks:
                known = set()
                for e in ks:
                    known |= names(e, set())
                used = {n.id for n in own if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                lost = [p for p in params if p != first and p in used and p not in known]
                if lost:
                    extra = "answers are kept without regard to %s" % ", ".join(lost)
            self.judge(ctx, fi, "%s %s" % (kind, name), kind, {name}, extra)
        # a default argument that is handed on to a call of the same function is changed there
        for n in own:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                c = match(n.func.value)
                if c and c.kind == "default" and c.key() not in writes:
                    ctx.add(ctx.prop + ".remembered", "%s keeps what earlier calls put into its default argument %s" % (fi.qual, c.name), VIOLATED, "the default is one object for all calls and is changed here", fi.loc)

    def forgotten(self, fi, name):
        for f in all_functions(self.prog):
            if f.qual == fi.qual or f.name in INITS:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in FORGET and isinstance(attr_root(n.func.value), ast.Attribute) and attr_root(n.func.value).attr == name:
                    return True
                if isinstance(n, ast.Delete) and any(isinstance(attr_root(t), ast.Attribute) and attr_root(t).attr == name for t in n.targets):
                    return True
        return False


def check(ctx):
    h = Hidden(ctx.prog)
    for q in sorted(ctx.analysed):
        fi = find(ctx.prog, q)
        if fi is not None:
            h.function(ctx, fi)
    ctx.counts["functions searched for remembered answers"] = len(ctx.analysed)
