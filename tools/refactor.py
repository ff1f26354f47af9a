"""developer tool: behaviour preserving rewrites of all of causy (or some functions), on which every check has to stay quiet.
usage: refactor.py [--tests] NAME...      NAME = a transformation, or NAME:file-suffix, or NAME:file-suffix:function"""
import ast, copy, os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUN + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

def own(fn):
    """nodes of the function without nested scopes' bodies (comprehensions included as own)"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUN + (ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))

def stored(nodes):
    out = set()
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
                out.add(m.id)
            if isinstance(m, FUN + (ast.ClassDef,)): out.add(m.name)
            if isinstance(m, ast.ExceptHandler) and m.name: out.add(m.name)
            if isinstance(m, (ast.Import, ast.ImportFrom)):
                for a in m.names: out.add((a.asname or a.name).split(".")[0])
    return out

def loaded(nodes):
    return {m.id for n in nodes for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load)}

def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())

def simple(fn):
    return not any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn))

def blocks(fn):
    todo = [fn.body]
    while todo:
        b = todo.pop()
        yield b
        for s in b:
            if isinstance(s, FUN + (ast.ClassDef,)): continue
            for f in ("body", "orelse", "finalbody"):
                v = getattr(s, f, None)
                if isinstance(v, list) and v: todo.append(v)
            for h in getattr(s, "handlers", []): todo.append(h.body)

def edit_blocks(fn, f):
    """f(stmt, rest, fn) -> list of statements or None"""
    for b in blocks(fn):
        i = 0
        while i < len(b):
            r = f(b[i], b[i + 1:], fn)
            if r is not None:
                b[i:i + 1] = r
                i += len(r)
            else:
                i += 1

class Uid:
    n = 0
def uid(p):
    Uid.n += 1
    return "%s_%d" % (p, Uid.n)
def name(i, ctx=None): return ast.Name(i, ctx or ast.Load())
def assign(i, v): return ast.Assign([name(i, ast.Store())], v, lineno=0)
def neg(e): return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)

def rename_locals(fn):
    if not simple(fn): return
    if any(isinstance(n, FUN + (ast.ClassDef, ast.Lambda)) for n in own(fn)): return
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars") for n in own(fn)): return
    imp = set()
    for n in own(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            imp |= {(a.asname or a.name).split(".")[0] for a in n.names}
    ls = stored(fn.body) - params(fn) - imp
    for n in own(fn):
        if isinstance(n, ast.Name) and n.id in ls: n.id += "_renamed"
        if isinstance(n, ast.ExceptHandler) and n.name in ls: n.name += "_renamed"

def invert_if(fn):
    for n in own(fn):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body

def leaves(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

def early_else(fn):
    for b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                early_block(s.orelse)
                break
def early_block(b):
    for i, s in enumerate(b):
        if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and b[i + 1:]:
            s.orelse = b[i + 1:]
            del b[i + 1:]
            early_block(s.orelse)
            return

def guard_clause(fn):
    """if c: A(leaves) else: B  ->  if c: A; B"""
    def f(s, rest, fn):
        if isinstance(s, ast.If) and s.orelse and leaves(s.body):
            o = s.orelse
            s.orelse = []
            return [s] + o
    edit_blocks(fn, f)

def temp_return(fn):
    def f(s, rest, fn):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = uid("answer")
            return [assign(v, s.value), ast.Return(name(v))]
    edit_blocks(fn, f)

def swap_eq(fn):
    for n in own(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if type(n.ops[0]) in sw:
                n.ops = [sw[type(n.ops[0])]()]
                n.left, n.comparators = n.comparators[0], [n.left]

def comp_to_loop(fn):
    def f(s, rest, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
            c = s.value
            targets = stored([g.target for g in c.generators])
            ren = {t: uid(t) for t in targets}
            for m in ast.walk(c):
                if isinstance(m, ast.Name) and m.id in ren: m.id = ren[m.id]
            v = uid("acc")
            if isinstance(c, ast.ListComp):
                init, step = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [c.elt], []))
            elif isinstance(c, ast.SetComp):
                init, step = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(v), "add", ast.Load()), [c.elt], []))
            else:
                init, step = ast.Dict([], []), ast.Assign([ast.Subscript(name(v), c.key, ast.Store())], c.value, lineno=0)
            body = [step]
            for g in reversed(c.generators):
                for t in reversed(g.ifs): body = [ast.If(t, body, [])]
                body = [ast.For(g.target, g.iter, body, [], lineno=0)]
            s.value = name(v)
            return [assign(v, init)] + body + [s]
    edit_blocks(fn, f)

def loop_to_comp(fn):
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            a, l = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts \
                    and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1:
                s, ifs = l.body[0], []
                while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                    ifs.append(s.test)
                    s = s.body[0]
                x = a.targets[0].id
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" \
                        and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == x and not (x in loaded([s.value.args[0]] + ifs)):
                    a.value = ast.ListComp(s.value.args[0], [ast.comprehension(l.target, l.iter, ifs, 0)])
                    del b[i + 1]
            i += 1

def enumerate_loops(fn):
    for n in own(fn):
        if isinstance(n, ast.For):
            n.target = ast.Tuple([name(uid("pos"), ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(name("enumerate"), [n.iter], [])

def listed(fn, l):
    """a loop over something that can be listed first: no generator laziness involved"""
    return isinstance(l, ast.For) and not l.orelse and not any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(fn))

def index_range(fn):
    def f(s, rest, fn):
        if listed(fn, s):
            q, i = uid("seq"), uid("i")
            return [assign(q, ast.Call(name("list"), [s.iter], [])),
                    ast.For(name(i, ast.Store()), ast.Call(name("range"), [ast.Call(name("len"), [name(q)], [])], []),
                            [ast.Assign([s.target], ast.Subscript(name(q), name(i), ast.Load()), lineno=0)] + s.body, [], lineno=0)]
    edit_blocks(fn, f)

def while_index(fn):
    def f(s, rest, fn):
        if listed(fn, s):
            q, i = uid("seq"), uid("i")
            return [assign(q, ast.Call(name("list"), [s.iter], [])), assign(i, ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name("len"), [name(q)], [])]),
                              [ast.Assign([s.target], ast.Subscript(name(q), name(i), ast.Load()), lineno=0), ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [], lineno=0)]
    edit_blocks(fn, f)

def wrap(fn, cls):
    """body moved into a helper; returns helper or None"""
    if fn.name.startswith("__") or isinstance(fn, ast.AsyncFunctionDef): return None
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in ast.walk(fn)): return None
    a = fn.args
    h = copy.deepcopy(fn)
    h.decorator_list = []
    h.name = ("_do" + ("" if fn.name.startswith("_") else "_pub_") + fn.name.replace("__", "dunder_")) + ("_" + cls.name.lower() if cls else "")
    if isinstance(h.body[0], ast.Expr) and isinstance(h.body[0].value, ast.Constant) and len(h.body) > 1:
        h.body = h.body[1:]
    h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
    pos = [x.arg for x in a.posonlyargs + a.args]
    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
    klass = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list)
    if cls:
        if not pos or static or klass: return None
        func = ast.Attribute(name(pos[0]), h.name, ast.Load())
        args = [name(p) for p in pos[1:]]
    else:
        func = name(h.name)
        args = [name(p) for p in pos]
    if a.vararg: args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
    kws = [ast.keyword(k.arg, name(k.arg)) for k in a.kwonlyargs]
    if a.kwarg: kws.append(ast.keyword(None, name(a.kwarg.arg)))
    doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
    fn.body = doc + [ast.Return(ast.Call(func, args, kws))]
    return h

def cond_temp(fn):
    def f(s, rest, fn):
        if isinstance(s, ast.If):
            v = uid("holds")
            t, s.test = s.test, name(v)
            return [assign(v, t), s]
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If):
                v = uid("holds")
                t, s.test = s.test, name(v)
                b[i:i + 1] = [assign(v, t), s]
                i += 1
            i += 1

def split_and(fn):
    for n in own(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            parts = n.test.values
            inner = n.body
            for t in reversed(parts[1:]): inner = [ast.If(t, inner, [])]
            n.test, n.body = parts[0], inner

def merge_if(fn):
    for n in own(fn):
        while isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            n.test, n.body = ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body

def split_or(fn):
    """if a or b: leave  -> if a: leave; if b: leave"""
    def f(s, rest, fn):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and leaves(s.body):
            return [ast.If(t, copy.deepcopy(s.body), []) for t in s.test.values]
    edit_blocks(fn, f)

def demorgan(fn):
    for n in own(fn):
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))

def not_in(fn):
    for n in own(fn):
        for f, v in ast.iter_fields(n):
            def g(e):
                if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotIn, ast.IsNot, ast.NotEq)):
                    e.ops = [{ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}[type(e.ops[0])]()]
                    return ast.UnaryOp(ast.Not(), e)
                return e
            if isinstance(v, ast.expr): setattr(n, f, g(v))
            elif isinstance(v, list): setattr(n, f, [g(x) if isinstance(x, ast.expr) else x for x in v])

def ternary_to_if(fn):
    def f(s, rest, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
    edit_blocks(fn, f)

def if_to_ternary(fn):
    def f(s, rest, fn):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == len(b.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value), lineno=0)]
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value and rest and len(rest) == 1 and isinstance(rest[0], ast.Return) and rest[0].value:
            return None
    edit_blocks(fn, f)

def alias_self(fn):
    if not fn.args.args or fn.args.args[0].arg != "self" or fn.name.startswith("__"): return
    for at in ("edges", "nodes", "_reverse_edges", "graph", "algorithm", "pool", "edge_history", "action_history"):
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr == at and isinstance(n.value, ast.Name) and n.value.id == "self"]
        if len(uses) < 2 or any(not isinstance(u.ctx, ast.Load) for u in uses): continue
        class T(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n in uses: return name("the_" + at)
                return n
        fn.body = [T().visit(s) for s in fn.body]
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, assign("the_" + at, ast.Attribute(name("self"), at, ast.Load())))

def append_plus(fn):
    for n in own(fn):
        pass
    def f(s, rest, fn):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) \
                and s.value.func.value.id in {m.targets[0].id for m in own(fn) if isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name) and isinstance(m.value, ast.List)} and len(s.value.args) == 1:
            return [ast.AugAssign(ast.Name(s.value.func.value.id, ast.Store()), ast.Add(), ast.List([s.value.args[0]], ast.Load()))]
    edit_blocks(fn, f)

def fstring_format(fn):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            self.generic_visit(n)
            if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values): return n
            fmt = "".join("{}" if isinstance(v, ast.FormattedValue) else v.value.replace("{", "{{").replace("}", "}}") for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])
    fn.body = [T().visit(s) for s in fn.body]

def noop(fn):
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(k, assign("unused_marker", ast.Constant(None)))
    for n in own(fn):
        if isinstance(n, (ast.For, ast.While)): n.body.insert(0, ast.Pass())

def annotate(fn):
    def f(s, rest, fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and simple(fn):
            return [ast.AnnAssign(s.targets[0], name("object"), s.value, 1)]
    edit_blocks(fn, f)

def tuple_unpack(fn):
    """two following assignments of independent names merged into a tuple assignment"""
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            a, c = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (a, c)) and a.targets[0].id not in loaded([c.value]) and a.targets[0].id != c.targets[0].id:
                b[i:i + 2] = [ast.Assign([ast.Tuple([a.targets[0], c.targets[0]], ast.Store())], ast.Tuple([a.value, c.value], ast.Load()), lineno=0)]
            i += 1

def closure_body(fn):
    """bodies of for loops moved to a nested function"""
    if not simple(fn) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in own(fn)): return
    for b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            l = b[i]
            if not isinstance(l, ast.For) or l.orelse: continue
            if any(isinstance(m, (ast.Return, ast.Break, ast.Continue, ast.Lambda) + FUN) for s in l.body for m in ast.walk(s)): continue
            ws = stored(l.body)
            tg = stored([l.target])
            others = set()
            inside = {id(m) for s in l.body for m in ast.walk(s)}
            for m in ast.walk(fn):
                if isinstance(m, ast.Name) and id(m) not in inside: others.add(m.id)
            if (ws & others) or (ws & params(fn)): continue
            if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "super" for s in l.body for m in ast.walk(s)): continue
            h = uid("each")
            args = sorted(tg)
            d = ast.FunctionDef(h, ast.arguments([], [ast.arg(t) for t in args], None, [], [], None, []), l.body, [], None, None, lineno=0)
            if hasattr(d, "type_params"): d.type_params = []
            l.body = [ast.Expr(ast.Call(name(h), [name(t) for t in args], []))]
            b.insert(i, d)

def while_iter(fn):
    def f(s, rest, fn):
        if isinstance(s, ast.For) and not s.orelse:
            it = uid("it")
            nx = ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(it)], []), lineno=0)], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
            return [assign(it, ast.Call(name("iter"), [s.iter], [])), ast.While(ast.Constant(True), [nx] + s.body, [])]
    edit_blocks(fn, f)

def items_loop(fn):
    """for k, v in d.items(): -> for k in d: v = d[k]"""
    for n in own(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and not n.iter.args \
                and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and all(isinstance(e, ast.Name) for e in n.target.elts) and isinstance(n.iter.func.value, (ast.Name, ast.Attribute)):
            d = n.iter.func.value
            k, v = n.target.elts
            n.target, n.iter = k, copy.deepcopy(d)
            n.body.insert(0, ast.Assign([v], ast.Subscript(d, name(k.id), ast.Load()), lineno=0))

def arg_temps(fn):
    """call arguments evaluated first, in order"""
    def f(s, rest, fn):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args) and isinstance(s.value.func, (ast.Name, ast.Attribute)):
            if isinstance(s.value.func, ast.Name) and s.value.func.id == "super": return None
            if isinstance(s.value.func, ast.Attribute) and any(isinstance(m, ast.Call) for m in ast.walk(s.value.func)): return None
            out = []
            for i, a in enumerate(s.value.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
                    v = uid("arg"); out.append(assign(v, a)); s.value.args[i] = name(v)
            for k in s.value.keywords:
                if k.arg and not isinstance(k.value, (ast.Name, ast.Constant, ast.GeneratorExp)):
                    v = uid("arg"); out.append(assign(v, k.value)); k.value = name(v)
            return out + [s] if out else None
    edit_blocks(fn, f)

def any_loop(fn):
    """if any(e for x in xs): -> flag loop; only as a whole test"""
    def f(s, rest, fn):
        if isinstance(s, (ast.If, ast.Return)):
            t = s.test if isinstance(s, ast.If) else s.value
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and len(t.args) == 1 and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and len(t.args[0].generators) == 1:
                g = t.args[0].generators[0]
                isany = t.func.id == "any"
                v = uid("found")
                test = t.args[0].elt if isany else neg(t.args[0].elt)
                body = [ast.If(test, [assign(v, ast.Constant(isany)), ast.Break()], [])]
                for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                if isinstance(s, ast.If): s.test = name(v)
                else: s.value = name(v)
                return [assign(v, ast.Constant(not isany)), ast.For(g.target, g.iter, body, [], lineno=0), s]
    edit_blocks(fn, f)

def get_default(fn):
    """`x in d and d[x]...` untouched; d.get(k) -> d[k] if k in d else None"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) in (1, 2) and isinstance(n.func.value, (ast.Name, ast.Attribute)) and isinstance(n.args[0], (ast.Constant, ast.Name)) and not n.keywords \
                    and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("api_router", "router", "requests")):
                return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(n.func.value, n.args[0], ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
            return n
    fn.body = [T().visit(s) for s in fn.body]

def continue_guard(fn):
    for n in own(fn):
        if isinstance(n, (ast.For, ast.While)) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body.pop()
            n.body += [ast.If(neg(i.test), [ast.Continue()], [])] + i.body

def continue_nest(fn):
    for n in own(fn):
        if isinstance(n, (ast.For, ast.While)):
            for k, i in enumerate(n.body):
                if isinstance(i, ast.If) and not i.orelse and len(i.body) == 1 and isinstance(i.body[0], ast.Continue) and n.body[k + 1:]:
                    n.body[k:] = [ast.If(neg(i.test), n.body[k + 1:], [])]
                    break

def walrus(fn):
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(y, ast.If):
                v = x.targets[0].id
                first = next((m for m in ast.walk(y.test) if isinstance(m, (ast.Name, ast.Call, ast.Attribute, ast.Subscript))), None)
                if isinstance(y.test, ast.Name) and y.test.id == v: y.test = ast.NamedExpr(name(v, ast.Store()), x.value); del b[i]
                elif isinstance(y.test, ast.Compare) and isinstance(y.test.left, ast.Name) and y.test.left.id == v: y.test.left = ast.NamedExpr(name(v, ast.Store()), x.value); del b[i]
                elif isinstance(y.test, ast.UnaryOp) and isinstance(y.test.operand, ast.Name) and y.test.operand.id == v: y.test.operand = ast.NamedExpr(name(v, ast.Store()), x.value); del b[i]
            i += 1

def star_kwargs(fn):
    for n in own(fn):
        if isinstance(n, ast.Call) and n.keywords and all(k.arg for k in n.keywords) and isinstance(n.func, (ast.Name, ast.Attribute)):
            n.keywords = [ast.keyword(None, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))]

def dotted(e):
    while isinstance(e, ast.Attribute): e = e.value
    return isinstance(e, ast.Name)

def match_chain(fn):
    def f(s, rest, fn):
        if not isinstance(s, ast.If): return None
        arms, cur, subj = [], s, None
        while True:
            t = cur.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Attribute) and dotted(t.comparators[0])): return None
            d = ast.dump(t.left)
            if subj is None: subj = (d, t.left)
            if subj[0] != d: return None
            arms.append((t.comparators[0], cur.body))
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If): cur = cur.orelse[0]; continue
            break
        if len(arms) < 2: return None
        cases = [ast.match_case(ast.MatchValue(v), None, b) for v, b in arms]
        if cur.orelse: cases.append(ast.match_case(ast.MatchAs(None, None), None, cur.orelse))
        return [ast.Match(subj[1], cases)]
    edit_blocks(fn, f)

def comp_to_map(fn):
    class T(ast.NodeTransformer):
        def visit_ListComp(self, c):
            self.generic_visit(c)
            if len(c.generators) == 1 and isinstance(c.generators[0].target, ast.Name):
                g = c.generators[0]
                lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
                it = g.iter
                for t in g.ifs: it = ast.Call(name("filter"), [lam(t), it], [])
                if not (isinstance(c.elt, ast.Name) and c.elt.id == g.target.id): it = ast.Call(name("map"), [lam(c.elt), it], [])
                return ast.Call(name("list"), [it], [])
            return c
    fn.body = [T().visit(s) for s in fn.body]

def unpack_index(fn):
    def f(s, rest, fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Name) and all(isinstance(e, ast.Name) and e.id != s.value.id for e in s.targets[0].elts):
            return [ast.Assign([e], ast.Subscript(name(s.value.id), ast.Constant(i), ast.Load()), lineno=0) for i, e in enumerate(s.targets[0].elts)]
    edit_blocks(fn, f)

def single_exit(fn):
    early_else(fn)
    def ret(b):
        l = b[-1]
        if isinstance(l, ast.Return) and l.value is not None: return True
        return isinstance(l, ast.If) and l.orelse and ret(l.body) and ret(l.orelse)
    def sub(b, v):
        l = b[-1]
        if isinstance(l, ast.Return): b[-1] = assign(v, l.value)
        else: sub(l.body, v); sub(l.orelse, v)
    if isinstance(fn.body[-1], ast.If) and ret(fn.body):
        v = uid("outcome")
        sub(fn.body, v)
        fn.body.append(ast.Return(name(v)))

def tree_consts(tree, pick):
    new = []
    for fn in [x for x in ast.walk(tree) if isinstance(x, FUN)]:
        if not pick(fn): continue
        doc = fn.body[0].value if isinstance(fn.body[0], ast.Expr) else None
        class T(ast.NodeTransformer):
            def visit_JoinedStr(self, n): return n
            def visit_FunctionDef(self, n): return n
            def visit_Constant(self, n):
                if n is doc or not isinstance(n.value, (str, float)) or n.value == "": return n
                v = uid("_CONSTANT")
                new.append(assign(v, ast.Constant(n.value)))
                return name(v)
        fn.body = [T().visit(s) if not isinstance(s, FUN) else s for s in fn.body]
    k = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
    tree.body[k:k] = new

FNS = [rename_locals, invert_if, early_else, guard_clause, temp_return, swap_eq, comp_to_loop, loop_to_comp, enumerate_loops, cond_temp, split_and, merge_if, split_or, demorgan,
       not_in, ternary_to_if, if_to_ternary, alias_self, append_plus, fstring_format, noop, annotate, tuple_unpack, closure_body, while_iter, items_loop, arg_temps, any_loop, get_default, index_range, while_index, continue_guard, continue_nest, walrus, star_kwargs, match_chain, comp_to_map, unpack_index, single_exit]
NAMES = {f.__name__: f for f in FNS}

def tree_methods_reversed(tree, pick):
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            idx = [i for i, s in enumerate(c.body) if isinstance(s, FUN) and not s.decorator_list]
            fs = [c.body[i] for i in idx][::-1]
            if len({f.name for f in fs}) != len(fs): continue
            for i, s in zip(idx, fs): c.body[i] = s

def tree_wrap(tree, pick):
    for c in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        out = []
        for s in c.body:
            if isinstance(s, FUN) and pick(s):
                decs = {ast.unparse(d) for d in s.decorator_list}
                h = wrap(s, c if isinstance(c, ast.ClassDef) else None) if not any("overload" in d or "abstract" in d for d in decs) else None
                if h is not None:
                    if isinstance(c, ast.ClassDef): out += [s, h]
                    else: out += [h, s]
                    continue
            out.append(s)
        c.body = out

def tree_import_module(tree, pick):
    """from causy.m import Y -> import causy.m as m; Y -> m.Y  (module level imports of causy only)"""
    ren = {}
    body = []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.module and s.module.startswith("causy") and s.level == 0 and not any(a.name == "*" for a in s.names):
            m = "mod_" + s.module.replace(".", "_")
            body.append(ast.Import([ast.alias(s.module, m)]))
            for a in s.names: ren[a.asname or a.name] = (m, a.name)
        else: body.append(s)
    shadow = set()
    for n in ast.walk(tree):
        if isinstance(n, FUN): shadow |= stored(n.body) | params(n)
        if isinstance(n, ast.ClassDef): shadow |= {t.id for s in n.body if isinstance(s, ast.AnnAssign) for t in [s.target] if isinstance(t, ast.Name)}
    if shadow & set(ren): return
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in ren: return ast.Attribute(name(ren[n.id][0]), ren[n.id][1], n.ctx)
            return n
    tree.body = [s if isinstance(s, ast.Import) else T().visit(s) for s in body]

TREES = {"wrap": tree_wrap, "methods_reversed": tree_methods_reversed, "import_module": tree_import_module, "consts": tree_consts}

def apply(spec, w):
    nm, _, rest = spec.partition(":")
    suffix, _, fnname = rest.partition(":")
    n = 0
    for d, ds, fs in os.walk(w + "/causy"):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".py") or (suffix and not p.endswith(suffix)): continue
            src = open(p).read()
            tree = ast.parse(src)
            before = ast.dump(tree)
            pick = lambda fn: not fnname or fn.name == fnname
            if nm in TREES:
                if nm == "import_module" and f == "__init__.py": continue
                TREES[nm](tree, pick)
            else:
                for fn in [x for x in ast.walk(tree) if isinstance(x, FUN)]:
                    if pick(fn): NAMES[nm](fn)
            if ast.dump(tree) != before:
                n += 1
                open(p, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")
    return n

def checks():
    return [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]

def run(spec, tests=False, only=None, show=2):
    w = tempfile.mkdtemp(prefix="ref_")
    try:
        shutil.copytree(os.environ.get("SRC", "/repo") + "/causy", w + "/causy", ignore=shutil.ignore_patterns("__pycache__", "static"))
        n = 0
        for s in spec.split("+"): n += apply(s, w)
        def one(c):
            r = subprocess.run([sys.executable, ROOT + "/check.py", c, "quick"], env=dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + "/ev" + c), capture_output=True, text=True)
            return c, r
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, only or checks()))
        bad = [(c, r) for c, r in rs if r.returncode != 0]
        und = {c: r.stdout.count("UNDECIDED") for c, r in rs if "UNDECIDED" in r.stdout}
        print(spec, "files", n, "ALARMS" if bad else "quiet", [(c, r.returncode) for c, r in bad], "undecided", und, flush=True)
        for c, r in bad:
            for l in [l for l in r.stdout.splitlines() if "violated" in l][:show] + r.stderr.splitlines()[-2:]: print("     ", c, l[:300])
        if os.environ.get("SHOWU"):
            for c, r in rs:
                for l in [l for l in r.stdout.splitlines() if "UNDECIDED" in l][:show]: print("     ?", c, l[:300])
        if tests:
            t = subprocess.run("cp -a /repo/tests /repo/pyproject.toml %s/ 2>/dev/null; cp -a /repo/causy/static %s/causy/ 2>/dev/null; cd %s && /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -4" % (w, w, w), shell=True, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=w))
            print("     tests:", t.stdout[-300:])
        return bad
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--tests" in a
    a = [x for x in a if x != "--tests"]
    for s in a or list(NAMES) + list(TREES): run(s, tests)
