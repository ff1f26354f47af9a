"""Gated-summary dataflow over the AST.

One forward pass per function builds, for every variable, object cell and effect, a guarded
value (terms selected by BDD guards).  Branches are joined (no path enumeration), loops over
unknown collections are summarised with bound variables (no unrolling, no iteration), in-repo
callees are inlined as summaries.  Nothing of the analysed program is executed.
"""
import ast
import collections
from .terms import *
from . import terms as TM
from .program import ClassInfo, FuncInfo, AnalysisError

MAXDEPTH = 24


def restrict(f, c):
    """simplify f using don't-cares outside c (Coudert-Madre)"""
    memo = {}

    def go(f, c):
        if c == 1 or f < 2:
            return f
        if c == 0:
            return f
        k = (f, c)
        r = memo.get(k)
        if r is not None:
            return r
        vf, f0, f1 = TM._nodes[f]
        vc, c0, c1 = TM._nodes[c]
        if vc < vf:
            r = go(f, OR(c0, c1))
        elif vc == vf:
            if c0 == 0:
                r = go(f1, c1)
            elif c1 == 0:
                r = go(f0, c0)
            else:
                r = TM._mk(vf, go(f0, c0), go(f1, c1))
        else:
            r = TM._mk(vf, go(f0, c), go(f1, c))
        memo[k] = r
        return r

    return go(f, c)


def simp(t, care):
    """simplify a value under a care set"""
    if t.op == "B":
        return B(restrict(t.args[0], care))
    if t.op == "cases":
        return mk_cases([(restrict(g, care), v) for v, g in t.args if AND(g, care) != 0]) if all(
            True for _ in t.args
        ) else t
    return t


class Obj:
    __slots__ = ("kind", "cls", "base", "fields", "cells", "segs", "q", "closed")

    def __init__(self, kind, cls=None, base=None):
        self.kind, self.cls, self.base = kind, cls, base
        self.fields, self.cells, self.segs, self.q = {}, (), (), ()
        self.closed = False

    def copy(self):
        o = Obj(self.kind, self.cls, self.base)
        o.fields = dict(self.fields)
        o.cells, o.segs, o.q, o.closed = self.cells, self.segs, self.q, self.closed
        return o

    def same(self, o):
        return (
            self.kind == o.kind
            and self.fields == o.fields
            and self.cells == o.cells
            and self.segs == o.segs
            and self.q == o.q
        )


class State:
    __slots__ = ("alive", "heap", "envs", "epoch")

    def __init__(self):
        self.alive, self.heap, self.envs, self.epoch = 1, {}, {}, {}

    def copy(self):
        s = State()
        s.alive, s.heap, s.epoch = self.alive, dict(self.heap), dict(self.epoch)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        return s

    def become(self, o):
        self.alive, self.heap, self.envs, self.epoch = o.alive, o.heap, o.envs, o.epoch


class Event:
    __slots__ = ("kind", "guard", "data", "loops", "loc", "func", "seq", "frame", "epoch")

    def __init__(self, kind, guard, data, loops, loc, func, seq, frame):
        self.kind, self.guard, self.data, self.loops = kind, guard, data, loops
        self.loc, self.func, self.seq, self.frame = loc, func, seq, frame

    def __repr__(self):
        return "<%s %s if %s loops=%s @%s>" % (
            self.kind,
            tuple(show(x) if isinstance(x, Term) else x for x in self.data),
            showb(self.guard),
            [show(l) for l in self.loops],
            self.loc,
        )


class Frame:
    n = 0

    def __init__(self, func, module, cls, parent=None):
        Frame.n += 1
        self.fid = Frame.n
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.returns = []
        self.loops = []
        self.gen = None
        self.called_with = None
        self.globals = set()


class LoopCtx:
    def __init__(self):
        self.conts, self.breaks = [], []


class Seg:
    pass


def mkseg(binders, g, kind, v):
    return T("seg", tuple(binders), G(g), kind, v)


@rebuilder("seg")
def _rb_seg(b, g, k, v):
    return T("seg", b, g, k, v)


BUILTIN_EXC = {
    "BaseException": None,
    "Exception": "BaseException",
    "ValueError": "Exception",
    "TypeError": "Exception",
    "LookupError": "Exception",
    "KeyError": "LookupError",
    "IndexError": "LookupError",
    "AttributeError": "Exception",
    "OSError": "Exception",
    "FileNotFoundError": "OSError",
    "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError",
    "AssertionError": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception",
    "StopIteration": "Exception",
    "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
}

LIST_MUT = {"append", "extend", "insert", "add", "update", "remove", "pop", "clear", "discard", "sort", "reverse", "setdefault", "popitem", "appendleft", "popleft"}

LOGGERS = ("logger", "logging")

PURE_EXT_PREFIX = (
    "torch.", "math.", "scipy.", "json.loads", "json.dumps", "os.path.", "itertools.", "typing.",
    "hashlib.", "datetime.", "logging.", "collections.", "uuid.", "time.", "platform.", "inspect.",
    "enum.", "builtins.", "copy.", "pydantic.", "random.", "functools.", "operator.",
)


# what a value of each kind may really be
BUILTIN_TYPES = {"list": (list, collections.deque), "dict": (dict, collections.OrderedDict, collections.Counter, collections.defaultdict), "set": (set,)}


class Interp:
    def __init__(self, prog, stop=None, types=None, track=None, mutators=(), inline_props=True, try_ext=True):
        self.p = prog
        self.stop = stop or (lambda fi: False)
        self.types = dict(types or {})  # term -> class qual
        self.track = track or (lambda t: False)  # dict terms whose missing keys raise KeyError
        self.mutators = set(mutators)
        self.events = []
        self.sinks = [[]]  # raise entries: [state, exc, loc, loops]
        self.stack = []
        self.recursion = 0
        self.endless = []
        self.frames = []
        self.loopvars = []
        self.try_types = []
        self.closures = []
        self._parents = {}
        self.nref = 0
        self.nlv = 0
        self.gheap = {}
        self.gvals = {}
        self.notes = []  # imprecision notes
        self.seq = 0
        self.force = {}  # atom assumptions: BDD node alive initial
        self.on_attr = None
        self.canon = None  # canonical representative of an indexed cell (object identity assumptions)
        self.canon_has = None
        self.ext_handlers = {}
        self.call_handlers = {}  # qualified name of a kept call -> handler(interp, fi, args, state, node) -> value or None
        self.gbind = {}  # (module, global) -> value it has
        self.strclass = {}  # symbolic string -> "digits" or "word" (letters, unlike any literal)
        self.user_eq = False  # == of instances is the __eq__ of their class
        self.rank = {}  # symbolic digit string -> position in the numeric order
        self.mcall_handlers = {}  # method name -> handler(interp, receiver, args, kwargs, state, node) -> value or None
        self.inlined = set()
        self.while_loops = []
        self.gens = {}  # generator object -> consumed?

    # ------------------------------------------------------------ utilities
    def note(self, msg, node=None):
        fr = self.frames[-1] if self.frames else None
        self.notes.append("%s: %s" % (self.loc(node) if node is not None else (fr.func.loc if fr and fr.func else "?"), msg))

    def loc(self, node):
        fr = self.frames[-1] if self.frames else None
        if fr is None or not hasattr(node, "lineno"):
            return "?"
        return "%s:%d" % (fr.module.relpath, node.lineno)

    def fresh_lv(self, tag=None):
        self.nlv += 1
        return T("lv", self.nlv, tag) if tag else T("lv", self.nlv)

    def new(self, st, obj):
        self.nref += 1
        r = T("ref", self.nref)
        st.heap[r] = obj
        return r

    def new_list(self, st, items=(), kind="list"):
        o = Obj(kind)
        o.segs = tuple(mkseg((), 1, "elem", v) for v in items)
        return self.new(st, o)

    def obj(self, st, r):
        o = st.heap.get(r)
        if o is None:
            o = self.gheap.get(r)
        return o

    def event(self, st, kind, *data, node=None):
        if st.alive == 0:
            return
        self.seq += 1
        fr = self.frames[-1] if self.frames else None
        e = Event(kind, st.alive, data, tuple(self.loopvars), self.loc(node) if node is not None else "?", fr.func.qual if fr and fr.func else "?", self.seq, fr.fid if fr else 0)
        e.epoch = dict(st.epoch)
        self.events.append(e)

    def opaque(self, why, *args):
        return T("opaque", why, *args)

    # ------------------------------------------------------------ merge
    def merge(self, states):
        live = [s for s in states if s.alive != 0]
        if not live:
            s = states[0]
            s.alive = 0
            return s
        acc = live[0]
        for s in live[1:]:
            acc = self._merge2(acc, s)
        return acc

    def _merge2(self, a, b):
        care = OR(a.alive, b.alive)
        sel = restrict(a.alive, care)
        r = State()
        r.alive = care
        for f in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(f), b.envs.get(f)
            if ea is None or eb is None:
                r.envs[f] = dict(ea if eb is None else eb)
                continue
            e = {}
            for k in set(ea) | set(eb):
                va, vb = ea.get(k), eb.get(k)
                if va is vb:
                    e[k] = va
                elif va is None:
                    e[k] = vb
                elif vb is None:
                    e[k] = va
                else:
                    e[k] = self.vmerge(sel, va, vb)
            r.envs[f] = e
        for k in set(a.heap) | set(b.heap):
            oa, ob = self.obj(a, k), self.obj(b, k)
            if oa is ob:
                r.heap[k] = oa
            elif oa is None or ob is None:
                if k.op == "ref":
                    r.heap[k] = oa or ob
                else:
                    e = Obj("sym", None, k)
                    r.heap[k] = self.omerge(sel, oa or e, ob or e, k)
            else:
                r.heap[k] = oa if oa.same(ob) else self.omerge(sel, oa, ob, k)
        for k in set(a.epoch) | set(b.epoch):
            x, y = a.epoch.get(k, 0), b.epoch.get(k, 0)
            if x == y:
                r.epoch[k] = x
            else:
                self.seq += 1
                r.epoch[k] = 100000 + self.seq
        return r

    def vmerge(self, sel, va, vb):
        return vite(sel, va, vb)

    def omerge(self, sel, oa, ob, key):
        o = Obj(oa.kind if oa.kind != "sym" else ob.kind, oa.cls or ob.cls, oa.base if oa.base is not None else ob.base)
        o.closed = oa.closed and ob.closed
        for f in set(oa.fields) | set(ob.fields):
            va = oa.fields.get(f)
            vb = ob.fields.get(f)
            if va is None:
                va = self.base_attr(key, f) if key.op != "ref" else T("undef")
            if vb is None:
                vb = self.base_attr(key, f) if key.op != "ref" else T("undef")
            o.fields[f] = self.vmerge(sel, va, vb)
        # cells
        da = {k: (p, v) for k, p, v in oa.cells}
        db = {k: (p, v) for k, p, v in ob.cells}
        keys = list(da) + [k for k in db if k not in da]
        cells = []
        for k in keys:
            pa, xa = da.get(k) or self._base_cell(oa, key, k)
            pb, xb = db.get(k) or self._base_cell(ob, key, k)
            if pa == 0 and pb == 0:
                v = xa
            elif pa == 0:
                v = xb
            elif pb == 0:
                v = xa
            else:
                v = self.vmerge(sel, xa, xb)
            cells.append((k, ite(sel, pa, pb), v))
        o.cells = tuple(cells)
        # segs: common prefix then guarded suffixes
        i = 0
        while i < len(oa.segs) and i < len(ob.segs) and oa.segs[i] is ob.segs[i]:
            i += 1
        segs = list(oa.segs[:i])
        for c, rest in ((sel, oa.segs[i:]), (NOT(sel), ob.segs[i:])):
            for s in rest:
                b, g, k, v = s.args
                ng = AND(c, g.n)
                if ng:
                    segs.append(mkseg(b, ng, k, v))
        o.segs = tuple(segs)
        # quantified writes
        i = 0
        while i < len(oa.q) and i < len(ob.q) and oa.q[i] == ob.q[i]:
            i += 1
        q = list(oa.q[:i])
        for c, rest in ((sel, oa.q[i:]), (NOT(sel), ob.q[i:])):
            for (b, g, k, v) in rest:
                ng = AND(c, g)
                if ng:
                    q.append((b, ng, k, v))
        o.q = tuple(q)
        return o

    def base_attr(self, key, f):
        if self.on_attr is not None:
            r = self.on_attr(State(), key, f)
            if r is not None:
                return r
        return self.mk_attr(key, f)

    def _base_cell(self, o, key, k):
        if o.base is not None:
            return self.mk_has(o.base, k), self.mk_idx(o.base, k)
        return 0, T("undef")

    def branch(self, st, c, fthen, felse):
        """run fthen/felse (callables on a state) under c / not c and join into st; returns joined value or None"""
        a0 = st.alive
        at, ae = AND(a0, c), AND(a0, NOT(c))
        if at == 0 and ae == 0:
            return T("undef")
        if ae == 0:
            return fthen(st)
        if at == 0:
            return felse(st)
        s2 = st.copy()
        st.alive = at
        s2.alive = ae
        v1 = fthen(st)
        v2 = felse(s2)
        t1, t2 = st.alive, s2.alive
        m = self.merge([st, s2])
        if m is not st:
            st.become(m)
        if v1 is None or v2 is None:
            return None
        if t1 == 0:
            return v2
        if t2 == 0:
            return v1
        return vite(restrict(t1, OR(t1, t2)), v1, v2)

    # ------------------------------------------------------------ entry points
    def run(self, fi, args=None, self_val=None, st=None, kwargs=None, alive=1):
        """analyse function fi with symbolic parameters; returns Summary"""
        st = st or State()
        st.alive = alive
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        args = dict(args or {})
        vals = {}
        for i, n in enumerate(params):
            if n in args:
                vals[n] = args[n]
            elif fi.cls is not None and i == 0 and not fi.is_static:
                vals[n] = self_val if self_val is not None else T("sym", "self")
            else:
                vals[n] = T("sym", n)
            if vals[n].op == "sym":
                self._annotate(fi, n, vals[n])
        for x in a.kwonlyargs:
            vals[x.arg] = args.get(x.arg, T("sym", x.arg))
        if a.vararg:
            vals[a.vararg.arg] = args.get(a.vararg.arg, T("sym", "*" + a.vararg.arg))
        if a.kwarg:
            vals[a.kwarg.arg] = args.get(a.kwarg.arg, T("sym", "**" + a.kwarg.arg))
        if fi.cls is not None and params and not fi.is_static:
            sv = vals[params[0]]
            if sv not in self.types and sv.op == "sym":
                self.types[sv] = fi.cls.qual
        ret = self._exec_function(fi, vals, st)
        s = Summary()
        s.ret, s.state, s.events, s.raises, s.notes = ret, st, self.events, self.sinks[0], self.notes
        s.interp = self
        return s

    def _annotate(self, fi, name, val):
        for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if x.arg == name and x.annotation is not None and val not in self.types:
                q = self.ann_class(fi.module, x.annotation, fi.cls)
                if q:
                    self.types[val] = q

    def ann_class(self, m, ann, cls=None):
        """class qual named by an annotation (Optional[...] unwrapped), else None"""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            n = ast.unparse(ann.value).split(".")[-1]
            if n in ("Optional", "Annotated"):
                s = ann.slice
                if isinstance(s, ast.Tuple):
                    s = s.elts[0]
                return self.ann_class(m, s, cls)
            if n in ("Union", "List", "Dict", "Set", "Tuple", "OrderedDict", "list", "dict", "set", "tuple", "type", "Type"):
                return None
            return self.ann_class(m, ann.value, cls)
        r = self.p.resolve_expr(m, ann, cls)
        if r and r[0] == "class":
            return r[1].qual
        if r and r[0] == "ext" and r[1] in ("builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.dict", "builtins.list", "builtins.tuple"):
            return r[1]
        return None

    def _exec_function(self, fi, vals, st, closure=None, called_with=None):
        fr = Frame(fi, fi.module, fi.cls, closure)
        if closure is not None:
            self._parents[fr.fid] = closure
        fr.called_with = called_with
        self.frames.append(fr)
        self.stack.append(fi.qual)
        self.inlined.add(fi.qual)
        st.envs[fr.fid] = dict(vals)
        saved_loops = None
        if fi.is_generator:
            fr.gen = self.new_list(st)
            self.gens[fr.gen] = [False, fi.qual]
        try:
            body = fi.node.body
            if isinstance(body, list):
                self.exec_block(body, st)
            else:
                v = self.eval(body, st)
                st.envs[fr.fid]["$ret"] = v
                fr.returns.append(st.copy())
                st.alive = 0
        finally:
            self.frames.pop()
            self.stack.pop()
        if st.alive != 0:
            st.envs[fr.fid]["$ret"] = NONE
            fr.returns.append(st.copy())
        if fr.returns:
            m = self.merge(fr.returns)
            st.become(m)
            ret = st.envs[fr.fid].get("$ret", NONE)
        else:
            st.alive = 0
            ret = T("undef")
        # keep the env only if a closure may refer to it
        if not any(c[1] == fr.fid for c in self.closures):
            st.envs.pop(fr.fid, None)
        if fr.gen is not None:
            return fr.gen
        return ret

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            if st.alive == 0:
                return
            self.exec(s, st)

    def exec(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement %s" % type(s).__name__, s)
            return
        m(s, st)

    def x_Pass(self, s, st):
        pass

    def x_Global(self, s, st):
        self.frames[-1].globals.update(s.names)

    def x_Nonlocal(self, s, st):
        fr = self.frames[-1]
        fr.nonlocals = getattr(fr, "nonlocals", set()) | set(s.names)

    def x_Expr(self, s, st):
        self.eval(s.value, st)

    def x_Assert(self, s, st):
        c = self.tr(self.eval(s.test, st), st)
        self.do_raise_if(st, NOT(c), T("exc", "builtins.AssertionError"), s)

    def x_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.env(st)[nm] = T("module", a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, s, st):
        mod = self.p._abs(self.frames[-1].module, s)
        for a in s.names:
            r = self.p.resolve_from(mod, a.name)
            self.env(st)[a.asname or a.name] = self.from_resolved(r, st)

    def env(self, st):
        return st.envs[self.frames[-1].fid]

    def x_FunctionDef(self, s, st):
        fr = self.frames[-1]
        fi = FuncInfo((fr.func.qual if fr.func else fr.module.name) + ".<locals>." + s.name, s, fr.module, None)
        self.closures.append((fi, fr.fid))
        self.env(st)[s.name] = T("closure", len(self.closures) - 1)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st):
        fr = self.frames[-1]
        qual, n = (fr.func.qual if fr.func else fr.module.name) + ".<locals>." + s.name, 1
        while T("cls", qual) in st.heap:
            n += 1
            qual = qual.split("#")[0] + "#%d" % n
        ci = ClassInfo(qual, s, fr.module)
        self.p._mro.pop(qual, None)
        self.p.classes[ci.qual] = ci
        # class attribute expressions are evaluated in the enclosing frame
        o = Obj("cls", ci.qual)
        for n, (ann, v) in ci.attrs.items():
            if v is not None:
                o.fields[n] = self.eval(v, st)
        t = T("cls", ci.qual)
        st.heap[t] = o
        self.env(st)[s.name] = t
        for f in ci.methods.values():
            self.closures.append((f, fr.fid))

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.alive == 0:
            return
        fr = self.frames[-1]
        st.envs[fr.fid]["$ret"] = v
        fr.returns.append(st.copy())
        st.alive = 0

    def x_If(self, s, st):
        c = self.tr(self.eval(s.test, st), st)
        self.branch(st, c, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def x_Raise(self, s, st):
        exc = self.eval(s.exc, st) if s.exc is not None else T("exc", "reraise")
        self.do_raise(st, self.freeze(exc, st), s)

    def do_raise(self, st, exc, node):
        if st.alive == 0:
            return
        self.sinks[-1].append([st.copy(), exc, self.loc(node), tuple(self.loopvars), self.frames[-1].func.qual if self.frames and self.frames[-1].func else "?", self.seq])
        self.event(st, "raise", exc, node=node)
        st.alive = 0

    def do_raise_if(self, st, c, exc, node):
        g = AND(st.alive, c)
        if g == 0:
            return
        if node is None and self.frames and self.frames[-1].func:
            node = self.frames[-1].func.node
        s2 = st.copy()
        s2.alive = g
        self.do_raise(s2, exc, node)
        st.alive = AND(st.alive, NOT(c))

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.del_item(st, o, k, t)
            elif isinstance(t, ast.Name):
                self.env(st).pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.event(st, "delattr", self.freeze(o, st), t.attr, node=t)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.alive == 0:
            return
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            if st.alive:
                self.assign(s.target, v, st)

    def x_AugAssign(self, s, st):
        cur = self.eval(ast.copy_location(_load(s.target), s), st)
        v = self.eval(s.value, st)
        if isinstance(s.op, ast.Add) and cur.op == "ref" and self.obj(st, cur).kind in ("list",):
            self.list_extend(st, cur, v)
            return
        if isinstance(s.op, ast.BitOr) and cur.op == "ref" and self.obj(st, cur).kind in ("set",):
            self.list_extend(st, cur, v)
            return
        if isinstance(s.op, ast.BitOr) and cur.op == "ref" and self.obj(st, cur).kind == "dict":
            self.dict_update(st, cur, v, s)
            return
        if isinstance(s.op, (ast.Add, ast.BitOr)) and cur.op == "cases" and all(l.op == "ref" and self.obj(st, l).kind in ("list", "set") for _, l in cases_of(cur)):
            self.list_extend(st, cur, v)
            return
        if cur.op not in ("const", "B", "ref", "poly", "phi", "tup", "cases", "sum", "cnt", "fstr"):
            # in-place on an unknown object
            self.event(st, "augassign", self.freeze(cur, st), type(s.op).__name__, self.freeze(v, st), node=s)
        self.assign(s.target, self.binop(s.op, cur, v, st, s), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals:
                st.envs.setdefault("g:" + fr.module.name, {})[t.id] = v
                self.event(st, "setglobal", fr.module.name + "." + t.id, self.freeze(v, st), node=t)
                return
            if t.id in getattr(fr, "nonlocals", ()):
                f = fr.parent
                while f is not None:
                    if t.id in st.envs.get(f, {}):
                        st.envs[f][t.id] = v
                        return
                    f = self.parent_of(f)
            self.env(st)[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.set_attr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.set_item(st, o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, elts, v, st, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.seq_items(v, st)
        if items is not None and not star and len(items) == n:
            for e, x in zip(elts, items):
                self.assign(e, x, st)
            return
        if items is not None and star and len(items) >= n - 1:
            i = star[0]
            k = len(items) - (n - 1)
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, st)
            self.assign(elts[i].value, self.new_list(st, items[i : i + k]), st)
            for e, x in zip(elts[i + 1 :], items[i + k :]):
                self.assign(e, x, st)
            return
        if v.op == "cases" and not star:
            cols = []
            ok = True
            rows = []
            for g, leaf in cases_of(v):
                it = self.seq_items(leaf, st)
                if it is None or len(it) != n:
                    it = [self.get_item(st, leaf, const(i), node) for i in range(n)]
                rows.append((g, it))
            for i, e in enumerate(elts):
                self.assign(e, mk_cases([(g, it[i]) for g, it in rows]), st)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, T("slice", self.freeze(v, st), const(i), NONE), st)
            else:
                self.assign(e, self.get_item(st, v, const(i), node), st)

    def seq_items(self, v, st):
        """list of element values if v is a sequence of known length"""
        if v.op == "tup":
            return list(v.args)
        if v in self.gens:
            self.gens[v][0] = True
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("list",):
                out = []
                for s in o.segs:
                    b, g, k, x = s.args
                    if b or k != "elem" or g.n != 1:
                        return None
                    out.append(x)
                return out
        if v.op == "list":
            out = []
            for s in v.args:
                b, g, k, x = s.args
                if b or k != "elem" or g.n != 1:
                    return None
                out.append(x)
            return out
        coll = v.args[1] if v.op == "dictview" else v
        o = self.obj(st, coll) if coll.op == "ref" else None
        if o is not None and o.kind == "dict" and o.base is None and not o.q and all(p == 1 for _, p, _ in o.cells):
            return [x for _, _, x in self.dict_domain(coll, st, v.args[0] if v.op == "dictview" else "keys")]
        return None

    # -------------------------------------------------- try / with
    def x_Try(self, s, st):
        if not s.handlers:
            self.exec_block(s.body, st)
            if s.orelse:
                self.exec_block(s.orelse, st)
            if s.finalbody:
                if st.alive:
                    self.exec_block(s.finalbody, st)
            return
        sink = []
        self.sinks.append(sink)
        types = []
        for h in s.handlers:
            types.extend(self.handler_types(h, st))
        self.try_types.append(types)
        self.exec_block(s.body, st)
        self.try_types.pop()
        self.sinks.pop()
        pending = sink
        body_end = st.copy()
        if s.orelse and body_end.alive:
            self.exec_block(s.orelse, body_end)
        outs = [body_end]
        for h in s.handlers:
            ht = self.handler_types(h, st)
            caught = [e for e in pending if self.exc_matches(e[1], ht)]
            pending = [e for e in pending if e not in caught]
            if not caught:
                continue
            hs = self.merge([e[0] for e in caught])
            if hs.alive == 0:
                continue
            hs = hs.copy()
            if h.name:
                excs = {}
                self.env(hs)[h.name] = caught[0][1] if len(caught) == 1 else T("excvar", tuple(sorted({e[1].id for e in caught})))
            fr = self.frames[-1]
            self.exec_block(h.body, hs)
            outs.append(hs)
        for e in pending:
            self.sinks[-1].append(e)
        m = self.merge(outs)
        st.become(m)
        if s.finalbody and st.alive:
            self.exec_block(s.finalbody, st)

    x_TryStar = x_Try

    def handler_types(self, h, st):
        if h.type is None:
            return ["builtins.BaseException"]
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            r = self.p.resolve_expr(self.frames[-1].module, e, self.frames[-1].cls)
            if r is None:
                out.append("?")
            elif r[0] == "class":
                out.append(r[1].qual)
            elif r[0] == "ext":
                out.append(r[1])
            else:
                out.append("?")
        return out

    def exc_class(self, exc):
        if exc.op == "rec":
            return exc.args[0]
        if exc.op == "exc":
            return exc.args[0]
        if exc.op == "cls":
            return exc.args[0]
        if exc.op == "call":
            return exc.args[0]
        if exc.op == "ext":
            return exc.args[0]
        return None

    def exc_matches(self, exc, types):
        c = self.exc_class(exc)
        if c is None:
            return "builtins.Exception" in types or "builtins.BaseException" in types
        return any(self.exc_sub(c, t) for t in types)

    def exc_sub(self, c, t):
        if c == t or c.split(".")[-1] == t.split(".")[-1]:
            return True
        if t in ("builtins.Exception", "builtins.BaseException"):
            return True
        ci = self.p.classes.get(c)
        if ci is not None:
            for b in self.p.mro(ci):
                n = b.qual if isinstance(b, ClassInfo) else b
                if n == t or n.split(".")[-1] == t.split(".")[-1]:
                    return True
            return False
        n = c.split(".")[-1]
        while n is not None and n in BUILTIN_EXC:
            if n == t.split(".")[-1]:
                return True
            n = BUILTIN_EXC[n]
        return False

    def maybe_ext_raise(self, st, call, node):
        """inside a try, an external call may raise the handled external exceptions"""
        if not self.try_types:
            return
        for t in self.try_types[-1]:
            if t in self.p.classes:
                continue
            a = bvar(T("exc", t, call))
            self.do_raise_if(st, a, T("exc", t), node)

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            fv = self.freeze(v, st)
            self.event(st, "enter", fv, node=s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("enter", fv), st)
        self.exec_block(s.body, st)

    x_AsyncWith = x_With

    # -------------------------------------------------- loops
    def x_Break(self, s, st):
        self.frames[-1].loops[-1].breaks.append(st.copy())
        st.alive = 0

    def x_Continue(self, s, st):
        self.frames[-1].loops[-1].conts.append(st.copy())
        st.alive = 0

    def x_For(self, s, st):
        v = self.eval(s.iter, st)
        self.loop(st, v, lambda x, val: (self.assign(s.target, val, x), self.exec_block(s.body, x)), s, orelse=s.orelse)

    x_AsyncFor = x_For

    def loop(self, st, coll, body, node, orelse=()):
        """generic for-loop; body(state, value)"""
        fr = self.frames[-1]
        self.not_iterable(st, coll, node)
        items = self.domain(coll, st)
        lc = LoopCtx()
        breaks = []
        for binders, g, val in items:
            if st.alive == 0:
                break
            if not binders:
                ctx = LoopCtx()
                fr.loops.append(ctx)

                def run(x):
                    body(x, val)
                    m = self.merge([x] + ctx.conts)
                    x.become(m)

                self.branch(st, g, run, lambda x: None)
                fr.loops.pop()
                breaks.extend(ctx.breaks)
            else:
                b = self.summarise(st, binders, g, lambda x: body(x, val), node)
                if b is not None and b.alive != 0:
                    breaks.append(b)
        if orelse and st.alive:
            self.exec_block(orelse, st)
        if breaks:
            m = self.merge([st] + breaks)
            st.become(m)

    def summarise(self, st, binders, g, body, node, extra=None):
        """summarise a loop over bound variables; updates st to the post-loop state.
        returns the merged break state (alive = exists break) or None"""
        fr = self.frames[-1]
        A = st.alive
        s0 = st
        changed_v, changed_o = set(), set()
        snap = (len(self.events), len(self.sinks[-1]), len(fr.returns), len(self.notes))
        self.loopvars.extend(binders)
        for it in range(6):
            del self.events[snap[0] :]
            del self.sinks[-1][snap[1] :]
            del fr.returns[snap[2] :]
            del self.notes[snap[3] :]
            x = st.copy()
            x.alive = AND(A, g)
            phis = {}
            for f, n in changed_v:
                v0 = st.envs[f].get(n)
                phis[(f, n)] = p = self.phi_for(v0, n, node)
                x.envs[f][n] = p
            for r in changed_o:
                o0 = self.obj(st, r) or Obj("sym", None, r)
                x.heap[r] = self.phi_obj(o0, r, node)
            for k in list(x.epoch):
                pass
            ctx = LoopCtx()
            fr.loops.append(ctx)
            body(x)
            fr.loops.pop()
            nstate = self.merge([x] + ctx.conts)
            outs = [nstate] + ctx.breaks + fr.returns[snap[2] :]
            nv, no = set(changed_v), set(changed_o)
            for o in outs:
                if o.alive == 0:
                    continue
                for f, e in o.envs.items():
                    if f not in st.envs:
                        continue
                    for n, v in e.items():
                        if n == "$ret":
                            continue
                        base = phis.get((f, n), st.envs[f].get(n))
                        if v is not base:
                            nv.add((f, n))
                for r, ob in o.heap.items():
                    base = x_init(st, r, changed_o, self, node)
                    if base is None:
                        if r.op == "ref":
                            continue
                        if any(contains(r, b) for b in binders):
                            continue
                        no.add(r)
                        continue
                    if ob is not base and not ob.same(base):
                        no.add(r)
            if nv == changed_v and no == changed_o:
                break
            changed_v, changed_o = nv, no
        for _ in binders:
            self.loopvars.pop()
        # ------------------------------------------------ build post state
        rets = fr.returns[snap[2] :]
        del fr.returns[snap[2] :]
        raises = self.sinks[-1][snap[1] :]
        bst = self.merge([b.copy() for b in ctx.breaks]) if ctx.breaks else None
        if bst is not None and bst.alive == 0:
            bst = None
        rst = self.merge([r.copy() for r in rets]) if rets else None
        if rst is not None and rst.alive == 0:
            rst = None
        EX = OR(bst.alive if bst else 0, rst.alive if rst else 0, *[r[0].alive for r in raises])

        def close(n):
            for b in reversed(binders):
                n = exists(b, n)
            return n

        def indep(t):
            return not any(contains(t, b) for b in binders)

        def noearlier(c):
            """contribution under c, only when no earlier iteration left the loop"""
            if EX == 0 or c == 0:
                return c
            if bst is not None or rst is not None:
                return AND(c, bvar(T("noearlier", self.canon_guard(EX, binders))))
            return c

        post = st.copy()
        nal = nstate.alive  # alive at end of a normal iteration (includes A, g)
        epochs = {}
        for k in set(nstate.epoch) | set(st.epoch):
            if nstate.epoch.get(k, 0) != st.epoch.get(k, 0):
                self.seq += 1
                post.epoch[k] = 200000 + self.seq
        for f, n in sorted(changed_v, key=str):
            v0 = st.envs[f].get(n)
            ph = phis.get((f, n))
            oN = nstate.envs.get(f, {}).get(n) if nal else ph
            post.envs[f][n] = self.loop_var(v0, ph, oN, nal, A, binders, noearlier, close, indep, node, n, nstate, post)
        for r in changed_o:
            o0 = self.obj(st, r) or Obj("sym", None, r)
            oN = self.obj(nstate, r) if nal else None
            outs_o = []
            if oN is not None:
                outs_o.append((nal, oN))
            if bst is not None and self.obj(bst, r) is not None:
                outs_o.append((bst.alive, self.obj(bst, r)))
            if rst is not None and self.obj(rst, r) is not None:
                outs_o.append((rst.alive, self.obj(rst, r)))
            post.heap[r] = self.loop_obj(r, o0, outs_o, A, binders, noearlier, close, indep, node)
        # escape objects created in the body and still referenced
        for s_ in [nstate] + ([bst] if bst else []) + ([rst] if rst else []):
            for r, ob in s_.heap.items():
                if r not in post.heap and self.obj(st, r) is None:
                    if r.op == "ref" or indep(r):
                        post.heap[r] = ob
            for f, e in s_.envs.items():
                if f not in post.envs:
                    post.envs[f] = e
        # raises: close guards
        for e in raises:
            s_ = e[0]
            n = s_.alive
            val = e[1]
            if not indep(val):
                val = self.close_value(val, n, binders)
            ns = post.copy()
            ns.alive = close(noearlier(n) if (bst or rst) else n)
            e[0], e[1] = ns, val
        ralive = 0
        if rst is not None:
            rn = rst.alive
            if bst is not None:
                rn = AND(rn, bvar(T("noearlier", self.canon_guard(bst.alive, binders))))
            ralive = close(rn)
            val = rst.envs[fr.fid].get("$ret", NONE)
            fval = self.freeze_if_new(val, rst, st, binders)
            if not indep(fval):
                fval = self.close_value(fval, rst.alive, binders)
            rs = post.copy()
            rs.alive = ralive
            rs.envs[fr.fid]["$ret"] = fval
            fr.returns.append(rs)
        balive = 0
        bout = None
        if bst is not None:
            bn = bst.alive
            if rst is not None:
                bn = AND(bn, bvar(T("noearlier", self.canon_guard(rst.alive, binders))))
            balive = close(bn)
            bout = post.copy()
            bout.alive = balive
            for f, n in changed_v:
                ph = phis.get((f, n))
                vb = bst.envs.get(f, {}).get(n)
                if vb is None or vb is ph:
                    continue
                v0 = st.envs[f].get(n)
                if vb.op == "B" and ph is not None and ph.op == "B":
                    at = node_parts(ph.args[0])[0]
                    n1, n0 = cofactor(vb.args[0], at, 1), cofactor(vb.args[0], at, 0)
                    n1, n0 = restrict(n1, bst.alive), restrict(n0, bst.alive)
                    if n1 == n0 and n1 in (0, 1):
                        bout.envs[f][n] = B(n1)
                        continue
                fv = self.freeze_if_new(vb, bst, st, binders)
                fv = simp(fv, bst.alive)
                if ph is not None and contains(fv, ph):
                    fv = subst(fv, {ph: post.envs[f].get(n, T("undef"))})
                if not indep(fv):
                    fv = self.close_value(fv, bst.alive, binders)
                bout.envs[f][n] = fv
        for e in self.events[snap[0] :]:
            pass
        xall = OR(ralive, balive, *[e[0].alive for e in raises])
        st.become(post)
        st.alive = AND(A, NOT(xall))
        return bout

    def canon_guard(self, n, binders):
        m = {}
        k = TM._maxbv_bdd(n)
        for i, b in enumerate(binders):
            m[b] = T("bv", k + 1 + i)
        return G(subst_bdd(n, m, {}))

    def close_value(self, val, cond, binders):
        m = {}
        k = max(TM._maxbv(val), TM._maxbv_bdd(cond))
        bs = []
        for i, b in enumerate(binders):
            m[b] = T("bv", k + 1 + i)
            bs.append(m[b])
        return T("first", tuple(bs), G(subst_bdd(cond, m, {})), subst(val, m))

    def freeze_if_new(self, val, s, st, binders):
        """values that live only inside the iteration are frozen to structural terms"""
        if val.op == "ref" and self.obj(st, val) is not None:
            return val
        if val.op == "cases":
            return mk_cases([(g, self.freeze_if_new(v, s, st, binders)) for g, v in cases_of(val)])
        if val.op == "tup":
            return T("tup", *[self.freeze_if_new(v, s, st, binders) for v in val.args])
        if val.op == "ref":
            fz = self.freeze(val, s)
            if not any(contains(fz, b) for b in binders):
                return val
            return fz
        return val

    def phi_for(self, v0, name, node):
        if v0 is not None and v0.op == "B":
            return B(bvar(T("batom", "phi", name, node.lineno if hasattr(node, "lineno") else 0, len(self.stack))))
        return T("phi", name, getattr(node, "lineno", 0), len(self.stack))

    def phi_obj(self, o0, r, node):
        o = Obj(o0.kind, o0.cls, o0.base)
        ph = T("phi", r, getattr(node, "lineno", 0), len(self.stack))
        if o0.kind in ("list", "set"):
            o.segs = (mkseg((), 1, "splice", ph),)
        elif o0.kind == "dict":
            o.base = ph
        else:
            # symbolic/instance object: fields become phi fields when read; keep fields but tag
            o.fields = {f: v for f, v in o0.fields.items()}
            o.cells, o.segs, o.q = o0.cells, o0.segs, o0.q
            if o0.segs:
                o.segs = (mkseg((), 1, "splice", ph),)
        return o

    def loop_var(self, v0, ph, oN, nal, A, binders, noearlier, close, indep, node, name, nstate, post):
        if ph is None or oN is None:
            return v0 if v0 is not None else T("undef")
        if oN is ph:
            return v0 if v0 is not None else T("undef")
        if ph.op == "B":
            at = node_parts(ph.args[0])[0]
            on = oN
            if on.op == "B":
                n = on.args[0]
                n1, n0 = cofactor(n, at, 1), cofactor(n, at, 0)
                a1, a0 = cofactor(nal, at, 1), cofactor(nal, at, 0)
                setc = AND(a0, n0)
                reset = AND(a1, NOT(n1))
                i0 = truth(v0)
                if reset == 0:
                    return B(restrict(OR(i0, close(noearlier(setc))), A))
                if setc == 0:
                    return B(restrict(AND(i0, NOT(close(noearlier(reset)))), A))
                # unconditional dependence on the last iteration
                return B(bvar(T("batom", "lastwins", self.canon_guard(setc, binders), self.canon_guard(reset, binders), v0)))
        # list accumulators built by rebinding
        leaves = cases_of(oN)
        if oN.op == "ref" and v0 is not None and v0.op == "ref":
            o = self.obj(nstate, oN)
            if o is not None and o.kind in ("list", "set") and o.segs and o.segs[0].args[2] == "splice" and o.segs[0].args[3] is ph:
                base = self.obj(post, v0)
                no = base.copy()
                no.segs = base.segs + tuple(self.wrap_seg(s, nal, A, binders, noearlier) for s in o.segs[1:])
                return self.new(post, no)
        # numeric accumulation
        if v0 is not None and (is_num(v0)) and all(is_num(l) for _, l in leaves):
            total = v0
            ok = True
            for gl, leaf in leaves:
                d = num_sub(leaf, ph)
                if contains(d, ph) or bdd_contains(gl, ph):
                    ok = False
                    break
                if num_const(d) == 0:
                    continue
                c = restrict(noearlier(AND(nal, gl)), A)
                total = num_add(total, self.mk_sum(binders, c, d))
            if ok:
                return total
        fz = self.freeze_if_new(oN, nstate, post, binders)
        fz = simp(fz, nal)
        if contains(fz, ph):
            ids = [(g, l) for g, l in cases_of(fz) if l is not ph]
            if not any(contains(l, ph) or bdd_contains(g, ph) for g, l in ids) and not bdd_contains(nal, ph):
                # conditional overwrite: the last iteration that takes the branch wins
                c = OR(*[AND(nal, g) for g, l in ids])
                val = mk_cases([(restrict(g, OR(*[g2 for g2, _ in ids])), l) for g, l in ids])
                cl = close(c)
                v = val if indep(val) else T("last", *self._canon_val(val, c, binders))
                if v0 is None or v0.op == "undef":
                    return v
                return vite(restrict(cl, A), v, v0)
            return T("loopfix", name, self._plain(fz))
        c = nal
        v = fz if indep(fz) else T("last", *self._canon_val(fz, c, binders))
        if v0 is None or v0.op == "undef":
            return v
        return vite(restrict(close(c), A), v, v0)

    def _plain(self, t):
        return t

    def _canon_val(self, val, c, binders):
        x = self.close_value(val, c, binders)
        return x.args

    def mk_sum(self, binders, c, d):
        x = self.close_value(d, c, binders)
        return T("sum", *x.args)

    def wrap_seg(self, s, nal, A, binders, noearlier):
        b, g, k, v = s.args
        n = noearlier(restrict(AND(nal, g.n), A))
        return mkseg(tuple(binders) + tuple(b), n, k, v)

    def loop_obj(self, r, o0, outs, A, binders, noearlier, close, indep, node):
        ph = T("phi", r, getattr(node, "lineno", 0), len(self.stack))
        o = o0.copy()
        if o0.kind == "sym" and outs:
            for _, x in outs:
                if x.kind != "sym":
                    o.kind = x.kind
        if o.kind in ("list", "set") or (o0.segs or any(x.segs for _, x in outs)):
            segs = list(o0.segs)
            bad = False
            done = set()
            for nal, x in outs:
                sg = x.segs
                if o0.kind in ("list", "set") or o0.segs:
                    if not sg or sg[0].args[2] != "splice" or sg[0].args[3] is not ph or sg[0].args[1].n != 1:
                        bad = True
                        break
                    sg = sg[1:]
                for s in sg:
                    if s.args[2] == "splice" and s.args[3] is ph:
                        bad = True
                        break
                    w = self.wrap_seg(s, nal, A, binders, noearlier)
                    if w.args[1].n != 0 and w not in done:
                        done.add(w)
                        segs.append(w)
            if bad:
                self.note("loop rewrites a list it also reads", node)
                o.segs = (mkseg((), 1, "splice", T("havoc", ph)),)
            else:
                o.segs = tuple(segs)
        fields = dict(o0.fields)
        for nal, x in outs:
            for f, v in x.fields.items():
                if o0.fields.get(f) is v:
                    continue
                cur = fields.get(f)
                if cur is None:
                    cur = self.base_attr(r, f) if r.op != "ref" else T("undef")
                leaves = [(g, l) for g, l in cases_of(v) if l is not o0.fields.get(f) and not (l.op == "attr" and l.args[0] is r and l.args[1] == f)]
                c = OR(*[AND(nal, g) for g, l in leaves])
                val = mk_cases([(restrict(g, c) if c else g, l) for g, l in leaves]) if leaves else cur
                if not indep(val):
                    val = T("last", *self._canon_val(val, c, binders))
                fields[f] = vite(restrict(close(noearlier(c)), A), val, cur)
        o.fields = fields
        q = list(o0.q)
        cells = {k: (p, v) for k, p, v in o0.cells}
        order = [k for k, _, _ in o0.cells]
        for nal, x in outs:
            for k, p, v in x.cells:
                if k in cells and cells[k] == (p, v):
                    continue
                if any((k, p, v) == c for c in o0.cells):
                    continue
                # membership inherited from the phi base
                if o0.kind == "dict":
                    bp = bvar(T("has", ph, k))
                    c = AND(nal, p)
                    if p == bp and v is self.mk_idx(ph, k):
                        continue
                    if bdd_contains(p, ph) or contains(v, ph):
                        # written only where missing: setdefault-like / accumulate
                        cpos = AND(nal, cofactor(p, T("has", ph, k), 0)) if p != 1 else nal
                        q.append((tuple(binders), noearlier(restrict(cpos, A)), k, T("loopfix", "cell", v)))
                        continue
                else:
                    c = AND(nal, p)
                if indep(k):
                    pv = cells.get(k)
                    if pv is None:
                        pv = self._base_cell(o0, r, k)
                    val = v if indep(v) else T("last", *self._canon_val(v, c, binders))
                    pc = restrict(close(noearlier(c)), A)
                    np_ = OR(pv[0], pc)
                    # deletions: presence can only be lowered when p excludes the previous one
                    if o0.base is not None and o0.kind != "dict":
                        dele = restrict(close(noearlier(AND(nal, NOT(p)))), A)
                        np_ = AND(OR(pv[0], pc), NOT(dele)) if dele != 0 and AND(p, NOT(pv[0])) == 0 else np_
                    cells[k] = (np_, vite(pc, val, pv[1]) if pv[0] != 0 else val)
                    if k not in order:
                        order.append(k)
                else:
                    q.append((tuple(binders), noearlier(restrict(c, A)), k, v))
            for w in x.q:
                if w in o0.q:
                    continue
                b, g, k, v = w
                q.append((tuple(binders) + tuple(b), noearlier(restrict(AND(nal, g), A)), k, v))
        o.cells = tuple((k,) + cells[k] for k in order)
        o.q = tuple(dict.fromkeys(q))
        return o

    UNROLL = 12

    def unroll_while(self, s, st):
        """execute a while loop whose condition is decided on every iteration; False if it is not"""
        fr = self.frames[-1]
        snap = (len(self.events), len(self.sinks[-1]), len(fr.returns), len(self.notes), len(self.closures))
        x = st.copy()
        exits = []
        for _ in range(self.UNROLL + 4 * self.recursion):
            if x.alive == 0:
                break
            c = self.tr(self.eval(s.test, x), x)
            if AND(x.alive, c) == 0:
                if s.orelse:
                    self.exec_block(s.orelse, x)
                exits.append(x)
                x = None
                break
            if AND(x.alive, NOT(c)) != 0:
                if not self.recursion:
                    break
                out = x.copy()
                out.alive = AND(x.alive, NOT(c))
                if s.orelse:
                    self.exec_block(s.orelse, out)
                exits.append(out)
                x.alive = AND(x.alive, c)
            ctx = LoopCtx()
            fr.loops.append(ctx)
            try:
                self.exec_block(s.body, x)
            finally:
                fr.loops.pop()
            exits.extend(ctx.breaks)
            x = self.merge([x] + ctx.conts) if ctx.conts else x
        if x is not None and x.alive != 0:
            del self.events[snap[0] :]
            del self.sinks[-1][snap[1] :]
            del fr.returns[snap[2] :]
            del self.notes[snap[3] :]
            return False
        live = [e for e in exits if e.alive]
        if live:
            st.become(self.merge(live))
        else:
            st.become(x if x is not None else exits[0])
            st.alive = 0
        return True

    def counted_while(self, s, st):
        """`while i < len(xs): ... i += 1 ...` from i = 0, over a sequence the body leaves alone, as a for loop; None if it is not one"""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not (isinstance(a, ast.Name) and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "len" and len(b.args) == 1 and isinstance(b.args[0], ast.Name)):
            return None
        i, q = a.id, b.args[0].id
        env = self.env(st)
        if env.get(i) is not const(0) or q not in env or self.seq_items(env[q], st) is not None:
            return None
        inc = [n for n, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
               or isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == i and ast.unparse(x.value) in ("%s + 1" % i, "1 + %s" % i)]
        if len(inc) != 1:
            return None
        before, after = s.body[: inc[0]], s.body[inc[0] + 1 :]
        names = lambda xs: [m for x in xs for m in ast.walk(x) if isinstance(m, ast.Name)]
        if any(m.id == i for m in names(after)) or any(m.id == i and not isinstance(m.ctx, ast.Load) for m in names(before)):
            return None
        if any(isinstance(m, ast.Continue) for x in before for m in ast.walk(x)):
            return None
        for x in before + after:
            for m in ast.walk(x):
                if isinstance(m, (ast.FunctionDef, ast.Lambda)):
                    return None
                if isinstance(m, ast.Name) and m.id == q and not isinstance(m.ctx, ast.Load):
                    return None
                if isinstance(m, ast.Name) and m.id == q and not any(isinstance(w, ast.Subscript) and w.value is m and isinstance(w.ctx, ast.Load) for y in before + after for w in ast.walk(y)):
                    return None
        rng = ast.Call(ast.Name("range", ast.Load()), [b], [])
        f = ast.For(ast.Name(i, ast.Store()), rng, (before + after) or [ast.Pass()], [])
        ast.copy_location(f, s)
        for m in (rng, rng.func, f.target):
            ast.copy_location(m, s)
        return f, i, b

    def x_While(self, s, st):
        c = self.counted_while(s, st)
        if c is not None:
            f, i, b = c
            leaves = any(isinstance(m, ast.Break) for x in s.body for m in ast.walk(x))
            self.x_For(f, st)
            if st.alive:
                self.env(st)[i] = T("havoc", i, s.lineno) if leaves else self.eval(b, st)
            return
        b = s.body
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and isinstance(b[0], ast.Try) and len(b[0].body) == 1 and len(b[0].handlers) == 1 and not b[0].orelse and not b[0].finalbody \
                and isinstance(b[0].body[0], ast.Assign) and len(b[0].body[0].targets) == 1 and isinstance(b[0].handlers[0].type, ast.Name) and b[0].handlers[0].type.id == "StopIteration" \
                and len(b[0].handlers[0].body) == 1 and isinstance(b[0].handlers[0].body[0], ast.Break):
            t, c = b[0].body[0].targets[0], b[0].body[0].value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "next" and len(c.args) == 1 and isinstance(c.args[0], ast.Name) \
                    and not any(isinstance(m, ast.Name) and m.id == c.args[0].id for x in b[1:] for m in ast.walk(x)):
                f = ast.For(t, c.args[0], b[1:] or [ast.Pass()], [])
                ast.copy_location(f, s)
                self.x_For(f, st)
                return
        if self.unroll_while(s, st):
            return
        fr = self.frames[-1]
        # summarise with an iteration binder; variables changed in the body are havocked
        it = self.fresh_lv("iter")
        A = st.alive
        self.while_loops.append((self.loc(s), s))
        # find variables changed by the body
        snap = (len(self.events), len(self.sinks[-1]), len(fr.returns), len(self.notes))
        cv, co = set(), set()
        self.loopvars.append(it)
        for _ in range(6):
            del self.events[snap[0] :]
            del self.sinks[-1][snap[1] :]
            del fr.returns[snap[2] :]
            del self.notes[snap[3] :]
            x = st.copy()
            havoc = {}
            for f, n in cv:
                v0 = st.envs[f].get(n)
                h = T("havoc", n, getattr(s, "lineno", 0), it)
                havoc[(f, n)] = h
                x.envs[f][n] = h
            for r in co:
                x.heap[r] = self.phi_obj(self.obj(st, r) or Obj("sym", None, r), r, s)
            head = x.copy()
            c = self.tr(self.eval(s.test, x), x)
            aft_test = x.copy()
            x.alive = AND(x.alive, c, bvar(T("has", T("iterations", getattr(s, "lineno", 0)), it)))
            ctx = LoopCtx()
            fr.loops.append(ctx)
            xi = x.copy()
            self.exec_block(s.body, x)
            fr.loops.pop()
            n = self.merge([x] + ctx.conts)
            nv, no = set(cv), set(co)
            for o in [n] + ctx.breaks + fr.returns[snap[2] :]:
                if o.alive == 0:
                    continue
                for f, e in o.envs.items():
                    if f in st.envs:
                        for k, v in e.items():
                            if k != "$ret" and v is not havoc.get((f, k), st.envs[f].get(k)):
                                nv.add((f, k))
                for r, ob in o.heap.items():
                    b = self.obj(head, r)
                    if b is None and r.op == "ref":
                        continue
                    if b is None or not b.same(ob):
                        no.add(r)
            if nv == cv and no == co:
                break
            cv, co = nv, no
        self.loopvars.pop()
        post = st.copy()
        for f, n_ in cv:
            post.envs[f][n_] = T("havoc", n_, getattr(s, "lineno", 0), T("lv", 0))
        for r in co:
            o0 = self.obj(st, r) or Obj("sym", None, r)
            outs = [(x_.alive, self.obj(x_, r)) for x_ in [n] + ctx.breaks if x_.alive and self.obj(x_, r) is not None]
            post.heap[r] = self.loop_obj(r, o0, outs, A, (it,), lambda c: c, lambda z: exists(it, z), lambda t: not contains(t, it), s)
        for s_ in [n] + ctx.breaks + fr.returns[snap[2] :]:
            for r, ob in s_.heap.items():
                if r not in post.heap:
                    post.heap[r] = ob
        rets = fr.returns[snap[2] :]
        for rs in rets:
            rs.alive = exists(it, rs.alive)
        for e in self.sinks[-1][snap[1] :]:
            e[0].alive = exists(it, e[0].alive)
        # exit: condition false (on the havocked state) or break
        const_true = c == A or c == 1
        post.alive = A
        # evaluate the exit condition on the post state (no events)
        ev = len(self.events)
        p2 = post.copy()
        ce = self.tr(self.eval(s.test, p2), p2)
        del self.events[ev:]
        if const_true and not ctx.breaks:
            post.alive = 0
        elif not ctx.breaks:
            post.alive = AND(A, NOT(ce)) if ce != 1 else 0
        st.become(post)
        if s.orelse and st.alive:
            self.exec_block(s.orelse, st)

    def x_Match(self, s, st):
        v = self.eval(s.subject, st)
        remaining = st
        outs = []
        cur = st.copy()
        for c in s.cases:
            if cur.alive == 0:
                break
            cond = self.match(c.pattern, v, cur)
            hit = cur.copy()
            hit.alive = AND(cur.alive, cond)
            if hit.alive:
                self.match_bind(c.pattern, v, hit)
                if c.guard is not None:
                    gd = self.tr(self.eval(c.guard, hit), hit)
                    cond = AND(cond, gd)
                    hit.alive = AND(hit.alive, gd)
                self.exec_block(c.body, hit)
                outs.append(hit)
            cur.alive = AND(cur.alive, NOT(cond))
        m = self.merge([cur] + outs)
        st.become(m)

    def match(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return eq(v, self.eval(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return eq(v, const(p.value))
        if isinstance(p, ast.MatchOr):
            return OR(*[self.match(x, v, st) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            return 1 if p.pattern is None else self.match(p.pattern, v, st)
        if isinstance(p, ast.MatchClass):
            return self.isinstance_(v, self.eval(p.cls, st), st)
        if isinstance(p, ast.MatchSequence):
            items = self.seq_items(v, st)
            if items is not None and len(items) == len(p.patterns):
                return AND(*[self.match(a, b, st) for a, b in zip(p.patterns, items)])
        return bvar(T("match", ast.dump(p), self.freeze(v, st)))

    def match_bind(self, p, v, st):
        if isinstance(p, ast.MatchAs):
            if p.name:
                self.env(st)[p.name] = v
            if p.pattern is not None:
                self.match_bind(p.pattern, v, st)
        elif isinstance(p, ast.MatchSequence):
            items = self.seq_items(v, st)
            if items is not None:
                for a, b in zip(p.patterns, items):
                    self.match_bind(a, b, st)

    # -------------------------------------------------- domains
    def domain(self, v, st):
        if v.op == "cases":
            out = []
            for g, leaf in cases_of(v):
                out.extend((b, AND(g, g2), x) for b, g2, x in self.domain(leaf, st))
            return [o for o in out if o[1] != 0]
        if v in self.gens:
            self.gens[v][0] = True
        if v.op == "tup":
            return [((), 1, x) for x in v.args]
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("list", "set", "sym") and (o.segs or o.kind != "sym"):
                d = self.seg_domain(o.segs, st)
                return self.dedupe(d) if o.kind == "set" else d
            if o.kind == "dict":
                return self.dict_domain(v, st, "keys")
        if v.op in ("list", "set"):
            d = self.seg_domain(v.args, st)
            return self.dedupe(d) if v.op == "set" else d
        if v.op == "dict":
            out = [((), p.n, k) for k, p, x in v.args[1]]
            return out
        if v.op == "dictview":
            kind, coll = v.args
            return self.dict_domain(coll, st, kind)
        if v.op == "objdict":
            return self.dict_domain(v, st, "keys")
        if v.op in ("sorted", "reversed", "listof", "setof"):
            return self.domain(v.args[0], st)
        if v.op == "range":
            lo, hi, step = v.args
            if is_const(lo) and is_const(hi) and is_const(step) and cval(hi) - cval(lo) <= 16:
                return [((), 1, const(i)) for i in range(cval(lo), cval(hi), cval(step))]
            if is_const(lo) and is_const(step) and cval(step) > 0 and hi.op == "cases" and all(is_const(x) and isinstance(cval(x), int) for _, x in cases_of(hi)):
                top = max(cval(x) for _, x in cases_of(hi))
                if top - cval(lo) <= 32:
                    return [((), g, const(i)) for i in range(cval(lo), top, cval(step)) for g in [OR(*[g for g, x in cases_of(hi) if cval(x) > i])] if g]
            x = self.fresh_lv("int")
            g = AND(le(lo, x), lt(x, hi))
            if step is not const(1):
                g = AND(g, bvar(T("stepof", lo, step, x)))
            return [((x,), g, x)]
        if v.op == "rangelen":
            fz = self.freeze(v.args[0], st)
            return [(b, g, T("posin", fz, x)) for b, g, x in self.domain(v.args[0], st)]
        if v.op == "enumerate":
            inner = self.domain(v.args[0], st)
            out = []
            i = 0
            simple = all(not b and g == 1 for b, g, x in inner)
            for b, g, x in inner:
                if simple:
                    out.append((b, g, T("tup", num_add(const(i), v.args[1]), x)))
                    i += 1
                else:
                    out.append((b, g, T("tup", T("pos", x), x)))
            return out
        if v.op == "zip":
            lists = [self.seq_items(x, st) for x in v.args]
            if all(l is not None for l in lists):
                return [((), 1, T("tup", *xs)) for xs in zip(*lists)]
        if v.op == "const" and v.args[0] == "str" and len(v.args[1]) <= 8:
            return [((), 1, const(c)) for c in v.args[1]]
        if v.op == "chain":
            out = []
            for a in v.args:
                out.extend(self.domain(a, st))
            return out
        if v.op == "cls" and v.args[0] in self.p.classes and self.p.is_enum(self.p.classes[v.args[0]]):
            ci = self.p.classes[v.args[0]]
            return [((), 1, self.cls_attr(st, v, n)) for n in ci.attr_order]
        if v.op == "setop":
            kind, a, b = v.args
            da = self.domain(a, st)
            if kind == "and":
                return [(bs, AND(g, self.contains_(b, x, st)), x) for bs, g, x in da]
            if kind == "sub":
                return [(bs, AND(g, NOT(self.contains_(b, x, st))), x) for bs, g, x in da]
            if kind == "or":
                return da + self.domain(b, st)
        ob = self.obj(st, v)
        if ob is not None and ob.segs:
            return self.seg_domain(ob.segs, st)
        if ob is not None and (ob.cells or ob.q):
            return self.dict_domain(v, st, "keys")
        x = self.fresh_lv()
        self.type_key(v, x, st)
        return [((x,), self.mk_has(v, x), x)]

    def dedupe(self, dom):
        """elements of a set: the same element is there once"""
        out, pos = [], {}
        for b, g, x in dom:
            if not b and x in pos:
                i = pos[x]
                out[i] = ((), OR(out[i][1], g), x)
                continue
            if not b:
                pos[x] = len(out)
            out.append((b, g, x))
        return out

    def counts(self, gs, top):
        """guards of 'exactly j of gs hold' for j = 0..top, where the last one means 'top or more'"""
        cnt = [1] + [0] * top
        for g in gs:
            new = []
            for j in range(top + 1):
                stay = cnt[j] if j == top else AND(cnt[j], NOT(g))
                new.append(OR(stay, AND(cnt[j - 1], g)) if j else stay)
            cnt = new
        return cnt

    def flat_domain(self, v, st):
        """[(guard, element)] of a collection without bound variables, or None"""
        o = self.obj(st, v)
        if v.op == "dictview" and v.args[1].op == "ref":
            o = self.obj(st, v.args[1])
        if o is not None and o.kind == "dict" and (o.base is not None or o.q):
            return None
        if not (v.op in ("list", "set") or (o is not None and (v.op == "ref" or v.op == "dictview") and o.kind in ("list", "set", "dict"))):
            return None
        d = self.domain(v, st)
        if len(d) > 24 or any(b for b, _, _ in d):
            return None
        if (v.op == "set" or (o is not None and o.kind in ("set", "dict"))) and any(eq(a[2], b[2]) != 0 for i, a in enumerate(d) for b in d[:i]):
            return None
        return [(g, x) for _, g, x in d]

    def seg_domain(self, segs, st):
        out = []
        for s in segs:
            b, g, k, val = s.args
            m = {}
            nb = []
            for x in b:
                y = self.fresh_lv(x.args[-1] if len(x.args) > 1 and isinstance(x.args[-1], str) else None)
                if x in self.types:
                    self.types[y] = self.types[x]
                m[x] = y
                nb.append(y)
            gn = subst_bdd(g.n, m, {}) if m else g.n
            vv = subst(val, m) if m else val
            if k == "elem":
                out.append((tuple(nb), gn, vv))
            else:
                for b2, g2, x2 in self.domain(vv, st):
                    out.append((tuple(nb) + tuple(b2), AND(gn, g2), x2))
        return out

    def dict_domain(self, coll, st, kind):
        def mk(k, v):
            return k if kind == "keys" else v if kind == "values" else T("tup", k, v)

        out = []
        if coll.op == "objdict":
            return [((), 1, mk(const(n), v)) for n, v in self.inst_fields(coll.args[0], st)]
        if coll.op == "cases":
            for g, leaf in cases_of(coll):
                out.extend((b, AND(g, g2), x) for b, g2, x in self.dict_domain(leaf, st, kind))
            return [o for o in out if o[1] != 0]
        if coll.op == "dict":
            base, cells = coll.args[0], coll.args[1]
            for k, p, v in cells:
                out.append(((), p.n, mk(k, v)))
            if base is not NONE:
                x = self.fresh_lv()
                self.type_key(base, x, st)
                out.append(((x,), self.mk_has(base, x), mk(x, self.mk_idx(base, x))))
            return out
        o = self.obj(st, coll)
        base = coll
        if o is not None:
            base = o.base if coll.op == "ref" else coll
            if base is not None:
                x = self.fresh_lv()
                self.type_key(base, x, st)
                g = self.mk_has(base, x)
                for k, p, v in o.cells:
                    g = AND(g, NOT(eq(x, k)))
                out.append(((x,), g, mk(x, self.mk_idx(base, x))))
            for k, p, v in o.cells:
                out.append(((), p, mk(k, v)))
            for b, g, k, v in o.q:
                m = {y: self.fresh_lv() for y in b}
                for y in b:
                    if y in self.types:
                        self.types[m[y]] = self.types[y]
                out.append((tuple(m.values()), subst_bdd(g, m, {}), mk(subst(k, m), subst(v, m))))
            return out
        x = self.fresh_lv()
        self.type_key(coll, x, st)
        return [((x,), self.mk_has(coll, x), mk(x, self.mk_idx(coll, x)))]

    def field_names(self, ci):
        """model fields of a class, base classes first"""
        names = []
        for c in reversed(self.p.mro(ci)):
            if isinstance(c, ClassInfo):
                for n in c.attr_order:
                    ann = c.attrs[n][0]
                    if n not in names and ann is not None and not n.startswith("_") and not ast.unparse(ann).startswith(("ClassVar", "typing.ClassVar")):
                        names.append(n)
        return names

    def inst_fields(self, r, st):
        """(name, value) of the instance dictionary of an object"""
        ob = self.obj(st, r)
        ci = self.p.classes.get(ob.cls)
        if ci is None or not self.p.is_model(ci):
            return [(n, v) for n, v in ob.fields.items() if n not in ("*args", "**")]
        out = []
        for n in self.field_names(ci):
            if n in ob.fields:
                out.append((n, ob.fields[n]))
                continue
            fa = self.p.find_attr(ci, n)
            if fa is not None and fa[1] is not None:
                out.append((n, self.class_attr_value(fa, st)))
        return out

    def tr(self, v, st):
        """truth value of a possibly heap allocated value"""
        if v.op == "ref":
            o = self.obj(st, v)
            if o is not None and o.kind in ("list", "set", "dict"):
                return truth(self.freeze(v, st))
            if o is not None and o.kind == "inst":
                return 1
        elif v.op == "cases":
            return OR(*[AND(g, self.tr(x, st)) for g, x in cases_of(v)])
        return truth(v)

    # ------------------------------------------------------------ freeze
    def freeze(self, v, st, depth=0):
        """structural term of a value (heap references resolved)"""
        if depth > 12:
            return v
        if v.op == "ref":
            o = self.obj(st, v)
            if o is None:
                return v
            if o.kind in ("list", "set"):
                segs = []
                for s in o.segs:
                    b, g, k, x = s.args
                    segs.append(mkseg(b, g.n, k, self.freeze(x, st, depth + 1)))
                if o.kind == "list" and len(segs) == 1 and segs[0].args[2] == "splice" and segs[0].args[1].n == 1 and not segs[0].args[0]:
                    inner = segs[0].args[3]
                    if inner.op in ("list",):
                        return inner
                return T(o.kind, *segs)
            if o.kind == "dict":
                cells = tuple((self.freeze(k, st, depth + 1), G(p), self.freeze(x, st, depth + 1)) for k, p, x in o.cells if p != 0 or o.base is not None)
                cells = tuple(sorted(cells, key=lambda c: c[0].id))
                q = tuple((b, G(g), self.freeze(k, st, depth + 1), self.freeze(x, st, depth + 1)) for b, g, k, x in o.q)
                return T("dict", o.base if o.base is not None else NONE, cells, q)
            if o.kind == "inst":
                fields = {f: self.freeze(x, st, depth + 1) for f, x in o.fields.items()}
                ci = self.p.classes.get(o.cls)
                if ci is not None:
                    seen = set()
                    for c in self.p.mro(ci):
                        if isinstance(c, ClassInfo):
                            for n, (ann, val) in c.attrs.items():
                                if n not in fields and n not in seen and val is not None and isinstance(val, ast.Constant):
                                    fields[n] = const(val.value)
                                if val is not None:
                                    seen.add(n)
                return T("rec", o.cls, tuple(sorted(fields.items())))
            return v
        if v.op == "cases":
            return mk_cases([(g, self.freeze(x, st, depth + 1)) for g, x in cases_of(v)])
        if v.op == "tup":
            return T("tup", *[self.freeze(x, st, depth + 1) for x in v.args])
        if v.op in ("seg", "list", "set", "setop", "dictview", "sorted", "listof", "setof", "slice", "enumerate", "zip", "chain", "reversed", "first", "last", "attr", "idx", "call", "mcall", "bound", "fstr"):
            if any(s.op == "ref" for s in subterms(v)):
                m = {}
                for s in subterms(v):
                    if s.op == "ref":
                        m[s] = self.freeze(s, st, depth + 1)
                return subst(v, {k: x for k, x in m.items() if k is not x})
            return v
        return v

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note("unsupported expression %s" % type(e).__name__, e)
            return self.opaque("expr", ast.dump(e))
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return T("ellipsis")
        return const(e.value)

    def e_Name(self, e, st):
        n = e.id
        for_fid = self.frames[-1]
        env = st.envs.get(for_fid.fid, {})
        if n in env and n not in for_fid.globals:
            return env[n]
        # enclosing closures
        par = for_fid.parent
        while par is not None:
            env2 = st.envs.get(par)
            if env2 is not None and n in env2:
                return env2[n]
            par = self.parent_of(par)
        return self.global_name(for_fid.module, n, st)

    def parent_of(self, fid):
        return getattr(self, "_parents", {}).get(fid)

    def global_name(self, m, n, st):
        g = st.envs.get("g:" + m.name)
        if g and n in g:
            return g[n]
        r = self.p.resolve(m, n)
        if r is None:
            return T("ext", "builtins." + n)
        return self.from_resolved(r, st)

    def is_global_mutable(self, m, n):
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global) and n in f.names:
                return True
        return False

    def from_resolved(self, r, st):
        if r[0] == "class":
            return T("cls", r[1].qual)
        if r[0] == "func":
            return T("func", r[1].qual)
        if r[0] == "module":
            return T("module", r[1])
        if r[0] == "ext":
            return T("ext", r[1])
        if r[0] == "assign":
            _, expr, m, name = r
            if (m.name, name) in self.gbind:
                return self.gbind[(m.name, name)]
            if self.is_global_mutable(m, name):
                return T("sym", m.name + "." + name)
            key = (m.name, name)
            v = self.gvals.get(key)
            if v is None:
                self.gvals[key] = T("sym", m.name + "." + name)  # recursion guard
                fr = Frame(None, m, None)
                self.frames.append(fr)
                s2 = State()
                s2.envs[fr.fid] = {}
                ne, nn = len(self.events), len(self.notes)
                self.sinks.append([])
                tt, self.try_types = self.try_types, []
                lv, self.loopvars = self.loopvars, []
                v = self.eval(expr, s2)
                self.loopvars = lv
                self.try_types = tt
                self.sinks.pop()
                del self.events[ne:]
                del self.notes[nn:]
                self.frames.pop()
                self.gheap.update(s2.heap)
                self.gvals[key] = v
            return v
        return T("ext", "?")

    def e_Tuple(self, e, st):
        items = self.elts(e.elts, st)
        if items is None:
            return self.star_list(e.elts, st, "list")
        return T("tup", *items)

    def elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = self.seq_items(v, st)
                if it is None:
                    return None
                out.extend(it)
            else:
                out.append(self.eval(x, st))
        return out

    def star_list(self, elts, st, kind):
        o = Obj(kind)
        r = self.new(st, o)
        for x in elts:
            if isinstance(x, ast.Starred):
                self.list_extend(st, r, self.eval(x.value, st))
            else:
                self.list_append(st, r, self.eval(x, st))
        return r

    def e_List(self, e, st):
        return self.star_list(e.elts, st, "list")

    def e_Set(self, e, st):
        return self.star_list(e.elts, st, "set")

    def e_Dict(self, e, st):
        r = self.new(st, Obj("dict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, st)
                self.dict_update(st, r, src, e)
            else:
                kk = self.eval(k, st)
                self.set_item(st, r, kk, self.eval(v, st), e)
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.eval(x.value, st)
                if x.conversion == ord("r"):
                    v = T("call", "repr", (self.freeze(v, st),))
                if x.format_spec is not None:
                    v = self.format_spec(v, self.eval(x.format_spec, st), st)
                parts.append(self.to_str(v, st, x))
        return self.concat(parts)

    def format_spec(self, v, spec, st):
        v = self.freeze(v, st)
        if is_const(spec) and cval(spec) in ("", "s"):
            return v
        if is_const(spec) and is_const(v):
            try:
                return const(format(cval(v), cval(spec)))
            except (ValueError, TypeError):
                pass
        return T("call", "format", (v, spec))

    def str_format(self, fmt, args, kwargs, st):
        """fmt.format(*args, **kwargs), or None"""
        import string
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            return None
        for lit, field, spec, conv in fields:
            parts.append(const(lit))
            if field is None:
                continue
            if conv not in (None, "s") or "{" in (spec or ""):
                return None
            if field == "":
                field, auto = str(auto), auto + 1
            import re as _re
            m = _re.fullmatch(r"(\w+)((?:\.\w+)*)", field)
            if m is None:
                return None
            head = m.group(1)
            if head.isdigit():
                if int(head) >= len(args):
                    return None
                v = args[int(head)]
            elif head in kwargs:
                v = kwargs[head]
            else:
                return None
            for a in [x for x in m.group(2).split(".") if x]:
                v = self.get_attr(st, v, a, None)
            parts.append(self.to_str(self.format_spec(v, const(spec), st) if spec else v, st))
        return self.concat(parts)

    def str_percent(self, fmt, arg, st):
        import re as _re
        args = list(arg.args) if arg.op == "tup" else [arg]
        bits = _re.split(r"(%[sd%])", fmt)
        if any("%" in b for b in bits[::2]):
            return None
        parts = []
        for n, b in enumerate(bits):
            if n % 2 == 0:
                parts.append(const(b))
            elif b == "%%":
                parts.append(const("%"))
            else:
                if not args:
                    return None
                parts.append(self.to_str(args.pop(0), st))
        return None if args else self.concat(parts)

    # -------------------------------------------------- strings with symbolic tokens
    def enc(self, t):
        """the string with one private character per symbolic token, or None when it is not such a string"""
        if t.op == "const" and t.args[0] in ("str", "int"):
            return str(t.args[1])
        if t in self.strclass:
            return chr((0xE000 if self.strclass[t] == "digits" else 0xE100) + list(self.strclass).index(t))
        if t.op == "call" and t.args[0] in ("int", "str") and len(t.args) == 2 and len(t.args[1]) == 1:
            return self.enc(t.args[1][0]) if t.args[1][0] in self.strclass or t.args[0] == "str" else None
        if t.op == "fstr":
            ps = [self.enc(x) for x in t.args]
            return None if None in ps else "".join(ps)
        return None

    def dec(self, x):
        toks = list(self.strclass)
        if len(x) == 1 and 0xE000 <= ord(x) < 0xE200:
            return toks[ord(x) & 0xFF]
        return self.concat([toks[ord(c) & 0xFF] if 0xE000 <= ord(c) < 0xE200 else const(c) for c in x])

    def symbolic(self, t):
        """encoding of a string that has symbolic tokens"""
        if not self.strclass or not (t in self.strclass or t.op == "fstr"):
            return None
        return self.enc(t)

    STR_METHODS = {"split", "rsplit", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "removesuffix", "removeprefix", "partition", "rpartition", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "lower", "upper", "casefold"}

    def str_method(self, o, a, args, st):
        x = self.enc(o)
        if x is None or not (o.op == "fstr" or o in self.strclass or o.op == "const" and o.args[0] == "str"):
            return None
        if a == "join" and len(args) == 1:
            items = self.seq_items(args[0], st)
            ys = [self.enc(y) for y in items] if items is not None else [None]
            return None if None in ys else self.dec(x.join(ys))
        if a not in self.STR_METHODS:
            return None
        ys = []
        for y in args:
            if y.op == "tup":
                zs = [self.enc(z) for z in y.args]
                ys.append(None if None in zs else tuple(zs))
            elif is_const(y) and not isinstance(cval(y), str):
                ys.append(cval(y))
            else:
                ys.append(self.enc(y))
        if any(y is None and args[n] is not NONE for n, y in enumerate(ys)):
            return None
        if a.startswith("is"):
            cls = lambda c: "d" if c.isdigit() or 0xE000 <= ord(c) < 0xE100 else "w" if c.isalpha() or 0xE100 <= ord(c) < 0xE200 else "o"
            ks = {cls(c) for c in x}
            return B(1 if x and ks <= ({"d"} if a in ("isdigit", "isdecimal", "isnumeric") else {"w"} if a == "isalpha" else {"d", "w"}) else 0)
        if a in ("lower", "upper", "casefold") and any(0xE100 <= ord(c) < 0xE200 for c in x):
            return None
        try:
            r = getattr(x, a)(*ys)
        except (TypeError, ValueError):
            return None
        if isinstance(r, bool):
            return B(1 if r else 0)
        if isinstance(r, list):
            return self.new_list(st, [self.dec(y) for y in r])
        if isinstance(r, tuple):
            return T("tup", *[self.dec(y) for y in r])
        return self.dec(r)

    def str_slice(self, o, lo, hi, step):
        """slices whose ends lie in the literal ends of the string"""
        x = self.enc(o)
        toks = [n for n, c in enumerate(x) if 0xE000 <= ord(c) < 0xE200]
        if step is not NONE or not all(y is NONE or is_const(y) for y in (lo, hi)):
            return None
        for y in (lo, hi):
            if y is not NONE:
                n = cval(y)
                if toks and (n > toks[0] if n >= 0 else -n > len(x) - 1 - toks[-1]):
                    return None
        return self.dec(x[None if lo is NONE else cval(lo) : None if hi is NONE else cval(hi)])

    def regex(self, how, pattern, t, st):
        import re

        pt, x = self.enc(pattern), self.enc(t)
        if pt is None or x is None or "{" in pt and re.search(r"\{\d", pt):
            return None
        dig = "0-9\ue000-\ue0ff"
        pt = re.sub(r"\[([^\]]*)\]", lambda m: "[" + m.group(1).replace("\\d", dig).replace("0-9", dig).replace("\\w", "\\w" + dig + "\ue100-\ue1ff") + "]", pt) if "[" in pt else pt
        pt = re.sub(r"\\d(?![^\[]*\])", "[" + dig + "]", pt)
        pt = re.sub(r"\\w(?![^\[]*\])", "[\\\\w" + dig + "\ue100-\ue1ff]", pt)
        try:
            m = getattr(re, how)(pt, x)
        except re.error:
            return None
        if m is None:
            return NONE
        return T("tup", self.dec(m.group(0)), *[NONE if g is None else self.dec(g) for g in m.groups()])

    def to_str(self, v, st, x=None):
        v = self.freeze(v, st)
        if v.op == "call" and v.args[0] == "int" and v.args[1][0] in self.strclass:
            return v.args[1][0]
        if v.op == "const":
            return const(str(v.args[1]))
        return v

    def concat(self, parts):
        out = []
        for p in parts:
            ps = list(p.args) if p.op == "fstr" else [p]
            for q in ps:
                if q.op == "const" and q.args[0] == "str":
                    if q.args[1] == "":
                        continue
                    if out and out[-1].op == "const" and out[-1].args[0] == "str":
                        out[-1] = const(out[-1].args[1] + q.args[1])
                        continue
                out.append(q)
        if not out:
            return const("")
        if len(out) == 1 and out[0].op == "const":
            return out[0]
        return T("fstr", *out)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        fi = FuncInfo((fr.func.qual if fr.func else fr.module.name) + ".<lambda>", e, fr.module, None)
        self.closures.append((fi, fr.fid))
        return T("closure", len(self.closures) - 1)

    def e_IfExp(self, e, st):
        c = self.tr(self.eval(e.test, st), st)
        return self.branch(st, c, lambda x: self.eval(e.body, x), lambda x: self.eval(e.orelse, x))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(vals, s):
            v = self.eval(vals[0], s)
            if len(vals) == 1:
                return v
            c = self.tr(v, s)
            if isand:
                return self.branch(s, c, lambda x: go(vals[1:], x), lambda x: (v if v.op != "B" else FALSE))
            return self.branch(s, c, lambda x: (v if v.op != "B" else TRUE), lambda x: go(vals[1:], x))

        return go(e.values, st)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return B(NOT(self.tr(v, st)))
        if isinstance(e.op, ast.USub):
            return self.lift1(v, lambda x: num_neg(x) if is_num(x) else T("neg", x))
        if isinstance(e.op, ast.UAdd):
            return v
        return T("unop", type(e.op).__name__, v)

    def lift1(self, v, f):
        if v.op == "cases":
            return mk_cases([(g, f(x)) for g, x in cases_of(v)])
        return f(v)

    def lift2(self, a, b, f):
        if a.op == "cases" or b.op == "cases":
            out = []
            for g1, x in cases_of(a):
                for g2, y in cases_of(b):
                    g = AND(g1, g2)
                    if g:
                        out.append((g, f(x, y)))
            return mk_cases(out)
        return f(a, b)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        return self.lift2(a, b, lambda x, y: self.binop1(op, x, y, st, node))

    def binop1(self, op, a, b, st, node):
        n = type(op).__name__
        if n == "Add":
            if self.is_strish(a) or self.is_strish(b):
                return self.concat([self.freeze(a, st), self.freeze(b, st)])
            if self.is_listish(a, st) or self.is_listish(b, st):
                if a.op == "tup" and b.op == "tup":
                    return T("tup", *(a.args + b.args))
                r = self.new(st, Obj("list"))
                self.list_extend(st, r, a)
                self.list_extend(st, r, b)
                return r
            if is_num(a) and is_num(b):
                return num_add(a, b)
        if n == "Mult" and is_num(a) and is_num(b):
            return num_mul(a, b)
        if n == "Mult" and (self.is_listish(a, st) or self.is_listish(b, st)):
            return T("repeat", self.freeze(a, st), self.freeze(b, st))
        if n == "Sub":
            if self.is_setish(a, st) or self.is_setish(b, st):
                return self.set_op(st, "sub", a, b)
            if is_num(a) and is_num(b):
                return num_sub(a, b)
        if n in ("BitAnd", "BitOr") and (self.is_setish(a, st) or self.is_setish(b, st)):
            if n == "BitOr" and any(x.op == "ref" and self.obj(st, x).kind == "dict" for x in (a, b)):
                r = self.new(st, Obj("dict"))
                self.dict_update(st, r, a, node)
                self.dict_update(st, r, b, node)
                return r
            return self.set_op(st, "and" if n == "BitAnd" else "or", a, b)
        if n == "BitOr" and a.op == "B" and b.op == "B":
            return B(OR(a.args[0], b.args[0]))
        if n == "BitAnd" and a.op == "B" and b.op == "B":
            return B(AND(a.args[0], b.args[0]))
        if n == "Div" and is_num(a) and is_num(b):
            if is_const(b) and cval(b) == 0:
                return T("divzero")
            return num_div(a, b)
        if n == "Pow" and is_num(a) and is_const(b) and b.args[0] in ("int", "float"):
            return num_pow(a, Fraction(cval(b)).limit_denominator(1000))
        if n == "Mod" and is_const(a) and isinstance(cval(a), str):
            r = self.str_percent(cval(a), b, st)
            if r is not None:
                return r
        if n == "Mod" and self.is_strish(a):
            return T("call", "str.%", (a, self.freeze(b, st)))
        if n in ("FloorDiv", "Mod") and is_const(a) and is_const(b) and cval(b) != 0:
            return const(cval(a) // cval(b)) if n == "FloorDiv" else const(cval(a) % cval(b))
        if n == "BitOr" and (a.op in ("cls", "ext") or b.op in ("cls", "ext")):
            return T("uniontype", a, b)
        return T("binop", n, self.freeze(a, st), self.freeze(b, st))

    def is_strish(self, t):
        return t.op == "fstr" or (t.op == "const" and t.args[0] == "str")

    def is_listish(self, t, st):
        if t.op in ("tup", "list", "slice", "repeat"):
            return True
        return t.op == "ref" and self.obj(st, t).kind == "list"

    def is_setish(self, t, st):
        if t.op in ("set", "setof", "setop"):
            return True
        if t.op == "dictview" and t.args[0] == "keys":
            return True
        return t.op == "ref" and self.obj(st, t).kind in ("set", "dict")

    def set_op(self, st, kind, a, b):
        o = Obj("set")
        r = self.new(st, o)
        if kind == "or":
            self.list_extend(st, r, a)
            self.list_extend(st, r, b)
            return r
        segs = []
        for bs, g, x in self.domain(a, st):
            c = self.contains_(b, x, st)
            n = AND(g, c if kind == "and" else NOT(c))
            if n:
                segs.append(mkseg(bs, n, "elem", x))
        o.segs = tuple(segs)
        return r

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        acc = 1
        vals = [left] + [self.eval(c, st) for c in e.comparators]
        for op, a, b in zip(e.ops, vals, vals[1:]):
            acc = AND(acc, self.compare(op, a, b, st, e))
        return B(acc)

    def compare(self, op, a, b, st, node):
        n = type(op).__name__
        if n in ("In", "NotIn"):
            c = self.contains_(b, a, st)
            return c if n == "In" else NOT(c)
        fa, fb = self.cmpval(a, st), self.cmpval(b, st)
        if self.strclass:
            xa, xb = self.enc(fa), self.enc(fb)
            if xa is not None and xb is not None and (self.symbolic(fa) or self.symbolic(fb)):
                if n in ("Eq", "NotEq"):
                    return int((xa == xb) == (n == "Eq"))
            ra, rb = self.num_rank(fa), self.num_rank(fb)
            if ra is not None and rb is not None and n in ("Eq", "NotEq", "Lt", "Gt", "LtE", "GtE"):
                return int({"Eq": ra == rb, "NotEq": ra != rb, "Lt": ra < rb, "Gt": ra > rb, "LtE": ra <= rb, "GtE": ra >= rb}[n])
        if n in ("Is", "IsNot") and {fa.op, fb.op} == {"enum", "const"}:
            return 0 if n == "Is" else 1
        if n in ("Is", "IsNot"):
            c = self.eq_(fa, fb, st, True)
            return c if n == "Is" else NOT(c)
        if n in ("Eq", "NotEq"):
            c = self.eq_(fa, fb, st)
            return c if n == "Eq" else NOT(c)
        if n == "Lt":
            return lt(fa, fb)
        if n == "Gt":
            return lt(fb, fa)
        if n == "LtE":
            return le(fa, fb)
        if n == "GtE":
            return le(fb, fa)
        return bvar(T("cmp", n, fa, fb))

    def num_rank(self, t):
        if t.op == "call" and t.args[0] == "int" and len(t.args[1]) == 1:
            return self.rank.get(t.args[1][0])
        return None

    def incomparable(self, a, b, st):
        """a plain string/number is never equal to an instance of a (non-string) program class"""
        if a.op in ("cases", "B") or b.op in ("cases", "B"):
            return False
        if self.typeof(a, st) not in ("builtins.str", "builtins.int", "builtins.float"):
            return False
        ci = self.p.classes.get(self.typeof(b, st) or "")
        if ci is None or self.p.is_enum(ci):
            return False
        f = self.p.find_method(ci, "__eq__")
        return f is None

    def user_equal(self, a, b, st):
        """== between values of which one may be an instance whose class defines it in the program; None: not decided here"""
        if a is b and a.op not in ("rec", "list", "tup"):
            return None
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == "cases":
                return OR(*[AND(g, self.eq_(y, c, st) if sw else self.eq_(c, y, st)) for g, c in cases_of(x)])
        for x, y in ((a, b), (b, a)):
            if x.op == "rec":
                ci = self.p.classes.get(x.args[0])
                f = self.p.find_method(ci, "__eq__") if ci is not None and not self.p.is_dataclass(ci) else None
                if f is not None:
                    # comparing has no effect on what follows
                    r = self.call_fi(f, [x, y], {}, st, f.node, recv=True)
                    if r.op == "ext" and "NotImplemented" in str(r.args[0]):
                        continue
                    return truth(self.freeze(r, st))
        if a.op == "rec" and b.op == "rec":
            if a.args[0] != b.args[0]:
                return 0
            fa, fb = dict(a.args[1]), dict(b.args[1])
            if set(fa) != set(fb):
                return None
            return AND(*[self.eq_(fa[k], fb[k], st) for k in fa])
        if "rec" in (a.op, b.op) and (a.op in ("const", "tup", "list") or b.op in ("const", "tup", "list")):
            return 0
        if a.op == b.op and a.op in ("list", "tup"):
            xs, ys = self.static_items(a), self.static_items(b)
            if xs is not None and ys is not None:
                if len(xs) != len(ys):
                    return 0
                return AND(1, *[self.eq_(x, y, st) for x, y in zip(xs, ys)])
        return None

    def static_items(self, t):
        if t.op == "tup":
            return list(t.args)
        out = []
        for sg in t.args:
            if not (sg.op == "seg" and not sg.args[0] and sg.args[1].n == 1 and sg.args[2] == "elem"):
                return None
            out.append(sg.args[3])
        return out

    def eq_(self, a, b, st, identity=False):
        if self.user_eq and not identity:
            r = self.user_equal(a, b, st)
            if r is not None:
                return r
        if self.incomparable(a, b, st) or self.incomparable(b, a, st):
            return 0
        if self.rank:
            ra, rb = self.num_rank(a), self.num_rank(b)
            if ra is not None and rb is not None:
                return int(ra == rb)
        return eq(a, b)

    def cmpval(self, v, st):
        return self.freeze(v, st)

    def contains_(self, coll, k, st):
        """BDD for k in coll"""
        if coll.op == "cases":
            return OR(*[AND(g, self.contains_(c, k, st)) for g, c in cases_of(coll)])
        if k.op == "cases":
            return OR(*[AND(g, self.contains_(coll, x, st)) for g, x in cases_of(k)])
        if self.symbolic(coll) is not None and self.enc(k) is not None:
            return int(self.enc(k) in self.symbolic(coll))
        if coll.op == "objdict" and is_const(k):
            return 1 if any(n == cval(k) for n, _ in self.inst_fields(coll.args[0], st)) else 0
        if coll.op == "tup":
            return OR(*[self.eq_(self.freeze(x, st), self.freeze(k, st), st) for x in coll.args])
        if coll.op == "ref":
            o = self.obj(st, coll)
            if o.kind in ("list", "set"):
                return self.segs_contain(o.segs, k, st)
            if o.kind == "dict":
                return self.cell(st, coll, self.freeze(k, st))[0]
            return self.mk_has(coll, self.freeze(k, st))
        if coll.op in ("list", "set"):
            return self.segs_contain(coll.args, k, st)
        if coll.op == "dict":
            base, cells = coll.args[0], coll.args[1]
            r = 0
            fk = self.freeze(k, st)
            for kk, p, v in cells:
                r = OR(r, AND(p.n, self.keq(fk, kk)))
            if base is not NONE:
                r = OR(r, self.mk_has(base, fk))
            return r
        if coll.op == "dictview":
            kind, c = coll.args
            if kind == "keys":
                return self.contains_(c, k, st)
            if kind == "values":
                # enum members / dict values
                r = 0
                for b, g, x in self.dict_domain(c, st, "values"):
                    n = AND(g, eq(self.freeze(x, st), self.freeze(k, st)))
                    for y in reversed(b):
                        n = exists(y, n)
                    r = OR(r, n)
                return r
        if coll.op in ("sorted", "listof", "setof", "reversed"):
            return self.contains_(coll.args[0], k, st)
        if coll.op == "setop":
            r = 0
            kind, a, b = coll.args
            ca, cb = self.contains_(a, k, st), self.contains_(b, k, st)
            return AND(ca, cb) if kind == "and" else AND(ca, NOT(cb)) if kind == "sub" else OR(ca, cb)
        if coll.op == "range":
            lo, hi, step = coll.args
            if step is const(1):
                return AND(le(lo, k), lt(k, hi))
        if coll.op == "const" and coll.args[0] == "str" and k.op == "const":
            return 1 if k.args[1] in coll.args[1] else 0
        fk = self.freeze(k, st)
        o = self.obj(st, coll)
        if o is not None and (o.cells or o.q):
            return self.cell(st, coll, fk)[0]
        if o is not None and o.segs:
            return self.segs_contain(o.segs, k, st)
        return self.mk_has(coll, fk)

    def segs_contain(self, segs, k, st):
        r = 0
        fk = self.freeze(k, st)
        for bs, g, x in self.seg_domain(segs, st):
            # splice of an opaque collection
            n = g
            # if domain was symbolic: (x,) has(coll,x) -> has(coll,k)
            n = AND(n, self.eq_(self.freeze(x, st), fk, st))
            for y in reversed(bs):
                n = exists(y, n)
            r = OR(r, n)
        return r

    # -------------------------------------------------- subscripts
    def mk_has(self, c, k):
        if self.canon_has is not None:
            r = self.canon_has(c, k)
            if r is not None:
                return r
        return bvar(T("has", c, k))

    def type_key(self, coll, x, st):
        """record the declared key/element type of a symbolic collection for its loop variable"""
        a = self.ann_of(coll, st)
        if a is None:
            return
        ann, m, cls = a
        if isinstance(ann, ast.Subscript):
            sl = ann.slice
            k = sl.elts[0] if isinstance(sl, ast.Tuple) else sl
            q = self.ann_class(m, k, cls)
            if q:
                self.types[x] = q

    def ann_of(self, t, st):
        """(annotation, module, class) declared for a symbolic value"""
        if t.op == "attr":
            q = self.typeof(t.args[0], st)
            ci = self.p.classes.get(q) if q else None
            if ci is not None:
                fa = self.p.find_attr(ci, t.args[1])
                if fa and fa[0] is not None:
                    return self._strip_opt(fa[0]), fa[2].module, fa[2]
                f = self.find_method(ci, t.args[1])
                if f is not None and f.is_property and f.node.returns is not None:
                    return self._strip_opt(f.node.returns), f.module, f.cls
        if t.op == "idx":
            a = self.ann_of(t.args[0], st)
            if a is not None and isinstance(a[0], ast.Subscript):
                sl = a[0].slice
                e = sl.elts[-1] if isinstance(sl, ast.Tuple) else sl
                return self._strip_opt(e), a[1], a[2]
        return None

    def _strip_opt(self, ann):
        if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] == "Optional":
            return ann.slice
        return ann

    def mk_idx(self, o, k):
        # nodes[x.id] -> x   (ids identify nodes)
        r = TM.rebuild("idx", [o, k])
        if self.canon is not None and r.op == "idx":
            c = self.canon(r)
            if c is not None:
                return c
        return r

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.eval(e.slice.upper, st) if e.slice.upper else NONE
            step = self.eval(e.slice.step, st) if e.slice.step else NONE
            return self.get_slice(st, o, lo, hi, step)
        k = self.eval(e.slice, st)
        return self.get_item(st, o, k, e)

    def e_Slice(self, e, st):
        lo = self.eval(e.lower, st) if e.lower else NONE
        hi = self.eval(e.upper, st) if e.upper else NONE
        return T("sliceobj", lo, hi)

    def get_slice(self, st, o, lo, hi, step):
        if self.symbolic(o) is not None:
            r = self.str_slice(o, lo, hi, step)
            if r is not None:
                return r
        if o.op == "const" and o.args[0] == "str" and all(x is NONE or is_const(x) for x in (lo, hi, step)):
            f = lambda x: None if x is NONE else cval(x)
            return const(o.args[1][f(lo) : f(hi) : f(step)])
        items = self.seq_items(o, st)
        if items is not None and all(x is NONE or is_const(x) for x in (lo, hi, step)):
            f = lambda x: None if x is NONE else cval(x)
            sub = items[f(lo) : f(hi) : f(step)]
            return T("tup", *sub) if o.op == "tup" else self.new_list(st, sub)
        if lo is NONE:
            lo = const(0)
        if step is NONE and is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0 and (hi is NONE or (is_const(hi) and isinstance(cval(hi), int) and cval(hi) >= 0)):
            fd = self.flat_domain(o, st) if o.op != "set" else None
            if fd is not None and not any(self.has_opaque(g) for g, _ in fd):
                r = self.new(st, Obj("list"))
                segs = []
                for t, (g, x) in enumerate(fd):
                    cnt = self.counts([q for q, _ in fd[:t]], t)
                    w = OR(*[c for j, c in enumerate(cnt) if j >= cval(lo) and (hi is NONE or j < cval(hi))])
                    if AND(g, w):
                        segs.append(mkseg((), AND(g, w), "elem", x))
                self.obj(st, r).segs = tuple(segs)
                return r
        if lo is const(0) and hi is NONE and step is NONE:
            r = self.new(st, Obj("list"))
            self.list_extend(st, r, o)
            return r
        return T("slice", self.freeze(o, st), lo, hi) if step is NONE else T("slice", self.freeze(o, st), lo, hi, step)

    def get_item(self, st, o, k, node):
        if o.op == "cases":
            # distribute with state (KeyErrors)
            res = []
            for g, x in cases_of(o):
                if AND(st.alive, g) == 0:
                    continue
                res.append((g, self.get_item_g(st, x, k, node, g)))
            return mk_cases(res)
        return self.get_item_g(st, o, k, node, 1)

    def get_item_g(self, st, o, k, node, g):
        if k.op == "cases":
            res = []
            for g2, kk in cases_of(k):
                if AND(st.alive, g, g2) == 0:
                    continue
                res.append((g2, self.get_item_g(st, o, kk, node, AND(g, g2))))
            return mk_cases(res)
        if o is NONE:
            self.do_raise_if(st, g, T("exc", "builtins.TypeError", T("tup", o)), node)
            return T("undef")
        if k.op == "posin":
            fz = self.freeze(o, st)
            return k.args[1] if fz is k.args[0] else T("lookup", fz, k)
        if o.op == "objdict" and is_const(k):
            for n, v in self.inst_fields(o.args[0], st):
                if n == cval(k):
                    return v
            self.do_raise_if(st, g, T("exc", "builtins.KeyError", k), node)
            return T("undef")
        items = self.seq_items(o, st)
        if items is not None and k.op == "const" and isinstance(k.args[1], int):
            i = k.args[1]
            if -len(items) <= i < len(items):
                return items[i]
            return T("undef")
        fk = self.freeze(k, st)
        if o.op == "cls":
            # Enum["NAME"] or Generic[...]
            ci = self.p.classes.get(o.args[0])
            if ci is not None and not self.p.is_enum(ci):
                return o
            return T("idx", o, fk)
        if o.op == "dict":
            r = []
            rest = 1
            for kk, p, v in o.args[1]:
                c = AND(rest, eq(fk, kk))
                if c:
                    r.append((c, v))
                    rest = AND(rest, NOT(c))
            if rest and o.args[0] is not NONE:
                r.append((rest, self.mk_idx(o.args[0], fk)))
            elif rest:
                r.append((rest, T("undef")))
            return mk_cases(r)
        ob = self.obj(st, o)
        if (ob is not None and (ob.kind == "dict" or ob.cells or ob.q)) or self.track(o):
            pres, val = self.cell(st, o, fk)
            if self.track(o) or (ob is not None and ob.kind == "dict" and o.op == "ref"):
                if AND(st.alive, g, NOT(pres)) != 0 and not self.has_opaque(pres):
                    self.do_raise_if(st, AND(g, NOT(pres)), T("exc", "builtins.KeyError", T("tup", self.freeze(o, st) if o.op == "ref" else o, fk)), node)
            return val
        if o.op == "ref" and ob is not None and ob.kind in ("list", "set"):
            return T("idx", self.freeze(o, st), fk)
        if o.op == "slice" and fk.op == "const" and isinstance(fk.args[1], int) and fk.args[1] >= 0 and o.args[1].op == "const" and len(o.args) == 3:
            return self.mk_idx(o.args[0], const(o.args[1].args[1] + fk.args[1])) if o.args[1].args[1] >= 0 else T("idx", o, fk)
        return self.mk_idx(o, fk)

    def has_opaque(self, n):
        return False

    def keq(self, a, b):
        """equality of keys"""
        if self.strclass:
            x, y = self.enc(a), self.enc(b)
            if x is not None and y is not None and (self.symbolic(a) or self.symbolic(b)):
                return int(x == y)
        return eq(a, b)

    def cell(self, st, d, k):
        """(presence, value) of key k in dictionary d (ref or symbolic term)"""
        o = self.obj(st, d)
        if o is None:
            return self.mk_has(d, k), self.mk_idx(d, k)
        for kk, p, v in o.cells:
            if kk is k:
                pres, val = p, v
                # later writes to possibly equal keys already folded in at write time
                return self._q_cell(st, o, k, pres, val)
        base = o.base if d.op == "ref" else d
        if base is not None:
            pres, val = self.mk_has(base, k), self.mk_idx(base, k)
        else:
            pres, val = 0, T("undef")
        for kk, p, v in o.cells:
            c = self.keq(k, kk)
            if c:
                val = vite(c, v, val) if pres or c != 1 else v
                pres = ite(c, p, pres)
        return self._q_cell(st, o, k, pres, val)

    def _q_cell(self, st, o, k, pres, val):
        for b, g, kk, v in o.q:
            # solve kk(b) == k
            n = AND(g, eq(kk, k))
            m = {}
            if kk in b:
                m = {kk: k}
                if all(x is kk or not (contains(v, x) or bdd_contains(g, x)) for x in b):
                    c = subst_bdd(g, m, {})
                    vv = subst(v, m)
                    val = vite(c, vv, val) if pres else vv
                    pres = OR(pres, c)
                    continue
            for x in reversed(b):
                n = exists(x, n)
            if n == 0:
                continue
            vv = T("lookup", self.close_value(v, AND(g, eq(kk, k)), b)) if any(contains(v, x) for x in b) else v
            val = vite(n, vv, val) if pres else vv
            pres = OR(pres, n)
        return pres, val

    def set_item(self, st, o, k, v, node):
        fk = self.freeze(k, st)
        self.for_leaves(st, o, lambda s, x, g: self._set_item1(s, x, fk, v, g, node))

    def for_leaves(self, st, o, f):
        for g, x in cases_of(o):
            if AND(st.alive, g):
                f(st, x, g)

    def _set_item1(self, st, o, k, v, g, node):
        """guarded store; st.alive gives the path guard, g the leaf guard"""
        if o.op == "objdict" and is_const(k):
            r = o.args[0]
            old = dict(self.inst_fields(r, st)).get(cval(k), T("undef"))
            self.set_attr(st, r, cval(k), v if g == 1 else vite(g, v, old), node)
            return
        if o.op != "ref":
            self.event(st if g == 1 else _under(st, g), "setitem", o, k, self.freeze(v, st), node=node)
        ob = self.obj(st, o)
        ob = ob.copy() if ob is not None else Obj("sym", None, o)
        if ob.kind == "list":
            # positional store
            items = self.seq_items(o, st)
            if items is not None and k.op == "const" and isinstance(k.args[1], int) and -len(items) <= k.args[1] < len(items):
                items[k.args[1]] = v if g == 1 else vite(g, v, items[k.args[1]])
                ob.segs = tuple(mkseg((), 1, "elem", x) for x in items)
                st.heap[o] = ob
                return
            ob.segs = (mkseg((), 1, "splice", T("stored", self.freeze(o, st), k, self.freeze(v, st))),)
            st.heap[o] = ob
            return
        if o.op == "ref" and ob.kind not in ("dict", "inst", "sym"):
            return
        self.cell_write(st, o, ob, k, g, v)
        st.heap[o] = ob

    def cell_write(self, st, o, ob, k, g, v):
        cells = []
        found = False
        for kk, p, x in ob.cells:
            c = AND(g, self.keq(k, kk))
            if kk is k:
                found = True
            if c == 1:
                cells.append((kk, 1, v))
            elif c == 0:
                cells.append((kk, p, x))
            else:
                cells.append((kk, OR(p, c), vite(c, v, x) if p else v))
        if not found:
            p, x = self.cell(st, o, k)
            if g == 1:
                cells.append((k, 1, v))
            else:
                cells.append((k, OR(p, g), vite(g, v, x) if p else v))
        ob.cells = tuple(cells)
        self.q_shadow(ob, k, g)

    def q_shadow(self, ob, k, g):
        """a single write or deletion after a quantified one wins"""
        if ob.q:
            ob.q = tuple((b, AND(gg, NOT(AND(g, eq(kk, k)))), kk, v) for b, gg, kk, v in ob.q)

    def del_item(self, st, o, k, node):
        fk = self.freeze(k, st)

        def f(s, x, g):
            if x.op != "ref":
                self.event(s if g == 1 else _under(s, g), "delitem", x, fk, node=node)
            ob = self.obj(s, x)
            if ob is not None and ob.kind == "list":
                items = self.seq_items(x, s)
                if items is not None and g == 1 and fk.op == "const" and isinstance(cval(fk), int) and -len(items) <= cval(fk) < len(items):
                    del items[cval(fk)]
                    ob = ob.copy()
                    ob.segs = tuple(mkseg((), 1, "elem", y) for y in items)
                    s.heap[x] = ob
                    return
                ob = ob.copy()
                ob.segs = (mkseg((), 1, "splice", T("removed", self.freeze(x, s), fk)),)
                s.heap[x] = ob
                return
            pres, val = self.cell(s, x, fk)
            if self.track(x) or (ob is not None and ob.kind == "dict" and x.op == "ref" and ob.base is None):
                self.do_raise_if(s, AND(g, NOT(pres)), T("exc", "builtins.KeyError", T("tup", x, fk)), node)
            ob = ob.copy() if ob is not None else Obj("sym", None, x)
            cells = []
            found = False
            for kk, p, v in ob.cells:
                c = AND(g, eq(fk, kk))
                if kk is fk:
                    found = True
                cells.append((kk, AND(p, NOT(c)), v))
            if not found:
                cells.append((fk, AND(pres, NOT(g)), val))
            self.q_shadow(ob, fk, g)
            ob.cells = tuple(cells)
            s.heap[x] = ob

        self.for_leaves(st, o, f)

    def dict_update(self, st, r, src, node):
        for g, x in cases_of(src):
            if AND(st.alive, g) == 0:
                continue
            if AND(st.alive, NOT(g)) == 0:
                g = 1
            o = self.obj(st, x)
            me = self.obj(st, r)
            if g == 1 and me is not None and not me.cells and not me.q and me.base is None and x.op not in ("ref", "dict"):
                n = me.copy()
                n.base = x
                n.kind = "dict"
                if o is not None:
                    n.cells, n.q = o.cells, o.q
                st.heap[r] = n
                continue
            if x.op == "ref" and o.kind == "dict":
                if o.base is not None:
                    if me is not None and not me.cells and me.base is None and g == 1:
                        n = me.copy()
                        n.base, n.cells, n.q = o.base, o.cells, o.q
                        st.heap[r] = n
                        continue
                    self.note("dict update from unknown base", node)
                    n = me.copy()
                    n.base = T("updated", me.base if me.base is not None else NONE, o.base)
                    st.heap[r] = n
                for k, p, v in o.cells:
                    ob = self.obj(st, r).copy()
                    self.cell_write(st, r, ob, k, AND(g, p), v)
                    st.heap[r] = ob
                if o.q:
                    ob = self.obj(st, r).copy()
                    ob.q = ob.q + tuple((b, AND(g, gg), k, v) for b, gg, k, v in o.q)
                    st.heap[r] = ob
                continue
            if x.op == "dict":
                for k, p, v in x.args[1]:
                    ob = self.obj(st, r).copy()
                    self.cell_write(st, r, ob, k, AND(g, p.n), v)
                    st.heap[r] = ob
                continue
            ob = self.obj(st, r).copy()
            y = self.fresh_lv()
            ob.q = ob.q + (((y,), AND(g, self.mk_has(x, y)), y, self.mk_idx(x, y)),)
            st.heap[r] = ob

    # -------------------------------------------------- lists
    def list_append(self, st, r, v, g=1):
        for gg, x in cases_of(r):
            if AND(st.alive, gg) == 0:
                continue
            o = self.obj(st, x)
            o = o.copy() if o is not None else Obj("sym", None, x)
            if not o.segs and x.op != "ref" and o.kind == "sym":
                o.segs = (mkseg((), 1, "splice", T("orig", x)),)
            o.segs = o.segs + (mkseg((), gg, "elem", v),)
            st.heap[x] = o

    def unique_segs(self, segs):
        """segments of a set with each element that is named once"""
        out, pos = [], {}
        for s in segs:
            b, g, k, y = s.args
            if not b and k == "elem":
                if y in pos:
                    i = pos[y]
                    out[i] = mkseg((), OR(out[i].args[1].n, g.n), k, y)
                    continue
                pos[y] = len(out)
            out.append(s)
        return out

    def not_iterable(self, st, coll, node):
        for g, x in cases_of(coll):
            if x is NONE or x.op == "B" or x.op == "const" and x.args[0] in ("int", "float"):
                self.do_raise_if(st, g, T("exc", "builtins.TypeError", T("tup", x)), node)

    def list_extend(self, st, r, v, node=None):
        segs = []
        self.not_iterable(st, v, node)
        for g, x in cases_of(v):
            o = self.obj(st, x)
            if x.op == "ref" and o.kind in ("list", "set"):
                for s in self.unique_segs(o.segs) if o.kind == "set" else o.segs:
                    b, gg, k, y = s.args
                    segs.append(mkseg(b, AND(g, gg.n), k, y))
            elif x.op == "tup":
                segs.extend(mkseg((), g, "elem", y) for y in x.args)
            elif x.op in ("list", "set"):
                for s in self.unique_segs(x.args) if x.op == "set" else x.args:
                    b, gg, k, y = s.args
                    segs.append(mkseg(b, AND(g, gg.n), k, y))
            elif x.op in ("dictview", "setop", "enumerate", "zip", "range") or (x.op == "ref" and o.kind == "dict") or x.op == "dict":
                for b, gg, y in self.domain(x, st):
                    segs.append(mkseg(b, AND(g, gg), "elem", y))
            else:
                segs.append(mkseg((), g, "splice", x))
        segs = [s for s in segs if s.args[1].n != 0]
        for gg, x in cases_of(r):
            if AND(st.alive, gg) == 0:
                continue
            o = self.obj(st, x)
            o = o.copy() if o is not None else Obj("sym", None, x)
            if not o.segs and x.op != "ref" and o.kind == "sym":
                o.segs = (mkseg((), 1, "splice", T("orig", x)),)
            o.segs = o.segs + tuple(s if gg == 1 else mkseg(s.args[0], AND(gg, s.args[1].n), s.args[2], s.args[3]) for s in segs)
            st.heap[x] = o

    # -------------------------------------------------- comprehensions
    def comp(self, gens, st, emit):
        # runs in its own scope: save/restore comprehension targets
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        env = self.env(st)
        saved = {n: env.get(n) for n in names}

        def go(i, s):
            if i == len(gens):
                emit(s)
                return
            g = gens[i]
            coll = self.eval(g.iter, s)

            def body(x, val):
                self.assign(g.target, val, x)

                def rest(conds, y):
                    if not conds:
                        go(i + 1, y)
                        return
                    c = self.tr(self.eval(conds[0], y), y)
                    self.branch(y, c, lambda z: rest(conds[1:], z), lambda z: None)

                rest(g.ifs, x)

            self.loop(s, coll, body, g.iter)

        go(0, st)
        env = self.env(st)
        for n, v in saved.items():
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v

    def e_ListComp(self, e, st):
        r = self.new(st, Obj("list"))
        self.comp(e.generators, st, lambda s: self.list_append(s, r, self.eval(e.elt, s)))
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        r = self.new(st, Obj("set"))
        self.comp(e.generators, st, lambda s: self.list_append(s, r, self.eval(e.elt, s)))
        return r

    def e_DictComp(self, e, st):
        r = self.new(st, Obj("dict"))

        def emit(s):
            k = self.eval(e.key, s)
            self.set_item(s, r, k, self.eval(e.value, s), e)

        self.comp(e.generators, st, emit)
        return r

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        fr = self.frames[-1]
        self.event(st, "yield", self.freeze(v, st), node=e)
        self.list_append(st, fr.gen, v)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        fr = self.frames[-1]
        self.event(st, "yieldfrom", self.freeze(v, st), node=e)
        self.list_extend(st, fr.gen, v)
        return NONE

    # -------------------------------------------------- attributes
    def typeof(self, v, st=None):
        t = self.types.get(v)
        if t:
            return t
        if v.op == "ref" and st is not None:
            o = self.obj(st, v)
            if o is not None and o.kind == "inst":
                return o.cls
            if o is not None and o.kind in ("list", "dict", "set"):
                return "builtins." + o.kind
        if v.op == "rec":
            return v.args[0]
        if v.op == "const":
            return "builtins." + v.args[0]
        if v.op == "B":
            return "builtins.bool"
        if v.op == "fstr":
            return "builtins.str"
        if v.op == "call" and v.args[0] in ("int", "float", "str"):
            return "builtins." + v.args[0]
        if v.op == "tup":
            return "builtins.tuple"
        if v.op in ("list", "dict", "set"):
            return "builtins." + v.op
        if v.op == "attr":
            q = self.typeof(v.args[0], st)
            ci = self.p.classes.get(q) if q else None
            if ci is not None:
                fa = self.p.find_attr(ci, v.args[1])
                if fa and fa[0] is not None:
                    return self.ann_class(fa[2].module, fa[0], fa[2])
        if v.op == "idx":
            a = self.elem_ann(v.args[0], st)
            if a:
                return a
            a = self.ann_of(v, st)
            if a is not None:
                return self.ann_class(a[1], a[0], a[2])
        return None

    def elem_ann(self, d, st):
        """class of the values of a mapping/list attribute, from its annotation"""
        if d.op == "attr":
            q = self.typeof(d.args[0], st)
            ci = self.p.classes.get(q) if q else None
            if ci is not None:
                fa = self.p.find_attr(ci, d.args[1])
                if fa and fa[0] is not None:
                    ann = fa[0]
                    if isinstance(ann, ast.Subscript):
                        sl = ann.slice
                        if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
                            return self.ann_class(fa[2].module, sl.elts[1], fa[2])
                        return self.ann_class(fa[2].module, sl, fa[2])
        return None

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.get_attr(st, o, e.attr, e)

    def get_attr(self, st, o, a, node):
        if o.op == "cases":
            res = []
            # properties may have effects; evaluate each leaf under its guard
            for g, x in cases_of(o):
                if AND(st.alive, g) == 0:
                    continue
                if x is NONE and not hasattr(None, a):
                    self.do_raise_if(st, g, T("exc", "builtins.AttributeError", T("tup", x, const(a))), node)
                    continue
                res.append((g, self.get_attr1(st, x, a, node)))
            return mk_cases(res) if res else T("undef")
        return self.get_attr1(st, o, a, node)

    def get_attr1(self, st, o, a, node):
        if self.on_attr is not None:
            r = self.on_attr(st, o, a)
            if r is not None:
                return r
        if o is NONE and not hasattr(None, a):
            self.do_raise_if(st, 1, T("exc", "builtins.AttributeError", T("tup", o, const(a))), node)
            return T("undef")
        if o.op in ("ext", "module") and o.args[0] in ("os", "os.path") and a == "sep":
            return const("/")
        if o.op == "module":
            m = self.p.modules.get(o.args[0])
            if m is not None:
                if a in m.defs:
                    return self.global_name(m, a, st)
                if o.args[0] + "." + a in self.p.modules:
                    return T("module", o.args[0] + "." + a)
            return T("ext", o.args[0] + "." + a)
        if o.op == "ext":
            return T("ext", o.args[0] + "." + a)
        if o.op == "super":
            return self.super_attr(st, o, a)
        if o.op == "cls":
            return self.cls_attr(st, o, a)
        if o.op == "enum":
            if a == "name":
                return const(o.args[1])
            if a == "value":
                return o.args[2]
        if o.op == "rec":
            for f, v in o.args[1]:
                if f == a:
                    return v
        ob = self.obj(st, o)
        if ob is not None and a in ob.fields:
            return ob.fields[a]
        if a == "__class__":
            q = self.typeof(o, st)
            if o.op == "ref" and q:
                return T("cls", q)
            return T("attr", o, "__class__")
        if a == "__dict__":
            if ob is not None and ob.kind == "inst" and o.op == "ref":
                return T("objdict", o)
            if o.op in ("const", "tup", "list", "dict", "set") or (o.op == "ref" and ob is not None and ob.kind in ("list", "dict", "set")):
                self.do_raise(st, T("exc", "builtins.AttributeError", ()), node)
            return T("attr", o, "__dict__")
        q = self.typeof(o, st)
        ci = self.p.classes.get(q) if q else None
        if ci is not None:
            f = self.find_method(ci, a)
            if f is not None:
                if f.is_property:
                    if self.stop(f):
                        return T("attr", o, a)
                    if f.qual in self.stack or len(self.stack) > MAXDEPTH:
                        return T("attr", o, a)
                    return self.call_fi(f, [o], {}, st, node)
                return T("bound", f.qual, o)
            if o.op in ("ref", "rec"):
                co = self.obj(st, T("cls", ci.qual))
                if co is not None and a in co.fields:
                    return co.fields[a]
                fa = self.p.find_attr(ci, a)
                if fa is not None and fa[1] is not None:
                    v = self.class_attr_value(fa, st)
                    if v.op in ("closure", "func") and not self.p.is_model(ci):
                        # a function in the class is a method
                        return T("partial", v, (o,), ())
                    return v
                if ob is not None and ob.kind == "inst" and ob.closed and fa is None and False:
                    return T("undef")
            else:
                for c in self.p.mro(ci):
                    if isinstance(c, ClassInfo) and a in c.nested:
                        return T("cls", c.nested[a].qual)
        kind = ob.kind if o.op == "ref" and ob is not None else o.op
        if kind in BUILTIN_TYPES and not any(hasattr(t, a) for t in BUILTIN_TYPES[kind]) and not (kind != "const" and ob is not None and ob.fields):
            # a list has no .items()
            self.do_raise(st, T("exc", "builtins.AttributeError", T("tup", o if o.op != "ref" else NONE, const(a))), node)
            return T("undef")
        if o.op == "ref" and ob is not None and ob.kind in ("list", "dict", "set"):
            return T("bmeth", o, a)
        return self.mk_attr(o, a)

    def find_method(self, ci, a):
        f = self.p.find_method(ci, a)
        if f is None:
            for extra in self.mixins(ci):
                f = self.p.find_method(extra, a)
                if f is not None:
                    return f
        return f

    def mixins(self, ci):
        """classes grafted onto the graph classes at run time (edge type / extension GraphAccessMixin)"""
        if self.p.is_subclass(ci, "causy.graph.GraphBaseAccessMixin") or ci.qual == "causy.interfaces.BaseGraphInterface":
            if not hasattr(self.p, "_mixins"):
                self.p._mixins = [c for c in self.p.classes.values() if c.name == "GraphAccessMixin" and c.methods]
            return self.p._mixins
        return []

    def mk_attr(self, o, a):
        return TM.rebuild("attr", [o, a])

    def class_attr_value(self, fa, st):
        ann, val, owner = fa
        key = ("clsattr", owner.qual, id(val))
        v = self.gvals.get(key)
        if v is None:
            fr = Frame(None, owner.module, owner)
            self.frames.append(fr)
            s2 = State()
            s2.envs[fr.fid] = {}
            ne, nn = len(self.events), len(self.notes)
            self.sinks.append([])
            tt, self.try_types = self.try_types, []
            lv, self.loopvars = self.loopvars, []
            # names of sibling class attributes are visible
            v = self.eval(val, s2)
            self.loopvars = lv
            self.try_types = tt
            self.sinks.pop()
            del self.events[ne:]
            del self.notes[nn:]
            self.frames.pop()
            self.gheap.update(s2.heap)
            self.gvals[key] = v
        return v

    def cls_attr(self, st, o, a):
        q = o.args[0]
        ob = self.obj(st, o)
        if ob is not None and a in ob.fields:
            return ob.fields[a]
        ci = self.p.classes.get(q)
        if a == "__name__":
            return const(q.split(".")[-1])
        if a == "__module__":
            return const(ci.module.name) if ci else T("attr", o, a)
        if ci is None:
            return T("attr", o, a)
        if self.p.is_enum(ci):
            fa = self.p.find_attr(ci, a)
            if fa is not None and fa[1] is not None:
                return T("enum", q, a, self.class_attr_value(fa, st))
            if a == "__members__":
                cells = []
                for n in ci.attr_order:
                    fa = self.p.find_attr(ci, n)
                    cells.append((const(n), G(1), T("enum", q, n, self.class_attr_value(fa, st))))
                return T("dict", NONE, tuple(cells), ())
        f = self.p.find_method(ci, a)
        if f is not None:
            if f.is_classmethod:
                return T("bound", f.qual, o)
            return T("func", f.qual)
        for c in self.p.mro(ci):
            if isinstance(c, ClassInfo) and a in c.nested:
                return T("cls", c.nested[a].qual)
        fa = self.p.find_attr(ci, a)
        if fa is not None and fa[1] is not None:
            return self.class_attr_value(fa, st)
        return T("attr", o, a)

    def super_attr(self, st, o, a):
        clsq, selfv = o.args
        ci = self.p.classes.get(clsq)
        q = self.typeof(selfv, st) or clsq
        dyn = self.p.classes.get(q, ci)
        if not self.p.is_subclass(dyn, ci.qual):
            dyn = ci
        f = self.p.find_method(dyn, a, after=ci)
        if f is not None:
            return T("bound", f.qual, selfv)
        return T("superext", dyn.qual, a, selfv)

    def set_attr(self, st, o, a, v, node):
        def f(s, x, g):
            fv = self.freeze(v, s)
            if x.op == "ref" and self.obj(s, x) is None:
                return
            if x.op != "ref":
                self.event(s if g == 1 else _under(s, g), "setattr", x, a, fv, node=node)
            else:
                self.event(s if g == 1 else _under(s, g), "setattr_local", x, a, fv, node=node)
            ob = self.obj(s, x)
            ob = ob.copy() if ob is not None else Obj("sym", None, x)
            if g == 1:
                ob.fields[a] = v
            else:
                old = ob.fields.get(a)
                if old is None:
                    old = self.mk_attr(x, a) if x.op != "ref" else T("undef")
                ob.fields[a] = vite(g, v, old)
            s.heap[x] = ob

        self.for_leaves(st, o, f)

    # -------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frames[-1]
            ci = fr.cls
            if e.args:
                c0 = self.eval(e.args[0], st)
                sv = self.eval(e.args[1], st)
                return T("super", c0.args[0], sv)
            if ci is None and fr.func is not None:
                ci = fr.func.cls
            a = fr.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return T("super", ci.qual, self.env(st)[first])
        f = self.eval(e.func, st)
        args, kwargs = [], {}
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                it = self.seq_items(v, st)
                if it is None:
                    args.append(T("star", self.freeze(v, st)))
                    star = True
                else:
                    args.extend(it)
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                done = False
                o = self.obj(st, v)
                if v.op == "ref" and o.kind == "dict" and o.base is None and not o.q and all(kk.op == "const" and p == 1 for kk, p, x in o.cells):
                    for kk, p, x in o.cells:
                        kwargs[cval(kk)] = x
                    done = True
                elif v.op == "ref" and o.kind == "dict" and all(kk.op == "const" for kk, p, x in o.cells) and o.base is None and not o.q:
                    # conditionally present keywords
                    for kk, p, x in o.cells:
                        kwargs[cval(kk)] = mk_cases([(p, x), (NOT(p), T("absent"))])
                    done = True
                if not done:
                    kwargs["**"] = self.freeze(v, st) if v.op != "ref" else v
                    star = True
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        if st.alive == 0:
            return T("undef")
        return self.call(f, args, kwargs, st, e)

    def call(self, f, args, kwargs, st, node):
        if f.op == "cases":
            res = []
            leaves = [(g, x) for g, x in cases_of(f) if AND(st.alive, g)]

            def go(i, s):
                if i == len(leaves) - 1:
                    return self.call1(leaves[i][1], list(args), dict(kwargs), s, node)
                g, x = leaves[i]
                return self.branch(s, g, lambda y: self.call1(x, list(args), dict(kwargs), y, node), lambda y: go(i + 1, y))

            return go(0, st)
        return self.call1(f, args, kwargs, st, node)

    def call1(self, f, args, kwargs, st, node):
        op = f.op
        if op == "func":
            fi = self.p.funcs[f.args[0]]
            return self.call_fi(fi, args, kwargs, st, node)
        if op == "bound":
            fi = self.p.funcs.get(f.args[0]) or self._local_method(f.args[0])
            if fi.is_static:
                return self.call_fi(fi, args, kwargs, st, node)
            return self.call_fi(fi, [f.args[1]] + args, kwargs, st, node, recv=True)
        if op == "closure":
            fi, fid = self.closures[f.args[0]]
            return self.call_fi(fi, args, kwargs, st, node, closure=fid)
        if op == "cls":
            return self.instantiate(f.args[0], args, kwargs, st, node)
        if op == "bmeth":
            return self.method_builtin(st, f.args[0], f.args[1], args, kwargs, node)
        if op == "superext":
            return self.super_ext(f, args, kwargs, st, node)
        if op == "ext":
            return self.call_ext(f.args[0], args, kwargs, st, node)
        if op == "attr":
            return self.method_unknown(st, f.args[0], f.args[1], args, kwargs, node)
        if op == "partial":
            return self.call(f.args[0], list(f.args[1]) + args, {**dict(f.args[2]), **kwargs}, st, node)
        if op in ("sym", "idx", "call", "mcall", "lv", "bv"):
            # calling an unknown value
            q = self.typeof(f, st)
            ci = self.p.classes.get(q) if q else None
            if ci is not None:
                m = self.p.find_method(ci, "__call__")
                if m is not None:
                    return self.call_fi(m, [f] + args, kwargs, st, node, recv=True)
        if op == "ref":
            o = self.obj(st, f)
            if o.kind == "inst":
                ci = self.p.classes.get(o.cls)
                m = self.p.find_method(ci, "__call__") if ci else None
                if m is not None:
                    return self.call_fi(m, [f] + args, kwargs, st, node, recv=True)
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        r = T("mcall", self.freeze(f, st), "__call__", fa, fk)
        self.event(st, "mcall", self.freeze(f, st), "__call__", fa, fk, r, node=node)
        self.maybe_ext_raise(st, r, node)
        return r

    def _local_method(self, q):
        for c in self.p.classes.values():
            for m in c.methods.values():
                if m.qual == q:
                    return m
        raise AnalysisError("no function " + q)

    def canon_args(self, fi, args, kwargs, st):
        """argument tuple in parameter order with defaults filled in"""
        a = fi.node.args
        params = a.posonlyargs + a.args
        names = [p.arg for p in params]
        vals = dict(zip(names, args))
        rest = args[len(names) :]
        vals.update({k: v for k, v in kwargs.items()})
        defaults = dict(zip(names[len(names) - len(a.defaults) :], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(p.arg)
            if d is not None:
                defaults[p.arg] = d
        out = []
        for n in names:
            if n in vals:
                v = vals.pop(n)
            elif n in defaults:
                v = self.default_value(fi, defaults[n], st)
            else:
                v = T("missing")
            out.append(self.freeze(v, st))
        extra = tuple(sorted((k, self.freeze(v, st)) for k, v in vals.items() if k not in names))
        return tuple(out) + tuple(self.freeze(v, st) for v in rest) + ((T("kw", extra),) if extra else ())

    def default_value(self, fi, expr, st):
        return self.class_attr_value((None, expr, _Owner(fi)), st)

    def call_fi(self, fi, args, kwargs, st, node, recv=False, closure=None):
        stop = self.stop(fi)
        if stop or self.stack.count(fi.qual) > self.recursion or len(self.stack) > MAXDEPTH or (fi.is_abstract and recv):
            fa = self.canon_args(fi, args, kwargs, st)
            if fi.is_abstract and not stop:
                recvv, rest = fa[0], fa[1:]
                # dynamic dispatch to an unknown implementation: keep call-site spelling normalised
                r = T("mcall", recvv, fi.name, rest, ())
                self.event(st, "mcall", recvv, fi.name, rest, (), r, node=node)
                h = self.mcall_handlers.get(fi.name)
                if h is not None:
                    hv = h(self, recvv, args[1:], kwargs, st, node)
                    if hv is not None:
                        return hv
                self.bump(st, fi)
                self.maybe_ext_raise(st, r, node)
                return r
            if self.recursion and not stop and fi.qual in self.stack:
                # deeper than the bound: lost, and endless when an enclosing activation has the very same arguments
                # (or the same scalar arguments, over and over, with collections that only grow)
                scalar = lambda t: tuple(x for x in t.args if x.op not in ("tup", "list", "set", "cases"))
                if any(f.func is fi and f.called_with is not None and scalar(f.called_with) == scalar(T("tup", *fa)) for f in self.frames):
                    self.endless.append((st.alive, fi, node))
                self.note("recursion of %s cut" % fi.qual, node)
                return T("opaque", "recursion of " + fi.qual, fa)
            ep = st.epoch.get("g", 0)
            r = T("call", fi.qual, fa) if not ep else T("call", fi.qual, fa, ("@", ep))
            h = self.call_handlers.get(fi.qual)
            if h is not None:
                hv = h(self, fi, fa, st, node)
                r = r if hv is None else hv
            self.event(st, "call", fi.qual, fa, r, node=node)
            if fi.name in self.mutators or fi.qual in self.mutators:
                self.seq += 1
                st.epoch["g"] = self.seq
            if self.stack.count(fi.qual) > self.recursion and not stop:
                self.note("recursive call to %s kept as a call" % fi.qual, node)
            return r
        vals = self.bind(fi, args, kwargs, st, node)
        if vals is None:
            fa = tuple(self.freeze(a, st) for a in args)
            fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            r = T("call", fi.qual, fa, fk)
            self.event(st, "call", fi.qual, fa, r, node=node)
            self.note("unresolved star arguments to %s" % fi.qual, node)
            return r
        if closure is None:
            for f2, fid in self.closures:
                if f2 is fi:
                    closure = fid
        cw = T("tup", *self.canon_args(fi, args, kwargs, st)) if self.recursion else None
        return self._exec_function(fi, vals, st, closure, cw)

    def bump(self, st, fi):
        if fi.name in self.mutators:
            self.seq += 1
            st.epoch["g"] = self.seq

    def bind(self, fi, args, kwargs, st, node):
        a = fi.node.args
        params = a.posonlyargs + a.args
        names = [p.arg for p in params]
        if any(x.op == "star" for x in args) or "**" in kwargs:
            # allowed when the callee takes *args/**kwargs in the same place
            if not (a.vararg or a.kwarg):
                if any(x.op == "star" for x in args):
                    return None
                return None
        vals = {}
        pos = [x for x in args]
        for n, v in zip(names, pos):
            if v.op == "star":
                break
            vals[n] = v
        rest = pos[len(vals) :]
        kw = dict(kwargs)
        starkw = kw.pop("**", None)
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n in kw:
                vals[n] = kw.pop(n)
        defaults = dict(zip(names[len(names) - len(a.defaults) :], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n in vals:
                v = vals[n]
                if v.op == "cases" and any(l.op == "absent" for _, l in cases_of(v)):
                    if n in defaults:
                        d = self.default_value(fi, defaults[n], st)
                    else:
                        d = T("missing")
                    vals[n] = mk_cases([(g, d if l.op == "absent" else l) for g, l in cases_of(v)])
                continue
            if n in defaults:
                vals[n] = self.default_value(fi, defaults[n], st)
                if starkw is not None:
                    sk = self.freeze(starkw, st)
                    vals[n] = mk_cases([(bvar(T("has", sk, const(n))), T("idx", sk, const(n))), (NOT(bvar(T("has", sk, const(n)))), vals[n])])
            elif starkw is not None:
                vals[n] = T("idx", self.freeze(starkw, st), const(n))
            else:
                vals[n] = T("missing")
        if a.vararg:
            if len(rest) == 1 and rest[0].op == "star":
                vals[a.vararg.arg] = rest[0].args[0]
            else:
                vals[a.vararg.arg] = T("tup", *rest)
        if a.kwarg:
            o = Obj("dict")
            if starkw is not None:
                o.base = self.freeze(starkw, st)
                ob = self.obj(st, starkw)
                if starkw.op == "ref" and ob.kind == "dict":
                    o.base, o.cells, o.q = ob.base, ob.cells, ob.q
                # named parameters are not in **kwargs
                cells = list(o.cells)
                for n in names + [k.arg for k in a.kwonlyargs]:
                    cells = [c for c in cells if c[0] is not const(n)]
                    cells.append((const(n), 0, T("undef")))
                o.cells = tuple(cells)
            cells = list(o.cells)
            for k, v in kw.items():
                cells = [c for c in cells if c[0] is not const(k)]
                p = 1
                if v.op == "cases" and any(l.op == "absent" for _, l in cases_of(v)):
                    p = OR(*[g for g, l in cases_of(v) if l.op != "absent"])
                    v = mk_cases([(g, l) for g, l in cases_of(v) if l.op != "absent"])
                cells.append((const(k), p, v))
            o.cells = tuple(cells)
            vals[a.kwarg.arg] = self.new(st, o)
        return vals

    def instantiate(self, q, args, kwargs, st, node):
        ci = self.p.classes.get(q)
        if ci is None:
            fa = tuple(self.freeze(a, st) for a in args)
            r = T("call", q, fa, tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())))
            self.event(st, "call", q, fa, r, node=node)
            return r
        if self.p.is_enum(ci):
            v = self.freeze(args[0], st) if args else NONE
            if is_const(v):
                for n in ci.attr_order:
                    fa = self.p.find_attr(ci, n)
                    val = self.class_attr_value(fa, st)
                    if is_const(val) and cval(val) == cval(v):
                        return T("enum", q, n, val)
            if v.op == "enum" and v.args[0] == q:
                return v
            return T("call", q, (v,))
        o = Obj("inst", q)
        r = self.new(st, o)
        self.event(st, "new", q, r, node=node)
        init = self.p.find_method(ci, "__init__")
        if init is not None and not self.stop(init) and init.qual not in self.stack:
            if self.p.is_dataclass(ci) and init.cls is not ci:
                pass
            self.call_fi(init, [r] + args, kwargs, st, node, recv=True)
            return r
        self.model_init(st, r, ci, args, kwargs, node)
        return r

    def model_init(self, st, r, ci, args, kwargs, node):
        o = self.obj(st, r).copy()
        names = []
        if self.p.is_dataclass(ci) or any(isinstance(c, ClassInfo) and self.p.is_dataclass(c) for c in self.p.mro(ci)):
            for c in reversed(self.p.mro(ci)):
                if isinstance(c, ClassInfo):
                    for n in c.attr_order:
                        if n not in names and c.attrs[n][0] is not None:
                            names.append(n)
        for n, v in zip(names, args):
            o.fields[n] = v
        if not names and args:
            o.fields["*args"] = T("tup", *args)
        for k, v in kwargs.items():
            if k == "**":
                o.fields["**"] = self.freeze(v, st)
            else:
                if v.op == "cases" and any(l.op == "absent" for _, l in cases_of(v)):
                    fa = self.p.find_attr(ci, k)
                    d = self.class_attr_value(fa, st) if fa and fa[1] is not None else NONE
                    v = mk_cases([(g, d if l.op == "absent" else l) for g, l in cases_of(v)])
                o.fields[k] = v
        st.heap[r] = o

    def super_ext(self, f, args, kwargs, st, node):
        q, a, selfv = f.args
        if a == "__init__":
            ci = self.p.classes.get(q)
            if selfv.op == "ref":
                self.model_init(st, selfv, ci, args, kwargs, node)
            else:
                for k, v in kwargs.items():
                    if k != "**":
                        self.set_attr(st, selfv, k, v, node)
            return NONE
        fa = tuple(self.freeze(x, st) for x in args)
        r = T("mcall", T("super", q, selfv), a, fa, tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())))
        self.event(st, "mcall", T("super", q, selfv), a, fa, (), r, node=node)
        return r

    # -------------------------------------------------- builtin methods
    def method_builtin(self, st, r, a, args, kwargs, node):
        o = self.obj(st, r)
        k = o.kind
        if k in ("list", "set"):
            if a in ("append", "add", "appendleft"):
                self.list_append(st, r, args[0])
                return NONE
            if a in ("extend", "update"):
                for x in args:
                    self.list_extend(st, r, x)
                return NONE
            if a == "insert":
                n = o.copy()
                its = self.seq_items(r, st)
                if args[0] is const(0):
                    n.segs = (mkseg((), 1, "elem", args[1]),) + n.segs
                elif its is not None and is_const(args[0]):
                    its.insert(cval(args[0]), args[1])
                    n.segs = tuple(mkseg((), 1, "elem", y) for y in its)
                else:
                    n.segs = n.segs + (mkseg((), 1, "elem", args[1]),)
                st.heap[r] = n
                return NONE
            if a == "copy":
                n = o.copy()
                return self.new(st, n)
            if a in ("remove", "discard"):
                # filter out equal elements (exact for sets)
                segs = []
                fk = self.freeze(args[0], st)
                present = self.segs_contain(o.segs, args[0], st)
                for bs, g, x in self.seg_domain(o.segs, st):
                    n = AND(g, NOT(self.eq_(self.freeze(x, st), fk, st)))
                    if n:
                        segs.append(mkseg(bs, n, "elem", x))
                if a == "remove":
                    self.do_raise_if(st, NOT(present), T("exc", "builtins.KeyError" if k == "set" else "builtins.ValueError", fk), node)
                n = self.obj(st, r).copy()
                n.segs = tuple(segs)
                if st.alive:
                    st.heap[r] = n
                return NONE
            if a == "clear":
                n = o.copy()
                n.segs = ()
                st.heap[r] = n
                return NONE
            if a == "popleft" and not args:
                a, args = "pop", [const(0)]
            if a == "appendleft" and len(args) == 1:
                n = o.copy()
                n.segs = (mkseg((), 1, "elem", args[0]),) + n.segs
                st.heap[r] = n
                return NONE
            if a == "pop":
                items = self.seq_items(r, st)
                n = o.copy()
                flat = self.flat_domain(r, st) if k == "list" and not items and (not args or args[0] in (const(0), const(-1))) else None
                if flat:
                    # the last (first) element that is present
                    seq = flat if args and args[0] is const(0) else flat[::-1]
                    none, vals, segs = 1, [], []
                    for g, x in seq:
                        vals.append((AND(none, g), x))
                        keep = AND(g, NOT(none))
                        if keep:
                            segs.append(mkseg((), keep, "elem", x))
                        none = AND(none, NOT(g))
                    self.do_raise_if(st, none, T("exc", "builtins.IndexError", NONE), node)
                    n.segs = tuple(segs if args and args[0] is const(0) else segs[::-1])
                    if st.alive:
                        st.heap[r] = n
                    return simp(mk_cases([(g, x) for g, x in vals if AND(g, st.alive)]), st.alive) if st.alive else T("undef")
                if items and (not args or (args[0].op == "const")):
                    i = cval(args[0]) if args else -1
                    v = items.pop(i)
                    n.segs = tuple(mkseg((), 1, "elem", x) for x in items)
                    st.heap[r] = n
                    return v
                fr = self.freeze(r, st)
                n.segs = (mkseg((), 1, "splice", T("popped", fr)),)
                st.heap[r] = n
                return T("popval", fr)
            if a in ("sort", "reverse"):
                v = self.b_sorted([r], kwargs, st, node) if a == "sort" else self.b_reversed([r], {}, st, node)
                n = self.obj(st, r).copy()
                if v.op == "ref":
                    n.segs = self.obj(st, v).segs
                else:
                    n.segs = (mkseg((), 1, "splice", v),)
                st.heap[r] = n
                return NONE
            if a == "intersection":
                res = r
                for x in args:
                    res = self.set_op(st, "and", res, x)
                return res
            if a == "difference":
                res = r
                for x in args:
                    res = self.set_op(st, "sub", res, x)
                return res
            if a == "union":
                res = r
                for x in args:
                    res = self.set_op(st, "or", res, x)
                return res
            if a in ("issubset", "__le__"):
                return B(self.subset(st, r, args[0]))
            if a == "issuperset":
                return B(self.subset(st, args[0], r))
            if a == "isdisjoint":
                n = 0
                for bs, g, x in self.domain(r, st):
                    m = AND(g, self.contains_(args[0], x, st))
                    for y in reversed(bs):
                        m = exists(y, m)
                    n = OR(n, m)
                return B(NOT(n))
            if a in ("index", "count"):
                return T("mcall", self.freeze(r, st), a, tuple(self.freeze(x, st) for x in args), ())
        if k == "dict":
            if a in ("keys", "values", "items"):
                return T("dictview", a, r)
            if a == "get":
                fk = self.freeze(args[0], st)
                p, v = self.cell(st, r, fk)
                d = args[1] if len(args) > 1 else NONE
                return vite(p, v, d) if p != 0 else d
            if a == "copy":
                return self.new(st, o.copy())
            if a == "update":
                for x in args:
                    self.dict_update(st, r, x, node)
                for kk, v in kwargs.items():
                    self.set_item(st, r, const(kk), v, node)
                return NONE
            if a == "setdefault":
                fk = self.freeze(args[0], st)
                p, v = self.cell(st, r, fk)
                d = args[1] if len(args) > 1 else NONE
                nv = vite(p, v, d) if p != 0 else d
                ob = self.obj(st, r).copy()
                self.cell_write(st, r, ob, fk, 1, nv)
                st.heap[r] = ob
                return nv
            if a == "pop":
                fk = self.freeze(args[0], st)
                p, v = self.cell(st, r, fk)
                if len(args) > 1:
                    v = vite(p, v, args[1])
                    s2 = st
                    ob = self.obj(st, r).copy()
                    ob.cells = tuple((kk, AND(pp, NOT(eq(kk, fk))), x) for kk, pp, x in ob.cells if kk is not fk) + ((fk, 0, T("undef")),)
                    st.heap[r] = ob
                else:
                    self.del_item(st, r, fk, node)
                return v
        fa = tuple(self.freeze(x, st) for x in args)
        res = T("mcall", self.freeze(r, st), a, fa, tuple(sorted((kk, self.freeze(v, st)) for kk, v in kwargs.items())))
        self.event(st, "mcall", self.freeze(r, st), a, fa, (), res, node=node)
        return res

    def subset(self, st, a, b):
        n = 0
        for bs, g, x in self.domain(a, st):
            m = AND(g, NOT(self.contains_(b, x, st)))
            for y in reversed(bs):
                m = exists(y, m)
            n = OR(n, m)
        return NOT(n)

    PURE_METHODS = {
        "split", "rsplit", "strip", "startswith", "endswith", "join", "format", "lower", "upper", "replace", "encode",
        "decode", "item", "mean", "std", "view", "size", "isoformat", "hexdigest", "model_dump", "model_dump_json", "copy",
        "index", "count", "title", "read", "sum", "numpy", "tolist", "var", "reshape", "t", "dot", "matmul", "total_seconds", "intersection", "union", "difference", "issubset", "issuperset", "isdisjoint", "removesuffix", "removeprefix", "isdigit", "isnumeric", "partition", "rpartition", "lstrip", "rstrip",
    }

    def method_unknown(self, st, o, a, args, kwargs, node):
        """method call on a symbolic receiver whose class is unknown (or external)"""
        if o.op == "ref" and a in ("copy", "model_copy"):
            ob = self.obj(st, o)
            ci = self.p.classes.get(ob.cls) if ob is not None and ob.kind == "inst" else None
            if ci is not None and self.p.is_model(ci) and set(kwargs) <= {"deep"}:
                return self.deepcopy(o, st, truth(kwargs.get("deep", FALSE)) == 1)
        if a in ("keys", "values", "items") and not args and not kwargs:
            return T("dictview", a, o)
        if o.op == "objdict" and a == "get" and args and is_const(args[0]):
            return dict(self.inst_fields(o.args[0], st)).get(cval(args[0]), args[1] if len(args) > 1 else NONE)
        if o.op == "objdict" and a == "setdefault" and args and is_const(args[0]):
            have = dict(self.inst_fields(o.args[0], st))
            if cval(args[0]) not in have:
                self.set_attr(st, o.args[0], cval(args[0]), args[1] if len(args) > 1 else NONE, node)
                return args[1] if len(args) > 1 else NONE
            return have[cval(args[0])]
        if o.op == "objdict" and a == "copy":
            r = self.new(st, Obj("dict"))
            for n, v in self.inst_fields(o.args[0], st):
                self.set_item(st, r, const(n), v, node)
            return r
        if o.op == "objdict" and a == "update" and len(args) == 1:
            for k, v in self.inst_fields(args[0].args[0], st) if args[0].op == "objdict" else [(cval(k), v) for k, p, v in (self.obj(st, args[0]).cells if args[0].op == "ref" else ()) if p == 1 and is_const(k)]:
                self.set_attr(st, o.args[0], k, v, node)
            return NONE
        if a == "get" and len(args) in (1, 2) and not kwargs and o.op not in ("ext", "module"):
            fk = self.freeze(args[0], st)
            p, v = self.cell(st, o, fk)
            return vite(p, v, args[1] if len(args) > 1 else NONE)
        if a == "copy" and not args:
            r = self.new(st, Obj("dict"))
            self.dict_update(st, r, o, node)
            return r
        if a in ("intersection", "difference", "union") and not kwargs:
            res = o
            for x in args:
                res = self.set_op(st, {"intersection": "and", "difference": "sub", "union": "or"}[a], res, x)
            return res
        if a == "issubset":
            return B(self.subset(st, o, args[0]))
        if a == "issuperset":
            return B(self.subset(st, args[0], o))
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        if o.op == "tup" and o.args and a in ("group", "groups") and not kwargs:
            if a == "groups":
                return T("tup", *o.args[1:])
            if not args or is_const(args[0]) and isinstance(cval(args[0]), int):
                return o.args[cval(args[0]) if args else 0]
        if o.op == "call" and o.args[0] == "re.compile" and len(o.args[1]) == 1 and a in ("match", "fullmatch", "search") and len(args) == 1:
            r = self.regex(a, o.args[1][0], fa[0], st)
            if r is not None:
                return r
        if a == "format" and is_const(o) and isinstance(cval(o), str):
            r = self.str_format(cval(o), args, kwargs, st)
            if r is not None:
                return r
        if not kwargs and (a == "join" or a in self.STR_METHODS) and (self.symbolic(o) is not None or o.op == "const" and o.args[0] == "str"):
            r = self.str_method(o, a, args if a == "join" else fa, st)
            if r is not None:
                return r
        if o.op == "const" and o.args[0] == "str" and all(x.op == "const" for x in fa) and not fk:
            if a in ("find", "rfind", "count"):
                return const(getattr(o.args[1], a)(*[cval(x) for x in fa]))
            if a in ("split", "lower", "upper", "strip", "startswith", "endswith", "replace", "rsplit", "removesuffix", "removeprefix"):
                r = getattr(o.args[1], a)(*[cval(x) for x in fa])
                if isinstance(r, bool):
                    return B(int(r))
                return self.new_list(st, [const(x) for x in r]) if isinstance(r, list) else const(r)
        if self.is_logger(o):
            return NONE
        r = T("mcall", o, a, fa, fk)
        if a in LIST_MUT and o.op not in ("ext", "module"):
            self.event(st, "mutcall", o, a, fa, tuple((k_, self.freeze(v_, st)) for k_, v_ in sorted(kwargs.items())), node=node)
            if a in ("append", "add"):
                self.list_append(st, o, args[0])
                return NONE
            if a in ("extend", "update") and args:
                ob = self.obj(st, o)
                self.list_extend(st, o, args[0])
                return NONE
            if a == "pop" and self.track(o):
                p, v = self.cell(st, o, fa[0])
                if len(args) > 1:
                    ob = self.obj(st, o)
                    ob = ob.copy() if ob is not None else Obj("sym", None, o)
                    ob.cells = tuple(c for c in ob.cells if c[0] is not fa[0]) + ((fa[0], 0, v),)
                    st.heap[o] = ob
                    self.event(st, "delitem", o, fa[0], node=node)
                    return vite(p, v, args[1])
                self.del_item(st, o, args[0], node)
                return v
            if a == "setdefault" and self.track(o):
                p, v = self.cell(st, o, fa[0])
                d = args[1] if len(args) > 1 else NONE
                nv = vite(p, v, d)
                self._set_item1(st, o, fa[0], nv, 1, node)
                return nv
            return r
        h = self.mcall_handlers.get(a)
        if h is not None:
            hv = h(self, o, args, kwargs, st, node)
            if hv is not None:
                self.event(st, "mcall", o, a, fa, fk, hv, node=node)
                return hv
        if a not in self.PURE_METHODS:
            self.event(st, "mcall", o, a, fa, fk, r, node=node)
            if a in self.mutators:
                self.seq += 1
                st.epoch["g"] = self.seq
        self.maybe_ext_raise(st, r, node)
        return r

    def is_logger(self, o):
        while o.op in ("attr", "mcall"):
            o = o.args[0]
        if o.op == "call" and o.args[0] == "logging.getLogger":
            return True
        if o.op == "sym" and isinstance(o.args[0], str) and o.args[0].endswith(".logger"):
            return True
        return False

    # -------------------------------------------------- external / builtin functions
    def call_ext(self, name, args, kwargs, st, node):
        if name.startswith("logging.") and name != "logging.getLogger":
            return NONE
        h = self.ext_handlers.get(name)
        if h is not None:
            r = h(self, args, kwargs, st, node)
            if r is not None:
                return r
        if name.startswith("builtins."):
            f = getattr(self, "b_" + name[9:], None)
            if f is not None and "**" not in kwargs and not any(a.op == "star" for a in args):
                r = f(args, kwargs, st, node)
                if r is not None:
                    return r
            n = name[9:]
            if n in BUILTIN_EXC:
                return T("exc", name, *[self.freeze(a, st) for a in args])
        if name in ("copy.deepcopy", "copy.copy"):
            return self.deepcopy(args[0], st, name.endswith("deepcopy"))
        if name == "collections.deque" and len(args) <= 1 and not kwargs:
            return self.b_list(args, kwargs, st, node)
        if name in ("collections.OrderedDict", "typing.OrderedDict", "collections.defaultdict") and not (name.endswith("defaultdict")):
            return self.b_dict(args, kwargs, st, node)
        if name in ("itertools.chain",):
            r = self.new(st, Obj("list"))
            for a in args:
                self.list_extend(st, r, a)
            return r
        if name == "itertools.chain.from_iterable":
            r = self.new(st, Obj("list"))
            self.loop(st, args[0], lambda x, v: self.list_extend(x, r, v), node)
            return r
        if name == "itertools.product" and len(args) == 2 and not kwargs:
            r = self.new(st, Obj("list"))
            self.loop(st, args[0], lambda x, v: self.loop(x, args[1], lambda y, w: self.list_append(y, r, T("tup", v, w)), node), node)
            return r
        if name in ("itertools.combinations", "itertools.permutations") and len(args) == 2 and is_const(args[1]):
            dom = self.domain(args[0], st)
            if dom is not None and all(not b for b, _, _ in dom) and len(dom) <= 12:
                import itertools as _it

                f = _it.combinations if name.endswith("combinations") else _it.permutations
                r = self.new(st, Obj("list"))
                ob = self.obj(st, r)
                ob.segs = tuple(mkseg((), g, "elem", T("tup", *[x for _, _, x in c])) for c in f(dom, cval(args[1])) for g in [AND(1, *[g for _, g, _ in c])] if g)
                return r
        if name in ("re.match", "re.fullmatch", "re.search") and len(args) == 2 and not kwargs:
            r = self.regex(name[3:], args[0], self.freeze(args[1], st), st)
            if r is not None:
                return r
        if name == "re.escape" and len(args) == 1 and is_const(args[0]):
            import re

            return const(re.escape(cval(args[0])))
        if name == "os.path.splitext" and len(args) == 1 and self.symbolic(args[0]) is not None:
            import posixpath

            return T("tup", *[self.dec(x) for x in posixpath.splitext(self.symbolic(args[0]))])
        if name == "math.sqrt":
            return self.lift1(self.freeze(args[0], st), lambda x: num_pow(x, Fraction(1, 2)) if is_num(x) else T("call", name, (x,)))
        if name == "math.pow" and len(args) == 2 and is_const(args[1]):
            return num_pow(args[0], Fraction(cval(args[1])).limit_denominator(1000))
        if name == "functools.partial":
            return T("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if name == "typing.cast":
            return args[1]
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        if name == "logging.getLogger":
            return T("call", name, fa)
        r = T("call", name, fa, fk) if fk else T("call", name, fa)
        self.event(st, "ext", name, fa, fk, r, node=node)
        self.maybe_ext_raise(st, r, node)
        return r

    def deepcopy(self, v, st, deep=True, memo=None):
        """an independent copy; objects shared inside the original stay shared inside the copy"""
        memo = {} if memo is None else memo
        if v in memo:
            return memo[v]
        if v.op == "ref":
            o = self.obj(st, v).copy()
            r = self.new(st, o)
            memo[v] = r
            if deep:
                sub = lambda x: self.deepcopy(x, st, True, memo) if x.op in ("ref", "cases", "tup") else x
                o = o.copy()
                o.fields = {k: sub(x) for k, x in o.fields.items()}
                o.cells = tuple((k, p, sub(x)) for k, p, x in o.cells)
                o.segs = tuple(mkseg(s_.args[0], s_.args[1].n, s_.args[2], sub(s_.args[3])) if s_.op == "seg" and s_.args[3].op in ("ref", "cases", "tup") else s_ for s_ in o.segs)
                st.heap[r] = o
            return r
        if v.op in ("const", "B", "fstr", "enum", "cls", "func"):
            return v
        if v.op == "tup" and deep:
            return T("tup", *[self.deepcopy(x, st, deep, memo) for x in v.args])
        if v.op == "cases":
            return mk_cases([(g, self.deepcopy(x, st, deep, memo)) for g, x in cases_of(v)])
        return T("copyof", v) if deep else T("shallow", v)

    def b_len(self, args, kw, st, node):
        v = args[0]

        def f(x):
            if x.op == "const" and x.args[0] == "str":
                return const(len(x.args[1]))
            items = self.seq_items(x, st)
            if items is not None:
                return const(len(items))
            fd = self.flat_domain(x, st)
            if fd is not None and not any(self.has_opaque(g) for g, _ in fd):
                return mk_cases([(g, const(j)) for j, g in enumerate(self.counts([g for g, _ in fd], len(fd))) if g])
            fx = self.freeze(x, st)
            if fx.op == "dictview":
                fx = fx.args[1]
            while fx.op in ("listof", "sorted"):
                fx = fx.args[0]
            if fx.op == "list" and len(fx.args) == 1:
                b, g, k, val = fx.args[0].args
                if k == "splice" and g.n == 1 and not b:
                    fx = val
            return T("call", "len", (fx,))

        return self.lift1(v, f)

    def b_isinstance(self, args, kw, st, node):
        return B(self.isinstance_(args[0], args[1], st))

    def isinstance_(self, v, c, st):
        if c.op == "tup":
            return OR(*[self.isinstance_(v, x, st) for x in c.args])
        if c.op == "uniontype":
            return OR(*[self.isinstance_(v, x, st) for x in c.args])
        if v.op == "cases":
            return OR(*[AND(g, self.isinstance_(x, c, st)) for g, x in cases_of(v)])
        q = self.typeof(v, st)
        cq = c.args[0] if c.op in ("cls", "ext") else None
        if cq is None:
            return bvar(T("isinst", self.freeze(v, st), self.freeze(c, st)))
        if v is NONE:
            return 1 if cq.split(".")[-1] == "NoneType" else 0
        if v.op == "enum":
            ci = self.p.classes.get(v.args[0])
            return 1 if ci and self.p.is_subclass(ci, cq) else 0
        if q is not None:
            if q == cq:
                return 1
            ci = self.p.classes.get(q)
            if ci is not None:
                if self.p.is_subclass(ci, cq):
                    return 1
                cc = self.p.classes.get(cq)
                if cc is not None and self.p.is_subclass(cc, q) and v.op not in ("ref", "rec"):
                    return bvar(T("isinst", v, c))
                if v.op in ("ref", "rec") or cq.startswith("builtins."):
                    return 0
                if cc is not None:
                    return 0
                return bvar(T("isinst", v, c))
            if q.startswith("builtins."):
                if cq.startswith("builtins."):
                    if q == "builtins.bool" and cq == "builtins.int":
                        return 1
                    return 0
                if cq in self.p.classes:
                    return 0
                return 0 if v.op in ("const", "B", "ref", "tup", "fstr", "list", "dict", "set") else bvar(T("isinst", v, c))
        return bvar(T("isinst", self.freeze(v, st), c))

    def b_hasattr(self, args, kw, st, node):
        v, a = args[0], args[1]
        if a.op == "const":
            q = self.typeof(v, st)
            ci = self.p.classes.get(q) if q else None
            ob = self.obj(st, v)
            if ob is not None and cval(a) in ob.fields:
                return TRUE
            if ci is not None:
                if self.find_method(ci, cval(a)) or self.p.find_attr(ci, cval(a)):
                    return TRUE
            k = self.known_attr(v, cval(a), ob, ci, st)
            if k is not None:
                return TRUE if k else FALSE
        return B(bvar(T("hasattr", self.freeze(v, st), self.freeze(a, st))))

    PLAIN_BASES = {"pydantic.BaseModel", "abc.ABC", "typing.Generic", "builtins.object", "enum.Enum", "builtins.str"}

    def known_attr(self, v, a, ob, ci, st):
        """does a value of known shape have the attribute? None when unknown"""
        if v.op == "cases":
            ks = {self.known_attr(x, a, self.obj(st, x), self.p.classes.get(self.typeof(x, st) or ""), st) for _, x in cases_of(v)}
            return next(iter(ks)) if len(ks) == 1 else None
        plain = v.op in ("const", "B", "tup", "list", "dict", "set", "fstr", "poly") or (v.op == "ref" and ob is not None and ob.kind in ("list", "dict", "set")) or (v.op != "ref" and (self.typeof(v, st) or "").startswith("builtins."))
        if a == "__dict__":
            if v.op in ("enum", "cls", "func", "closure", "objdict") or (v.op == "ref" and ob is not None and ob.kind == "inst") or v.op == "rec":
                return v.op != "objdict"
            return False if plain else None
        if v.op == "enum" and a in ("value", "name"):
            return True
        if a == "pipeline_steps" and (v.op in ("enum", "func") or v.op == "cls" and (v.args[0] not in self.p.classes or not self.p.is_model(self.p.classes[v.args[0]]))):
            return False
        if v.op == "enum":
            return None
        if plain and a in ("value", "pipeline_steps", "parallel", "generator"):
            return False
        if v.op == "ref" and ob is not None and ob.kind == "inst" and ci is not None and not a.startswith(("_", "model_")):
            if all(x in self.PLAIN_BASES or x.startswith("typing.") for x in self.p.ext_bases(ci)) and a not in ("copy", "dict", "json", "schema", "schema_json", "construct", "parse_obj", "parse_file", "parse_raw", "from_orm", "update_forward_refs", "validate"):
                return False
        return None

    def b_vars(self, args, kw, st, node):
        return self.get_attr(st, args[0], "__dict__", node) if len(args) == 1 else None

    def b_getattr(self, args, kw, st, node):
        a = self.freeze(args[1], st)
        if a.op == "const" and isinstance(a.args[1], str):
            if len(args) > 2:
                ob = self.obj(st, args[0])
                q = self.typeof(args[0], st)
                ci = self.p.classes.get(q) if q else None
                known = (ob is not None and a.args[1] in ob.fields) or (ci is not None and (self.find_method(ci, a.args[1]) or self.p.find_attr(ci, a.args[1])))
                if not known:
                    c = bvar(T("hasattr", self.freeze(args[0], st), a))
                    return vite(c, self.get_attr(st, args[0], a.args[1], node), args[2])
            return self.get_attr(st, args[0], a.args[1], node)
        if a.op == "cases":
            return mk_cases([(g, self.b_getattr([args[0], x] + args[2:], kw, st, node)) for g, x in cases_of(a)])
        return T("getattr", self.freeze(args[0], st), a)

    def b_setattr(self, args, kw, st, node):
        a = self.freeze(args[1], st)
        if a.op == "const":
            self.set_attr(st, args[0], a.args[1], args[2], node)
        else:
            self.event(st, "setattr", self.freeze(args[0], st), a, self.freeze(args[2], st), node=node)
        return NONE

    def b_list(self, args, kw, st, node):
        r = self.new(st, Obj("list"))
        if args:
            self.list_extend(st, r, args[0])
        return r

    def b_tuple(self, args, kw, st, node):
        if not args:
            return T("tup")
        it = self.seq_items(args[0], st)
        if it is not None:
            return T("tup", *it)
        return self.b_list(args, kw, st, node)

    def b_set(self, args, kw, st, node):
        r = self.new(st, Obj("set"))
        if args:
            self.list_extend(st, r, args[0])
        return r

    b_frozenset = b_set

    def b_iter(self, args, kw, st, node):
        return args[0] if len(args) == 1 else None

    def b_dict(self, args, kw, st, node):
        r = self.new(st, Obj("dict"))
        if args:
            v = args[0]
            items = self.seq_items(v, st)
            if items is not None and all(x.op == "tup" and len(x.args) == 2 for x in items):
                for x in items:
                    self.set_item(st, r, x.args[0], x.args[1], node)
            elif v.op == "ref" and self.obj(st, v).kind == "list":
                self.loop(st, v, lambda s, x: self.set_item(s, r, self.get_item(s, x, const(0), node), self.get_item(s, x, const(1), node), node), node)
            else:
                self.dict_update(st, r, v, node)
        for k, v in kw.items():
            self.set_item(st, r, const(k), v, node)
        return r

    def b_sorted(self, args, kw, st, node):
        v = args[0]
        fk = tuple(sorted((k, self.freeze(x, st)) for k, x in kw.items()))
        items = self.seq_items(v, st)
        if items is not None and set(kw) <= {"key", "reverse"}:
            ks = self.sort_keys(items, kw.get("key"), st, node)
            rev = kw.get("reverse", FALSE)
            if ks is not None and is_const(rev):
                try:
                    order = sorted(range(len(items)), key=lambda n: ks[n], reverse=bool(cval(rev)))
                    return self.new_list(st, [items[n] for n in order])
                except TypeError:
                    pass
        return T("sorted", self.freeze(v, st), fk) if fk else T("sorted", self.freeze(v, st))

    def sort_keys(self, items, key, st, node):
        """concrete sort keys, when a constant decides every comparison"""
        ks = [x if key is None or key is NONE else self.call(key, [x], {}, st, node) for x in items]
        ks = [self.freeze(x, st) if x.op == "ref" else x for x in ks]
        if all(is_const(x) for x in ks):
            return [cval(x) for x in ks]
        if ks and all(self.num_rank(x) is not None for x in ks):
            return [self.num_rank(x) for x in ks]
        if all(x.op == "tup" and x.args and is_const(x.args[0]) for x in ks):
            f = [cval(x.args[0]) for x in ks]
            if len(set(f)) == len(f):
                return f
        return None

    def b_reversed(self, args, kw, st, node):
        items = self.seq_items(args[0], st)
        if items is not None:
            return self.new_list(st, items[::-1])
        return T("reversed", self.freeze(args[0], st))

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        return T("enumerate", args[0], start)

    def b_zip(self, args, kw, st, node):
        return T("zip", *args)

    def b_range(self, args, kw, st, node):
        na = node.args if isinstance(node, ast.Call) else []
        if na and (len(na) == 1 or len(na) == 2 and args[0] is const(0)) and isinstance(na[-1], ast.Call) and isinstance(na[-1].func, ast.Name) and na[-1].func.id == "len" and len(na[-1].args) == 1:
            x = na[-1].args[0]
            while isinstance(x, ast.Attribute):
                x = x.value
            if isinstance(x, ast.Name):
                c = self.eval(na[-1].args[0], st)
                if self.seq_items(c, st) is None and (c.op != "const"):
                    return T("rangelen", c)
        a = [self.freeze(x, st) for x in args]
        lo, hi, step = const(0), a[0], const(1)
        if len(a) >= 2:
            lo, hi = a[0], a[1]
        if len(a) == 3:
            step = a[2]
        if any(x.op == "cases" for x in (lo, hi, step)):
            out = []
            for g1, x in cases_of(lo):
                for g2, y in cases_of(hi):
                    for g3, z in cases_of(step):
                        g = AND(g1, g2, g3)
                        if g:
                            out.append((g, T("range", x, y, z)))
            # keep as one symbolic range over guarded bounds
            return T("range", lo, hi, step)
        return T("range", lo, hi, step)

    def b_any(self, args, kw, st, node):
        r = 0
        for bs, g, x in self.domain(args[0], st):
            n = AND(g, self.tr(x, st))
            for y in reversed(bs):
                n = exists(y, n)
            r = OR(r, n)
        return B(restrict(r, st.alive) if st.alive else r)

    def b_all(self, args, kw, st, node):
        r = 0
        for bs, g, x in self.domain(args[0], st):
            n = AND(g, NOT(self.tr(x, st)))
            for y in reversed(bs):
                n = exists(y, n)
            r = OR(r, n)
        if args[0] in self.gens and AND(r, st.alive):
            self.event(st, "shortcircuit", B(r), node=node)
        return B(restrict(NOT(r), st.alive) if st.alive else NOT(r))

    def b_bool(self, args, kw, st, node):
        return B(truth(self.freeze(args[0], st))) if args else FALSE

    def b_str(self, args, kw, st, node):
        if not args:
            return const("")
        v = self.freeze(args[0], st)
        if v.op == "const":
            return const(str(v.args[1]))
        if v.op == "fstr" or v in self.strclass or self.typeof(v, st) == "builtins.str":
            return v
        if v.op == "call" and v.args[0] == "int" and v.args[1][0] in self.strclass:
            return v.args[1][0]
        return T("call", "str", (v,))

    def b_int(self, args, kw, st, node):
        v = self.freeze(args[0], st)
        if v.op == "const" and v.args[0] in ("int",):
            return v
        x = self.symbolic(v) if v.op != "const" else v.args[1] if v.args[0] == "str" else None
        r = T("call", "int", (v,))
        if x is not None:
            if x.strip().isdigit():
                return const(int(x))
            if v in self.strclass and self.strclass[v] == "digits":
                return r
            if any(not (c.isdigit() or 0xE000 <= ord(c) < 0xE100 or c in "+- _") for c in x) or not x:
                self.do_raise(st, T("exc", "builtins.ValueError"), node)
                return T("opaque", "unreachable")
        self.maybe_ext_raise(st, r, node)
        return r

    def b_float(self, args, kw, st, node):
        v = self.freeze(args[0], st)
        if v.op == "const" and v.args[0] in ("int", "float"):
            return const(float(v.args[1]))
        r = T("call", "float", (v,))
        self.maybe_ext_raise(st, r, node)
        return r

    def b_abs(self, args, kw, st, node):
        v = self.freeze(args[0], st)

        def f(x):
            c = num_const(x)
            if c is not None:
                return const(abs(c))
            # abs is even: canonical sign
            if is_num(x):
                if x.op == "poly" and TM._lead_sign(x) < 0:
                    x = num_neg(x)
                # pull out positive constant factors
                p = TM._poly(x)
                l = abs(TM._lead(p))
                if l != 1:
                    return num_mul(TM._unpoly({(): l}), T("call", "abs", (TM._unpoly({m: c / l for m, c in p.items()}),)))
            return T("call", "abs", (x,))

        return self.lift1(v, f)

    def b_type(self, args, kw, st, node):
        q = self.typeof(args[0], st)
        if q and args[0].op in ("ref", "const", "B"):
            return T("cls", q) if q in self.p.classes else T("ext", q)
        return T("typeof", self.freeze(args[0], st))

    def b_print(self, args, kw, st, node):
        self.event(st, "print", tuple(self.freeze(a, st) for a in args), node=node)
        return NONE

    def b_map(self, args, kw, st, node):
        if len(args) == 2:
            r = self.new(st, Obj("list"))
            self.loop(st, args[1], lambda s, x: self.list_append(s, r, self.call(args[0], [x], {}, s, node)), node)
            return r
        return None

    def b_filter(self, args, kw, st, node):
        r = self.new(st, Obj("list"))

        def body(s, x):
            c = truth(x) if args[0] is NONE else truth(self.call(args[0], [x], {}, s, node))
            self.branch(s, c, lambda y: self.list_append(y, r, x), lambda y: None)

        self.loop(st, args[1], body, node)
        return r

    def b_next(self, args, kw, st, node):
        if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Name) and (self.frames[-1].loops or sum(1 for m in ast.walk(self.frames[-1].func.node if self.frames[-1].func else node) if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "next") > 1):
            # an iterator that advances: which element this is depends on the calls before
            self.note("element of an advancing iterator", node)
            return T("havoc", "next", node.lineno, self.freeze(args[0], st))
        dom = self.domain(args[0], st)
        if len(dom) != 1 and not any(b for b, _, _ in dom):
            v, some = args[1] if len(args) > 1 else T("undef"), 0
            for _, g, x in reversed(dom):
                v, some = vite(g, x, v), OR(some, g)
            if len(args) == 1:
                self.do_raise_if(st, NOT(some), T("exc", "builtins.StopIteration"), node)
            return v
        if len(dom) == 1:
            bs, g, x = dom[0]
            n = g
            for y in reversed(bs):
                n = exists(y, n)
            v = x if not any(contains(x, b) for b in bs) else self.close_value(x, g, bs)
            if len(args) > 1:
                return vite(n, v, args[1])
            self.do_raise_if(st, NOT(n), T("exc", "builtins.StopIteration"), node)
            return v
        return None

    def b_sum(self, args, kw, st, node):
        return None

    def b_max(self, args, kw, st, node):
        return self._minmax("max", args, kw, st)

    def b_min(self, args, kw, st, node):
        return self._minmax("min", args, kw, st)

    def _minmax(self, n, args, kw, st):
        if kw:
            return None
        if len(args) == 1:
            it = self.seq_items(args[0], st)
            if it is None or not it:
                return None
            args = it
        args = [self.freeze(a, st) for a in args]
        if all(self.num_rank(x) is not None for x in args):
            return (max if n == "max" else min)(args, key=self.num_rank)
        acc = args[0]
        for b in args[1:]:
            a = acc
            acc = self.lift2(a, b, lambda x, y: vite(lt(x, y), y, x) if n == "max" else vite(lt(y, x), y, x))
        return acc

    def b_callable(self, args, kw, st, node):
        return None

    def b_super(self, args, kw, st, node):
        return None

    def b_property(self, args, kw, st, node):
        return None

    def b_open(self, args, kw, st, node):
        fa = [self.freeze(a, st) for a in args]
        mode = fa[1] if len(fa) > 1 else self.freeze(kw["mode"], st) if "mode" in kw else const("r")
        r = T("call", "open", (fa[0], mode))
        self.event(st, "open", fa[0], mode, node=node)
        self.maybe_ext_raise(st, r, node)
        return r


def x_init(st, r, changed_o, interp, node):
    o = interp.obj(st, r)
    if r in changed_o:
        return interp.phi_obj(o or Obj("sym", None, r), r, node)
    return o


def _under(st, g):
    s = State()
    s.alive = AND(st.alive, g)
    s.heap, s.envs, s.epoch = st.heap, st.envs, st.epoch
    return s


class _Owner:
    def __init__(self, fi):
        self.module, self.qual = fi.module, fi.qual


def _load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


class Summary:
    def frz(self, v=None):
        return self.interp.freeze(self.ret if v is None else v, self.state)


# ---------------------------------------------------------------- domain normalisations
@rebuilder("has")
def _rb_has(c, k):
    if k.op == "cases":
        return B(OR(*[AND(g, truth(_rb_has(c, x))) for g, x in cases_of(k)]))
    if c.op == "cases":
        return B(OR(*[AND(g, truth(_rb_has(x, k))) for g, x in cases_of(c)]))
    return T("has", c, k)


@rebuilder("isinst")
def _rb_isinst(v, c):
    return T("isinst", v, c)


NODES_ATTR = "nodes"


@rebuilder("idx")
def _rb_idx(o, k):
    if o.op == "cases":
        return mk_cases([(g, _rb_idx(x, k)) for g, x in cases_of(o)])
    if k.op == "cases":
        return mk_cases([(g, _rb_idx(o, x)) for g, x in cases_of(k)])
    if o.op == "attr" and o.args[1] == NODES_ATTR and k.op == "attr" and k.args[1] == "id":
        return k.args[0]
    if o.op == "tup" and k.op == "const" and isinstance(k.args[1], int) and -len(o.args) <= k.args[1] < len(o.args):
        return o.args[k.args[1]]
    if o.op == "rec_":
        pass
    return T("idx", o, k)


@rebuilder("attr")
def _rb_attr(o, a):
    if o.op == "cases":
        return mk_cases([(g, _rb_attr(x, a)) for g, x in cases_of(o)])
    if a == "id" and o.op == "idx" and o.args[0].op == "attr" and o.args[0].args[1] == NODES_ATTR:
        return o.args[1]
    if o.op == "rec":
        for f, v in o.args[1]:
            if f == a:
                return v
    return T("attr", o, a)


@rebuilder("call")
def _rb_call(name, args, *rest):
    if name == "len" and len(args) == 1 and args[0].op == "cases":
        return mk_cases([(g, _rb_call(name, (x,), *rest)) for g, x in cases_of(args[0])])
    if name == "len" and args[0].op == "tup":
        return const(len(args[0].args))
    return T("call", name, args, *rest)
