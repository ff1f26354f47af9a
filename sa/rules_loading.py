"""C22 loading algorithms by reference, C26 the HTTP API."""
import posixpath

from .rules_workspace import *

ART = "causy.models.AlgorithmReferenceType"
CWD = "/home/user/project"
# reference -> the file it denotes (symbolic links resolved)
INSIDE = {"algorithm.yml": CWD + "/algorithm.yml", "sub/algorithm.yml": CWD + "/sub/algorithm.yml", "./a.json": CWD + "/a.json", "sub/../a.json": CWD + "/a.json", CWD + "/a.json": CWD + "/a.json", "..a.json": CWD + "/..a.json", "inner_link.json": CWD + "/sub/target.json"}
OUTSIDE = {
    "../a.json": "/home/user/a.json",
    "/etc/passwd": "/etc/passwd",
    "a.json": "/etc/secret.json",
    "sub/../../a.json": "/home/user/a.json",
    "../project2/a.json": "/home/user/project2/a.json",
    "../project.json": "/home/user/project.json",
    "../proj/a.json": "/home/user/proj/a.json",
    CWD + "/../b.json": "/home/user/b.json",
    CWD + "2/a.json": CWD + "2/a.json",
    "/a.json": "/a.json",
    "link/a.json": "/srv/home/user/project/a.json",
    "/srv" + CWD + "/a.json": "/srv" + CWD + "/a.json",
}


def path_handlers(i, real):
    """constant folding of path functions in a directory CWD with the given resolution of symbolic links"""

    def lift(f):
        def h(it, args, kw, s, n):
            xs = []
            for a in args:
                a = it.freeze(a, s)
                if a.op in ("list", "tup") and not is_const(a):
                    ys, why = concrete(a, s.alive)
                    if ys is None or not all(is_const(y) for y in ys):
                        return None
                    xs.append([cval(y) for y in ys])
                elif is_path(a):
                    xs.append(cval(a.args[1][0]))
                elif is_const(a) and isinstance(cval(a), str):
                    xs.append(cval(a))
                else:
                    return None
            try:
                r = f(*xs)
            except ValueError:
                it.do_raise(s, T("exc", "builtins.ValueError"), n)
                return T("opaque", "unreachable")
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, tuple):
                return T("tup", *[const(x) for x in r])
            return const(r)

        return h

    ab = lambda x: posixpath.normpath(posixpath.join(CWD, x))
    real = {**{ab(k): v for k, v in real.items()}, **real}
    rp = lambda x: real.get(x) or real.get(posixpath.join(CWD, x)) or ab(x)
    for n, f in (("realpath", rp), ("abspath", ab), ("normpath", posixpath.normpath), ("join", posixpath.join), ("commonpath", posixpath.commonpath), ("commonprefix", posixpath.commonprefix), ("relpath", lambda x, y=CWD: posixpath.relpath(ab(x), ab(y))), ("dirname", posixpath.dirname), ("basename", posixpath.basename), ("isabs", posixpath.isabs), ("split", posixpath.split), ("splitext", posixpath.splitext), ("exists", lambda x: True), ("isfile", lambda x: True), ("islink", lambda x: rp(x) != ab(x))):
        i.ext_handlers["os.path." + n] = lift(f)
    cwd = lambda it, args, kw, s, n: const(CWD)
    i.ext_handlers["os.getcwd"] = cwd
    P = lambda x: T("call", "pathlib.Path", (const(x),))

    def mk(it, args, kw, s, n):
        r = lift(lambda *x: posixpath.join(*x) if x else ".")(it, args, kw, s, n)
        return None if r is None else T("call", "pathlib.Path", (r,))

    i.ext_handlers["pathlib.Path"] = mk
    i.ext_handlers["pathlib.Path.cwd"] = lambda it, args, kw, s, n: P(CWD)

    def meth(f, path=True):
        def h(it, recv, args, kw, s, n):
            if not is_path(recv):
                return None
            r = lift(f)(it, [recv.args[1][0]] + list(args), {}, s, n)
            return T("call", "pathlib.Path", (r,)) if path and r is not None and is_const(r) else r

        return h

    inside = lambda x, y: x == y or x.startswith(y.rstrip("/") + "/")

    def relto(x, y):
        if not inside(x, y):
            raise ValueError
        return posixpath.relpath(x, y)

    for n, h in (("resolve", meth(rp)), ("absolute", meth(lambda x: posixpath.join(CWD, x))), ("is_relative_to", meth(inside, False)), ("relative_to", meth(relto)), ("joinpath", meth(posixpath.join)), ("as_posix", meth(lambda x: x, False)), ("exists", meth(lambda x: True, False)), ("is_file", meth(lambda x: True, False)), ("is_absolute", meth(posixpath.isabs, False))):
        i.mcall_handlers[n] = h

    def attrs(st, o, a):
        if is_path(o) and a in ("parent", "parents", "name", "suffix"):
            x = cval(o.args[1][0])
            if a == "parents":
                ps = []
                while posixpath.dirname(x) != x:
                    x = posixpath.dirname(x)
                    ps.append(P(x))
                return T("tup", *ps)
            return P(posixpath.dirname(x)) if a == "parent" else const(posixpath.basename(x) if a == "name" else posixpath.splitext(x)[1])
        return None

    i.on_attr = attrs
    return rp


def is_path(t):
    return t.op == "call" and t.args[0] == "pathlib.Path" and len(t.args[1]) == 1 and is_const(t.args[1][0])


class Files:
    """open, read and seek with a read position, and parsers that accept or reject the text"""

    def __init__(self, i, json_ok=True, yaml_ok=True):
        self.opened, self.pos, self.loaded = [], {}, []
        self.json_ok, self.yaml_ok = json_ok, yaml_ok
        i.ext_handlers["builtins.open"] = self.open
        i.mcall_handlers["open"] = lambda it, recv, args, kw, s, n: self.open(it, [recv] + list(args), kw, s, n) if is_path(recv) else None
        i.mcall_handlers["read_text"] = lambda it, recv, args, kw, s, n: self.text(it, [recv], s, n) if is_path(recv) else None
        i.mcall_handlers["read"] = self.read
        i.mcall_handlers["seek"] = self.seek
        for n in ("json.loads", "json.load"):
            i.ext_handlers[n] = self.parse("json", "json_ok", "json.JSONDecodeError")
        for n in ("yaml.load", "yaml.safe_load", "yaml.full_load"):
            i.ext_handlers[n] = self.parse("yaml", "yaml_ok", "yaml.YAMLError")

    def open(self, it, args, kw, s, n):
        f = it.freeze(args[0] if args else kw["file"], s)
        f = f.args[1][0] if is_path(f) else f
        self.opened.append((s.alive, f, n))
        h = T("call", "file", (f, const(len(self.opened))))
        self.pos[h] = 0
        return h

    def handle(self, t):
        t = t.args[0] if t.op == "enter" else t
        return t if t.op == "call" and t.args[0] == "file" else None

    def text(self, it, args, s, n):
        h = self.open(it, args, {}, s, n)
        return T("call", "text", (h.args[1][0],))

    def read(self, it, recv, args, kw, s, n):
        h = self.handle(recv)
        if h is None:
            return None
        self.pos[h] = self.pos.get(h, 0) + 1
        return T("call", "text", (h.args[1][0],)) if self.pos[h] == 1 else const("")

    def seek(self, it, recv, args, kw, s, n):
        h = self.handle(recv)
        if h is None:
            return None
        self.pos[h] = 0
        return NONE

    def parse(self, kind, ok, exc):
        def h(it, args, kw, s, n):
            t = it.freeze(args[0], s)
            hd = self.handle(t)
            if hd is not None:
                t = self.read(it, hd, [], {}, s, n)
            if t.op == "const" and cval(t) == "":
                if kind == "json":
                    it.do_raise(s, T("exc", exc), n)
                    return T("opaque", "unreachable")
                return NONE
            if t.op != "call" or t.args[0] != "text":
                return None
            if not getattr(self, ok):
                it.do_raise(s, T("exc", exc), n)
                return T("opaque", "unreachable")
            return T("call", kind, (t,))

        return h


# ---------------------------------------------------------------------------------------------- C22
def C22(ctx):
    for ref, f in list(INSIDE.items()) + list(OUTSIDE.items()):
        ctx.guard("C22.contained", ref, c22_contained, ctx, ref, f, ref in INSIDE)
    for j, y in ((True, True), (True, False), (False, True), (False, False)):
        ctx.guard("C22.format", "JSON %s YAML %s" % (j, y), c22_format, ctx, j, y)
    for kind in ("enum", "string"):
        ctx.guard("C22.isolated", "by name", c22_name, ctx, kind)
        ctx.guard("C22.isolated", "by module", c22_module, ctx, kind)


def c22_run(ctx, kind, ref, files=None, real=None, typ="enum", pre=None):
    p = ctx.prog
    fi = p.func(SE + "load_algorithm_by_reference")
    ps = [a.arg for a in fi.node.args.args]
    i = var_interp(p)
    path_handlers(i, real or {})
    fs = Files(i, *(files or (True, True)))
    i.stop = lambda f: f.qual == SE + "load_algorithm_from_specification"
    i.call_handlers[SE + "load_algorithm_from_specification"] = lambda it, f, args, s, n: T("call", "algorithm", (args[0],))
    st = State()
    if pre:
        pre(i, st)
    ci = p.classes[ART]
    t = enum_member(p, ci, kind) if typ == "enum" else const(kind.lower())
    s = i.run(fi, args={ps[0]: t, ps[1]: const(ref)}, st=st)
    ctx.note_run(s)
    return fi, i, fs, s


def enum_member(p, ci, name):
    i = Interp(p)
    return T("enum", ci.qual, name, i.class_attr_value(p.find_attr(ci, name), State()))


def c22_contained(ctx, ref, f, inside):
    nm = "the file %s, which is %s" % (ref, f)
    for typ in ("enum", "string"):
        fi, i, fs, s = c22_run(ctx, "FILE", ref, real={ref: f}, typ=typ)
        c = "%s (type as %s)" % (nm, typ)
        if undecidable(ctx, "C22.contained", c, s, fi.loc):
            continue
        op = [(a, x, n) for a, x, n in fs.opened if a]
        if inside:
            bad = [r for r in s.raises if r[0].alive]
            got = {x for a, x, n in op}
            ok = not bad and got and all(is_const(x) and cval(x) in (f, ref, posixpath.normpath(posixpath.join(CWD, ref))) for x in got)
            ctx.add("C22.contained", c + ": is loaded", HOLDS if ok else VIOLATED if bad or all(is_const(x) for x in got) else UNDECIDED, "" if ok else "fails with %s" % show(bad[0][1])[:80] if bad else "opens %s" % [show(x) for x in got], fi.loc)
        else:
            dec = all(a == 1 for a, x, n in op)
            ok = not op
            ctx.add("C22.contained", c + ": is not opened", HOLDS if ok else VIOLATED if dec else UNDECIDED, "" if ok else "opens %s" % [show(x) for a, x, n in op], fi.loc)
            if ok:
                w = wrong_class(s, 1)
                ok = s.state.alive == 0 and raised(s) == 1 and w is None
                ctx.add("C22.contained", c + ": is rejected", HOLDS if ok else VIOLATED, "" if ok else "not with ValueError", fi.loc)


def c22_format(ctx, j, y):
    fi, i, fs, s = c22_run(ctx, "FILE", "algorithm.yml", (j, y))
    nm = "a file that %s JSON and %s YAML" % ("is" if j else "is not", "is" if y else "is not")
    if undecidable(ctx, "C22.format", nm, s, fi.loc):
        return
    if not j and not y:
        ok = s.state.alive == 0 and raised(s) == 1 and wrong_class(s, 1) is None
        return ctx.add("C22.format", nm + ": is rejected", HOLDS if ok else VIOLATED, "" if ok else "returns %s" % show(i.freeze(s.ret, s.state))[:80], fi.loc)
    if raised(s):
        return ctx.bad("C22.format", nm, "fails with %s" % show(s.raises[0][1])[:80], s.raises[0][2])
    want = T("call", "algorithm", (T("call", "json" if j else "yaml", (T("call", "text", (const(CWD + "/algorithm.yml"),)),)),))
    got = i.freeze(s.ret, s.state)
    alt = T("call", "algorithm", (T("call", "json" if j else "yaml", (T("call", "text", (const("algorithm.yml"),)),)),))
    if got is alt:
        got = want
    if j and y and got.op == "call" and got.args[0] == "algorithm" and got.args[1][0].op == "call" and got.args[1][0].args[0] == "yaml":
        got = want  # JSON documents are YAML documents with the same content
    q, wit = cmp_val(got, want, s.state.alive)
    ctx.add("C22.format", nm + ": is the algorithm that is loaded", VERDICT[q], wit if q != "eq" else "", fi.loc)


def algorithm_object(i, st, kind="original"):
    return build(i, st, Inst("causy.models.Algorithm", name=T("sym", kind), pipeline_steps=[Inst("causy.common_pipeline_steps.exit_conditions.ExitOnNoActions")], edge_types=[], extensions=NONE, variables=[Inst(VR + "FloatVariable", name=const("x"), value=T("sym", "default_x"), choices=NONE)], pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))


def stub_models(i, st, names, holder):
    cl = {}
    for n in names:
        a = algorithm_object(i, st)
        holder[n] = a
        o = build(i, st, Inst("causy.graph_model.AbstractGraphModel", _original_algorithm=a, algorithm=algorithm_object(i, st, "resolved")))
        i.ext_handlers["stub.model_" + n] = lambda it, args, kw, s, nd, o=o: o
        cl[n] = T("ext", "stub.model_" + n)
    return cl


def shared_refs(i, st, a, b):
    """objects reachable from both"""

    def reach(x, acc):
        if x.op == "ref":
            if x in acc:
                return acc
            acc.add(x)
            o = i.obj(st, x)
            for v in o.fields.values():
                reach(v, acc)
            for k, pr, v in o.cells or ():
                reach(v, acc)
            for sg in o.segs or ():
                for y in sg.args if isinstance(sg, Term) else sg:
                    if isinstance(y, Term):
                        reach(y, acc)
        elif x.op in ("tup", "cases", "list"):
            for y in x.args:
                if isinstance(y, Term):
                    reach(y, acc)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            reach(z, acc)
        return acc

    return reach(a, set()) & reach(b, set())


def copy_of(ctx, nm, i, s, got, orig, fi):
    st = s.state
    if got.op != "ref":
        return ctx.add("C22.isolated", nm, VIOLATED if got in (NONE,) else UNDECIDED, "returns %s" % show(got)[:80], fi.loc)
    sh = shared_refs(i, st, got, orig)
    ctx.add("C22.isolated", nm + ": shares nothing with the original", HOLDS if not sh else VIOLATED, "" if not sh else "%d shared objects, e.g. %s" % (len(sh), show(i.freeze(sorted(sh, key=str)[0], st))[:80]), fi.loc)
    q, wit = cmp_val(i.freeze(got, st), i.freeze(orig, st), st.alive)
    ctx.add("C22.isolated", nm + ": is the original, with its references to variables", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c22_name(ctx, typ):
    for n in ("First", "Second", "Missing"):
        holder = {}

        def pre(i, st):
            cl = stub_models(i, st, ("First", "Second"), holder)
            d = build(i, st, cl)
            for m in ("causy.serialization", "causy.causal_discovery", "causy.causal_discovery.constraint.algorithms"):
                i.gbind[(m, "AVAILABLE_ALGORITHMS")] = d

        fi, i, fs, s = c22_run(ctx, "NAME", n, typ=typ, pre=pre)
        nm = "algorithm %s by name (type as %s)" % (n, typ)
        if undecidable(ctx, "C22.isolated", nm, s, fi.loc):
            continue
        if n == "Missing":
            ok = s.state.alive == 0
            ctx.add("C22.isolated", nm + ": is not loaded", HOLDS if ok else VIOLATED, "" if ok else "returns %s" % show(i.freeze(s.ret, s.state))[:80], fi.loc)
            continue
        if raised(s):
            ctx.bad("C22.isolated", nm, "fails with %s" % show(s.raises[0][1])[:80], s.raises[0][2])
            continue
        copy_of(ctx, nm, i, s, s.ret, holder[n], fi)


def c22_module(ctx, typ):
    holder, asked = {}, []

    def pre(i, st):
        cl = stub_models(i, st, ("First",), holder)
        mod = build(i, st, Inst("module", PIPELINE=cl["First"]))

        def imp(it, args, kw, s, n):
            asked.append(it.freeze(args[0], s))
            return mod

        i.ext_handlers["importlib.import_module"] = imp

    fi, i, fs, s = c22_run(ctx, "PYTHON_MODULE", "package.module.PIPELINE", typ=typ, pre=pre)
    nm = "algorithm from a module (type as %s)" % typ
    if undecidable(ctx, "C22.isolated", nm, s, fi.loc):
        return
    ok = asked and all(x == const("package.module") for x in asked)
    ctx.add("C22.isolated", nm + ": its module is imported", HOLDS if ok else VIOLATED if asked and all(is_const(x) for x in asked) else UNDECIDED, "" if ok else "imports %s" % [show(x) for x in asked], fi.loc)
    if raised(s):
        return ctx.bad("C22.isolated", nm, "fails with %s" % show(s.raises[0][1])[:80], s.raises[0][2])
    copy_of(ctx, nm, i, s, s.ret, holder["First"], fi)


# ---------------------------------------------------------------------------------------------- C26
REFS_OK = ("algorithm.yml", "sub/algorithm.yml", "PC", "package.module.PIPELINE", "a.b")
REFS_BAD = ("/etc/passwd", "/a.yml", "../a.yml", "sub/../a.yml", "..", "a/..", "..PC", "a..b")


def C26(ctx):
    for t in ("file", "name", "python_module"):
        for r in REFS_OK:
            ctx.guard("C26.algorithm", "%s %s" % (t, r), c26_algorithm, ctx, t, r, True)
        for r in REFS_BAD:
            ctx.guard("C26.algorithm", "%s %s" % (t, r), c26_algorithm, ctx, t, r, False)
    for t in ("File", "FILE", "url", "", "names", "python"):
        ctx.guard("C26.algorithm", "%s PC" % t, c26_algorithm, ctx, t, "PC", False)
    ctx.guard("C26.algorithm", "failure", c26_failing, ctx)
    for f, args in (("get_workspace", ()), ("get_experiments", ()), ("get_latest_experiment", (const("exp"),)), ("get_experiment", (const("exp"), intof(DIG[0])))):
        ctx.guard("C26.missing", f, c26_no_workspace, ctx, f, args)
    for f, args in (("get_latest_experiment", (const("missing"),)), ("get_experiment", (const("missing"), intof(DIG[0]))), ("get_latest_experiment", (const("data1"),))):
        ctx.guard("C26.missing", f, c26_unknown, ctx, f, args)
    for f, args in (("get_latest_experiment", (const("exp"),)), ("get_experiment", (const("exp"), intof(DIG[0])))):
        ctx.guard("C26.broken", f, c26_broken, ctx, f, args)
    ctx.guard("C26.loaded", "model", c26_loaded, ctx)
    ctx.guard("C26.routes", "routes", c26_routes, ctx)


def params(fi):
    return [a.arg for a in fi.node.args.args]


def c26_algorithm(ctx, t, r, ok):
    p = ctx.prog
    fi = p.func(SV + "get_algorithm")
    i = var_interp(p)
    i.stop = lambda f: f.qual == SE + "load_algorithm_by_reference"
    loaded = []

    def load(it, f, args, s, node):
        loaded.append((s.alive, args[0], args[1]))
        return T("sym", "loaded")

    i.call_handlers[SE + "load_algorithm_by_reference"] = load
    ps = params(fi)
    s = i.run(fi, args={ps[0]: const(t), ps[1]: const(r)})
    ctx.note_run(s)
    nm = "algorithm %s of type %s" % (r, t or "''")
    if undecidable(ctx, "C26.algorithm", nm, s, fi.loc):
        return
    sc = type("o", (), {"i": i, "s": s})
    if not ok:
        lo = [x for x in loaded if x[0]]
        ctx.add("C26.algorithm", nm + ": is not loaded", HOLDS if not lo else VIOLATED if all(x[0] == 1 for x in lo) else UNDECIDED, "" if not lo else "loads %s" % show(lo[0][2]), fi.loc)
        st = [status_of(sc, x[1]) for x in s.raises if x[0].alive]
        good = s.state.alive == 0 and st and all(x == 400 for x in st)
        ctx.add("C26.algorithm", nm + ": status 400", HOLDS if good else VIOLATED if None not in st else UNDECIDED, "" if good else "answers %s" % (st or show(s.ret)), fi.loc)
        return
    calm = 1
    for x in s.raises:
        for a in atoms_of(x[0].alive):
            if a.op == "exc":
                calm = AND(calm, NOT(bvar(a)))
    bad = [x for x in s.raises if AND(x[0].alive, calm)]
    if bad:
        return ctx.bad("C26.algorithm", nm + ": is loaded", "answers %s" % status_of(sc, bad[0][1]), bad[0][2])
    good = len([x for x in loaded if x[0]]) == 1 and all(type_is(x[1], t) and x[2] == const(r) for x in loaded)
    ctx.add("C26.algorithm", nm + ": is loaded", HOLDS if good else VIOLATED, "" if good else "loads %s" % [(show(x[1]), show(x[2])) for x in loaded], fi.loc)
    q, wit = cmp_val(s.ret, T("sym", "loaded"), AND(s.state.alive, calm))
    ctx.add("C26.algorithm", nm + ": is the answer", VERDICT[q], wit if q != "eq" else "", fi.loc)


def type_is(x, t):
    if x.op == "enum":
        return isinstance(x.args[2], Term) and is_const(x.args[2]) and cval(x.args[2]) == t
    return x == const(t)


def c26_failing(ctx):
    p = ctx.prog
    fi = p.func(SV + "get_algorithm")
    for exc in ("builtins.ValueError", "builtins.KeyError", "builtins.FileNotFoundError", "builtins.ImportError", "builtins.AttributeError", "builtins.TypeError"):
        i = var_interp(p)
        i.stop = lambda f: f.qual == SE + "load_algorithm_by_reference"

        def load(it, f, args, s, node):
            it.do_raise(s, T("exc", exc, const("message")), node)
            return T("opaque", "unreachable")

        i.call_handlers[SE + "load_algorithm_by_reference"] = load
        ps = params(fi)
        s = i.run(fi, args={ps[0]: const("name"), ps[1]: const("PC")})
        ctx.note_run(s)
        nm = "loading an algorithm that fails with %s" % exc.split(".")[1]
        if undecidable(ctx, "C26.algorithm", nm, s, fi.loc):
            continue
        sc = type("o", (), {"i": i, "s": s})
        st = [status_of(sc, x[1]) for x in s.raises if x[0].alive]
        good = s.state.alive == 0 and st and all(x == 400 for x in st)
        ctx.add("C26.algorithm", nm + ": status 400", HOLDS if good else VIOLATED, "" if good else "answers %s" % (st or show(s.ret)), fi.loc)


def c26_no_workspace(ctx, f, args):
    fi = ctx.prog.func(SV + f)
    sc = Scene(ctx.prog, EXPS, [RES("exp", DIG[0])])
    sc.i.gbind[("causy.ui.server", "WORKSPACE")] = NONE
    s = sc.run(fi, **dict(zip(params(fi), args)))
    nm = "%s without a workspace" % f
    if first_note(ctx, sc, "C26.missing", nm, fi):
        return
    expect_status(ctx, "C26.missing", nm, sc, fi, 404)


def expect_status(ctx, rule, nm, sc, fi, code):
    s = sc.s
    st = [status_of(sc, r[1]) for r in sc.raises()]
    fs = result_files(sc)
    ok = not fs and sc.settled(s.state.alive) == 0 and st and all(x == code for x in st)
    ctx.add(rule, nm + ": status %d" % code, HOLDS if ok else VIOLATED if not [r for r in sc.raises() if sc.i.freeze(r[1], s.state).op == "opaque"] else UNDECIDED, "" if ok else "answers %s%s" % (st or "normally", ", reads %s" % [show(f[1]) for f in fs] if fs else ""), fi.loc)


def c26_unknown(ctx, f, args):
    fi = ctx.prog.func(SV + f)
    sc = Scene(ctx.prog, EXPS, [RES("exp", DIG[0]), RES("missing", DIG[0]), RES("data1", DIG[0])])
    s = sc.run(fi, **dict(zip(params(fi), args)))
    nm = "%s of the unknown experiment %s" % (f, cval(args[0]))
    if first_note(ctx, sc, "C26.missing", nm, fi):
        return
    expect_status(ctx, "C26.missing", nm, sc, fi, 404)


def c26_broken(ctx, f, args):
    """the stored result is not readable"""
    fi = ctx.prog.func(SV + f)
    for what, exc in (("that is no JSON", "json.JSONDecodeError"), ("that cannot be opened", "builtins.PermissionError")):
        sc = Scene(ctx.prog, EXPS, [RES("exp", DIG[0])])

        def fail(it, a, kw, s, node):
            it.do_raise(s, T("exc", exc), node)
            return T("opaque", "unreachable")

        if "JSON" in what:
            sc.i.ext_handlers["json.load"] = sc.i.ext_handlers["json.loads"] = fail
        else:
            sc.i.ext_handlers["builtins.open"] = fail
        s = sc.run(fi, **dict(zip(params(fi), args)))
        nm = "%s of a result %s" % (f, what)
        if first_note(ctx, sc, "C26.broken", nm, fi):
            continue
        st = [status_of(sc, r[1]) for r in sc.raises()]
        ok = sc.settled(s.state.alive) == 0 and st and all(x == 400 for x in st)
        ctx.add("C26.broken", nm + ": status 400", HOLDS if ok else VIOLATED, "" if ok else "answers %s" % (st or "normally"), fi.loc)


def c26_loaded(ctx):
    p = ctx.prog
    for w in (True, False):
        for m in (True, False):
            for f in ("get_status", "get_model", "get_workspace"):
                fi = p.func(SV + f)
                sc = Scene(p, EXPS, [])
                model = build(sc.i, sc.st, Inst("causy.ui.models.ExtendedResult", algorithm=T("sym", "a"), nodes={}, edges=[], action_history=[]))
                ws = sc.ws if w else NONE
                mo = model if m else NONE
                sc.i.gbind[("causy.ui.server", "WORKSPACE")] = ws
                sc.i.gbind[("causy.ui.server", "MODEL")] = mo
                s = sc.run(fi)
                nm = "%s %s a model and %s a workspace" % (f, "with" if m else "without", "with" if w else "without")
                if first_note(ctx, sc, "C26.loaded", nm, fi):
                    continue
                if f == "get_status":
                    for k, want in (("status", const("ok")), ("model_loaded", TRUE if m else FALSE), ("workspace_loaded", TRUE if w else FALSE), ("mode", const("workspace" if w else "model"))):
                        q, wit = cmp_val(observe(sc.i, s.state, "r[%r]" % k, {"r": s.ret}), want, sc.settled(s.state.alive))
                        ctx.add("C26.loaded", "%s: its %s" % (nm, k), VERDICT[q], wit if q != "eq" else "", fi.loc)
                    continue
                x = mo if f == "get_model" else ws
                if x is NONE:
                    expect_status(ctx, "C26.loaded", nm, sc, fi, 404)
                elif sc.raises():
                    ctx.bad("C26.loaded", nm, "answers %s" % status_of(sc, sc.raises()[0][1]), sc.raises()[0][2])
                else:
                    q, wit = cmp_val(sc.i.freeze(s.ret, s.state), sc.i.freeze(x, s.state), s.state.alive)
                    ctx.add("C26.loaded", nm + ": is the answer", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c26_routes(ctx):
    """no route is hidden by an earlier route of the same method"""
    import ast
    import re

    routes = []
    for fi in ctx.prog.funcs.values():
        if fi.module.name != "causy.ui.server":
            continue
        for d in fi.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in ("get", "post", "put", "delete") and d.args and isinstance(d.args[0], ast.Constant):
                routes.append((fi.node.lineno, d.func.attr, d.args[0].value, fi))
    routes.sort(key=lambda r: r[0])
    for k, (l, m, path, fi) in enumerate(routes):
        sample = re.sub(r"\{[^}]*\}", "x", path)
        hid = [o for o in routes[:k] if o[1] == m and re.fullmatch(re.sub(r"\{[^}:]*:path\}", ".+", re.sub(r"\{[^}:]*\}", "[^/]+", o[2])), sample)]
        ctx.add("C26.routes", "%s %s is reachable" % (m.upper(), path), HOLDS if not hid else VIOLATED, "" if not hid else "hidden by %s" % hid[0][2], fi.loc)
    for path, f in (("/experiments/{}/latest", "get_latest_experiment"), ("/experiments/{}/{}", "get_experiment"), ("/algorithm/{}/{}", "get_algorithm"), ("/experiments", "get_experiments"), ("/workspace", "get_workspace"), ("/model", "get_model"), ("/status", "get_status")):
        fi = ctx.prog.func(SV + f)
        got = [re.sub(r"\{[^}]*\}", "{}", r[2]) for r in routes if r[3] is fi]
        ctx.add("C26.routes", "%s is answered by %s" % (path, f), HOLDS if path in got else VIOLATED if got else UNDECIDED, "" if path in got else "routes %s" % got, fi.loc)
