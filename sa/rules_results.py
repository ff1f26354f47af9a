"""C30 stored results: reading back, equality of edges, comparison of experiments; C19 registries of named types."""
from .rules_algorithms import *

EDGEC = "causy.interfaces.EdgeInterface"
NODEC = "causy.interfaces.NodeInterface"
RESC = "causy.models.Result"
ETY = "causy.edge_types."


def edge_types(p):
    """name -> class of the edge types, from the class definitions"""
    i = Interp(p)
    out = {}
    for c in p.subclasses(EDGEI):
        if c.qual != EDGEI and c.qual.startswith(ETY):
            out[cval(i.class_attr_value(p.find_attr(c, "name"), State()))] = c
    return out


def type_inst(p, name):
    i = Interp(p)
    c = edge_types(p)[name]
    st = State()
    return Inst(c.qual, **{f: i.class_attr_value(p.find_attr(c, f), st) for f in ("name", "IS_DIRECTED", "STR_REPRESENTATION")})


def eq_interp(p):
    i = var_interp(p)
    i.user_eq = True
    i.ext_handlers["builtins.hash"] = user_hash
    i.ext_handlers["builtins.id"] = lambda it, args, kw, st, node: T("sym", "identity of %s" % (args[0],))
    return i


def user_hash(it, args, kw, st, node):
    t = it.freeze(args[0], st)
    ci = it.p.classes.get(t.args[0]) if t.op == "rec" else None
    f = it.p.find_method(ci, "__hash__") if ci is not None else None
    return it.call_fi(f, [args[0]], {}, st, node, recv=True) if f is not None else None


# ---------------------------------------------------------------------------------------------- C19
def C19(ctx):
    ctx.guard("C19.edge_types", "EDGE_TYPES", c19_edge_types, ctx)
    ctx.guard("C19.equality", "edge types", c19_types, ctx)
    for a in sorted(edge_types(ctx.prog)):
        for b in sorted(edge_types(ctx.prog)):
            ctx.guard("C19.equality", "%s and %s" % (a, b), c19_edges, ctx, a, b)
    ctx.guard("C19.equality", "other objects", c19_other, ctx)


DIRECTED = {"DIRECTED": True, "UNDIRECTED": False, "BIDIRECTED": False}
TYPE_CLASS = {"DIRECTED": ETY + "DirectedEdge", "UNDIRECTED": ETY + "UndirectedEdge", "BIDIRECTED": ETY + "BiDirectedEdge"}


def c19_edge_types(ctx):
    p = ctx.prog
    i = Interp(p)
    st = State()
    m = p.modules["causy.edge_types"]
    for n, q in TYPE_CLASS.items():
        c = p.cls(q)
        v = i.freeze(i.class_attr_value(p.find_attr(c, "name"), st), st)
        ctx.require(v is const(n), "C19.edge_types", "the name of %s is %s" % (q.split(".")[-1], n), "is %s" % show(v)[:60], c.loc)
        d = i.class_attr_value(p.find_attr(c, "IS_DIRECTED"), st)
        ctx.require(d in ((TRUE, const(True)) if DIRECTED[n] else (FALSE, const(False))), "C19.edge_types", "%s is %sdirected" % (q.split(".")[-1], "" if DIRECTED[n] else "not "), "is %s" % show(d)[:60], c.loc)
    d = i.freeze(i.global_name(m, "EDGE_TYPES", st), st)
    if d.op != "dict" or d.args[0] is not NONE or d.args[2]:
        return ctx.unk("C19.edge_types", "EDGE_TYPES", "not an explicit table: %s" % show(d)[:80], m.relpath)
    cells = {k: x for k, g, x in d.args[1]}
    for n, q in TYPE_CLASS.items():
        x = cells.get(const(n))
        ctx.require(x is T("cls", q), "C19.edge_types", "the edge type registered as %s is %s" % (n, q.split(".")[-1]), "is %s" % (show(x)[:80] if x is not None else "missing"), m.relpath)


def c19_types(ctx):
    p = ctx.prog
    names = sorted(edge_types(p))
    for a in names:
        for b in names:
            i = eq_interp(p)
            st = State()
            x, y = build(i, st, type_inst(p, a)), build(i, st, type_inst(p, b))
            for op in ("==", "!="):
                r = observe(i, st, "x %s y" % op, {"x": x, "y": y})
                q, wit = cmp_bool(truth(r), int((a == b) == (op == "==")), 1)
                ctx.add("C19.equality", "edge type %s %s %s" % (a, op, b), VERDICT[q], wit if q != "eq" else "", p.cls(EDGEI).loc)
            h = observe(i, st, "hash(x) == hash(y)", {"x": x, "y": y})
            if a == b:
                q, wit = cmp_bool(truth(h), 1, 1)
                ctx.add("C19.equality", "equal edge types %s have one hash" % a, VERDICT[q] if q != "ne" or imprecise_term(h) is None else UNDECIDED, wit if q != "eq" else "", p.cls(EDGEI).loc)


def c19_edges(ctx, a, b):
    p = ctx.prog
    fi = p.method(EDGEC, "__eq__")
    i = eq_interp(p)
    st = State()
    N = [T("sym", n) for n in ("u1", "v1", "u2", "v2")]
    x = build(i, st, Inst(EDGEC, u=N[0], v=N[1], edge_type=type_inst(p, a), metadata=T("sym", "metadata1")))
    y = build(i, st, Inst(EDGEC, u=N[2], v=N[3], edge_type=type_inst(p, b), metadata=T("sym", "metadata2")))
    s = i.run(fi, args={fi.node.args.args[1].arg: y}, self_val=x, st=st)
    ctx.note_run(s)
    nm = "a %s and a %s edge" % (a, b)
    if undecidable(ctx, "C19.equality", nm, s, fi.loc):
        return
    E = lambda j, k: eq(N[j], N[k])
    same = AND(E(0, 2), E(1, 3))
    want = 0 if a != b else same if DIRECTED.get(a, True) else OR(same, AND(E(0, 3), E(1, 2)))
    # equality of nodes is transitive
    care = 1
    for j, k, l in ((0, 2, 3), (0, 3, 2), (1, 2, 3), (2, 0, 1), (3, 0, 1)):
        care = AND(care, OR(NOT(E(j, k)), NOT(E(k, l)), E(j, l)), OR(NOT(E(j, k)), NOT(E(j, l)), E(k, l)))
    q, wit = cmp_bool(raised(s), 0, care)
    ctx.add("C19.equality", nm + " can be compared", VERDICT[q], wit if q != "eq" else "", fi.loc)
    q, wit = cmp_bool(truth(s.frz()), want, AND(care, s.state.alive))
    ctx.add("C19.equality", nm + " are equal exactly when they connect the same nodes%s" % (" in the same direction" if DIRECTED.get(a, True) else "") if a == b else nm + " differ", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c19_other(ctx):
    p = ctx.prog
    fi = p.method(EDGEC, "__eq__")
    for what, o in (("nothing", NONE), ("a text", const("x")), ("a number", const(1))):
        i = eq_interp(p)
        st = State()
        x = build(i, st, Inst(EDGEC, u=T("sym", "u1"), v=T("sym", "v1"), edge_type=type_inst(p, "DIRECTED"), metadata=NONE))
        s = i.run(fi, args={fi.node.args.args[1].arg: o}, self_val=x, st=st)
        ctx.note_run(s)
        if undecidable(ctx, "C19.equality", "an edge and " + what, s, fi.loc):
            continue
        r = s.frz()
        if r.op == "ext" and "NotImplemented" in str(r.args[0]):
            ctx.hold("C19.equality", "an edge and %s differ" % what, "", fi.loc)
            continue
        q, wit = cmp_bool(OR(raised(s), truth(r)), 0, 1)
        ctx.add("C19.equality", "an edge and %s differ" % what, VERDICT[q], wit if q != "eq" else "", fi.loc)


# ---------------------------------------------------------------------------------------------- C30
def C30(ctx):
    p = ctx.prog
    names = sorted(TYPE_CLASS)
    for combo in ([], [names[0]], [names[1]], [names[2]], names, [names[1], names[0], names[1]]):
        for klass in (None, RESC, "causy.ui.models.ExtendedResult"):
            ctx.guard("C30.read", "edges %s" % combo, c30_read, ctx, combo, klass)
    pair = (None, "AB", "BA", "A-B", "B-A", "A<>B")
    for a in pair:
        for b in pair:
            for only in (False, True):
                ctx.guard("C30.diff", "%s against %s" % (a, b), c30_diff, ctx, (a, b), only)
    for a in (("AB", "AB", "AB"), ("AB", "AB", None), (None, "AB", "AB"), ("AB", None, "AB"), ("A-B", "B-A", "AB"), (None, None, "BA"), ("A-B", "B-A", "A-B")):
        for only in (False, True):
            ctx.guard("C30.diff", str(a), c30_diff, ctx, a, only)


    f = lambda n, k: fname(n + "_", DIG[k], ".json")
    for refs in (
        [("e", DIG[0], f("e", 0)), ("e", LATEST, f("e", 1))],
        [("e", LATEST, f("e", 1)), ("e", DIG[0], f("e", 0))],
        [("e", DIG[1], f("e", 1)), ("e", DIG[0], f("e", 0))],
        [("e", DIG[0], f("e", 0)), ("g", DIG[0], f("g", 0))],
    ):
        for a in (("AB", "AB"), ("AB", "BA"), (None, "A-B")):
            ctx.guard("C30.diff", "times", c30_diff, ctx, a, False, refs)
    for a, refs in (
        (("AB",), [("e", LATEST, f("e", 0))]),
        (("AB", None), [("e", LATEST, f("e", 0)), ("unknown", LATEST, None)]),
        (("AB", None), [("e", LATEST, f("e", 0)), ("e", DIG[5], None)]),
        ((None, "AB"), [("unknown", LATEST, None), ("e", LATEST, f("e", 0))]),
    ):
        ctx.guard("C30.diff", "refused", c30_diff, ctx, a, False, refs, True)


def c30_read(ctx, combo, klass):
    p = ctx.prog
    fi = p.func(SE + "deserialize_result")
    ps = [a.arg for a in fi.node.args.args]
    L = Loader(p)
    i, st = L.i, L.st
    nm = "result with the edges %s%s" % (combo, "" if klass is None else " as " + klass.split(".")[-1])
    plain = {k: T("sym", "stored_" + k) for k in ("created_at", "nodes", "action_history", "variables", "data_loader_hash", "algorithm_hash", "variables_hash")}
    if klass and klass.endswith("ExtendedResult"):
        plain["version"] = T("sym", "stored_version")
    cis = edge_types(p)
    dd = {"algorithm": {"reference": T("sym", "stored_reference"), "type": T("sym", "stored_type")}, "edges": [], **plain}
    want = []
    for k, n in enumerate(combo):
        e = {f: T("sym", "%s_of_edge_%d" % (f, k)) for f in ("u", "v", "metadata")}
        t = {"name": const(n), "IS_DIRECTED": i.class_attr_value(p.find_attr(cis[n], "IS_DIRECTED"), st), "STR_REPRESENTATION": i.class_attr_value(p.find_attr(cis[n], "STR_REPRESENTATION"), st)}
        dd["edges"].append({**e, "edge_type": t})
        want.append((e, TYPE_CLASS[n]))
    d = build(i, st, dd)
    before = i.freeze(d, st)
    args = {ps[0]: d}
    if klass is not None:
        p.cls(klass)
        args[ps[1]] = T("cls", klass)
    else:
        args[ps[1]] = i.default_value(fi, fi.node.args.defaults[-1], st) if fi.node.args.defaults else T("cls", RESC)
    s = i.run(fi, args=args, st=st)
    ctx.note_run(s)
    if undecidable(ctx, "C30.read", nm, s, fi.loc):
        return
    q, wit = cmp_bool(raised(s), 0, 1)
    ctx.add("C30.read", nm + ": can be read", VERDICT[q], "%s %s" % (show(s.raises[0][1])[:80] if s.raises else "", wit) if q != "eq" else "", fi.loc)
    if q == "ne":
        return
    r = settled_value(s.frz(), s.state.alive)
    if r is None or r.op != "rec":
        return ctx.unk("C30.read", nm, "result is %s" % show(s.frz())[:100], fi.loc)
    ctx.require(r.args[0] == (klass or RESC), "C30.read", nm + ": has the class asked for", "is a %s" % r.args[0], fi.loc)
    f = dict(r.args[1])
    for k, v in plain.items():
        if k not in f:
            ctx.bad("C30.read", "%s: %s" % (nm, k), "missing", fi.loc)
            continue
        q, wit = cmp_val(f[k], v, s.state.alive)
        ctx.add("C30.read", "%s: %s" % (nm, k), VERDICT[q], wit if q != "eq" else "", fi.loc)
    a = f.get("algorithm")
    if a is not None and a.op in ("rec", "dict"):
        fa = dict(a.args[1]) if a.op == "rec" else {cval(c[0]): c[2] for c in a.args[1]}
        for k in ("reference", "type"):
            q, wit = cmp_val(fa.get(k, NONE), T("sym", "stored_" + k), s.state.alive)
            ctx.add("C30.read", "%s: %s of the algorithm" % (nm, k), VERDICT[q], wit if q != "eq" else "", fi.loc)
    else:
        ctx.unk("C30.read", nm + ": algorithm", show(a)[:80] if a is not None else "missing", fi.loc)
    es, why = concrete(f["edges"], s.state.alive) if "edges" in f else (None, "missing")
    if es is None:
        ctx.unk("C30.read", nm + ": edges", why, fi.loc)
    else:
        ctx.require(len(es) == len(want), "C30.read", nm + ": every edge is read", "%d of %d" % (len(es), len(want)), fi.loc)
        for k, (e, (w, tc)) in enumerate(zip(es, want)):
            fe = {cval(c[0]): c[2] for c in e.args[1]} if e.op == "dict" else dict(e.args[1]) if e.op == "rec" else None
            if fe is None:
                ctx.unk("C30.read", "%s: edge %d" % (nm, k), show(e)[:80], fi.loc)
                continue
            for x, v in w.items():
                q, wit = cmp_val(fe.get(x, NONE), v, s.state.alive)
                ctx.add("C30.read", "%s: %s of edge %d" % (nm, x, k), VERDICT[q], wit if q != "eq" else "", fi.loc)
            t = fe.get("edge_type", NONE)
            ctx.add("C30.read", "%s: edge %d has the type stored for it" % (nm, k), HOLDS if t.op == "rec" and t.args[0] == tc else UNDECIDED if imprecise_term(t) is not None else VIOLATED, "" if t.op == "rec" and t.args[0] == tc else "is %s" % show(t)[:80], fi.loc)
    q, wit = cmp_val(i.freeze(d, s.state), before, s.state.alive)
    ctx.add("C30.read", nm + ": the stored form is left as it was", VERDICT[q], wit if q != "eq" else "", fi.loc)


def stored_edges(p, pair, names=("a", "b")):
    """the edges of a stored result, undirected ones in both directions"""
    A, B = [Inst(NODEC, name=const(n), id=const("id_" + n), values=NONE) for n in names]
    E = lambda u, v, t: Inst(EDGEC, u=u, v=v, edge_type=type_inst(p, t), metadata=NONE)
    return {
        None: [],
        "AB": [E(A, B, "DIRECTED")],
        "BA": [E(B, A, "DIRECTED")],
        "A-B": [E(A, B, "UNDIRECTED"), E(B, A, "UNDIRECTED")],
        "B-A": [E(B, A, "UNDIRECTED"), E(A, B, "UNDIRECTED")],
        "A<>B": [E(A, B, "BIDIRECTED"), E(B, A, "BIDIRECTED")],
    }[pair]


SIGN = {None: "", "AB": "-->", "BA": "-->", "A-B": "---", "B-A": "---", "A<>B": "<->"}


LATEST = object()


def c30_diff(ctx, states, only, refs=None, refuse=False):
    """the table of a comparison: one row per pair with an edge in some result. refs: (experiment, time or LATEST, its file)"""
    p = ctx.prog
    fi = p.func(WC + "diff")
    ps = [a.arg for a in fi.node.args.args]
    refs = refs or [("exp%d" % k, LATEST, fname("exp%d_" % k, DIG[k], ".json")) for k in range(len(states))]
    exps = {n: ("pipe1", "data1", {}) for n in sorted({r[0] for r in refs if r[0] != "unknown"})}
    # an older result of every experiment that is compared by its name alone
    sc = Scene(p, exps, [r[2] for r in refs if r[2] is not None] + [fname(n + "_", DIG[7], ".json") for n in exps], rank=[DIG[7]] + DIG[:7])
    i = sc.i
    i.user_eq = True
    other = ("A-B",) * len(states)  # the edge c - d is the same in all results
    read = []

    def result(it, fi_, args, s, n):
        t = args[0]
        while t.op in ("call", "enter"):
            t = t.args[1][0] if t.op == "call" else t.args[0]
        k = next((k for k in range(len(states)) if t is refs[k][2]), None)
        if k is None:
            read.append("another result: %s" % show(t)[:60])
            return build(it, s, Inst(RESC, edges=[], nodes={}, algorithm=NONE))
        es = stored_edges(p, states[k]) + stored_edges(p, other[k], ("c", "d"))
        return build(it, s, Inst(RESC, edges=es, nodes={}, algorithm=NONE))

    i.ext_handlers["json.load"] = i.ext_handlers["json.loads"] = lambda it, args, kw, s, n: T("call", "doc", (it.freeze(args[0], s),)) if args else None
    q = SE + "deserialize_result"
    old = i.stop
    i.stop = lambda f: f.qual == q or old(f)
    i.call_handlers[q] = result
    rows = []

    def add_row(it, recv, args, kw, s, n):
        if not (recv.op == "call" and recv.args[0].endswith("Table")):
            return None
        rows.append((s.alive, [it.freeze(a, s) for a in args], it.freeze(kw["style"], s) if "style" in kw else NONE, n))
        return NONE

    i.mcall_handlers["add_row"] = add_row
    names = [const(n) if w is LATEST else fname(n + "_", w) for n, w, _ in refs]
    s = sc.run(fi, **{ps[0]: i.new_list(sc.st, names), ps[1]: TRUE if only else FALSE})
    nm = "comparison of %s%s%s" % (", ".join(str(x) for x in states), ", only differences" if only else "", ", of " + " and ".join(n if w is LATEST else n + " at one time" for n, w, _ in refs) if refs[0][0] != "exp0" else "")
    if first_note(ctx, sc, "C30.diff", nm, fi):
        return
    if refuse:
        live = [r for r in rows if sc.settled(r[0]) != 0]
        ctx.require(not live, "C30.diff", nm + " is refused", "%d rows are shown" % len(live), fi.loc)
        return
    ctx.require(not read, "C30.diff", nm + ": reads the results asked for", "reads " + ", ".join(read), fi.loc)
    if sc.raises():
        return ctx.bad("C30.diff", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    want = []
    for st_, (x, y) in ((states, ("a", "b")), (other, ("c", "d"))):
        if not any(st_):
            continue
        same = all(st_) and len({{"B-A": "A-B"}.get(z, z) for z in st_}) == 1
        if same and only:
            continue
        want.append(({x, y}, [SIGN[z] for z in st_], "green" if same else "red"))
    got = []
    for g, cells, style, n in rows:
        g = sc.settled(g)
        if g == 0:
            continue
        if g != 1 or not all(is_const(c) for c in cells) or not is_const(style):
            return ctx.unk("C30.diff", nm, "row %s %s" % ([show(c)[:40] for c in cells], show(style)[:60]), fi.loc)
        got.append(([cval(c) for c in cells], cval(style)))
    left = list(got)
    for pr, signs, style in want:
        hit = [r for r in left if r[0] and set(r[0][0].replace("-", " ").split()) == pr]
        x, y = sorted(pr)
        c = "%s: %s - %s" % (nm, x, y)
        if not hit:
            ctx.bad("C30.diff", c + " has a row", "rows %s" % [r[0] for r in got], fi.loc)
            continue
        left.remove(hit[0])
        ctx.require(hit[0][0][1:] == signs, "C30.diff", c + " shows the edge of every result", "shows %s instead of %s" % (hit[0][0][1:], signs), fi.loc)
        ctx.require(hit[0][1] == style, "C30.diff", c + " is marked %s" % ("as equal" if style == "green" else "as different"), "is %s" % hit[0][1], fi.loc)
    ctx.require(not left, "C30.diff", nm + ": no other rows", "rows %s" % [r[0] for r in left], fi.loc)
