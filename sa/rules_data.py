"""C04 nodes of a graph, C28 data ingestion (rows, columns and data loaders give the same nodes)."""
from itertools import permutations

from .rules_paths import *
from .interp import Obj

ADL = "causy.data_loader.AbstractDataLoader"
DL = "causy.data_loader."
NAME, ID, VALS, META = T("sym", "name"), T("sym", "id_"), T("sym", "values"), T("sym", "metadata")
TENSOR = T("ext", "torch.Tensor")


def double(x):
    return T("call", "torch.tensor", (x,), (("dtype", T("ext", "torch.float64")),))


def is_double(t):
    """the sequence a float64 tensor is built from, or None"""
    while t.op == "mcall" and t.args[1] in ("double", "contiguous", "clone", "detach") and not t.args[2]:
        t = t.args[0]
    if t.op == "mcall" and t.args[1] == "to":
        t = T("call", "torch.tensor", (t.args[0],), (("dtype", t.args[2][0]),)) if t.args[2] else t
    if t.op != "call" or t.args[0] not in ("torch.tensor", "torch.as_tensor", "torch.DoubleTensor"):
        return None
    if t.args[0] == "torch.DoubleTensor":
        return t.args[1][0] if len(t.args) == 2 else None
    kw = dict(t.args[2]) if len(t.args) > 2 else {}
    dt = kw.get("dtype") or (t.args[1][1] if len(t.args[1]) > 1 else None)
    if dt in (T("ext", "torch.float64"), T("ext", "torch.double")) and set(kw) <= {"dtype"}:
        return t.args[1][0]
    return None


def numeric_failure(g):
    """the part of a guard that is not about a failing external conversion"""
    for a in atoms_of(g):
        if a.op == "exc":
            g = cofactor(g, a, 0)
    return g


# ---------------------------------------------------------------------------------------------- C04
def C04(ctx):
    for idv in ("given", "missing"):
        for md in ("given", "missing"):
            ctx.guard("C04.add", "add_node, id %s, metadata %s" % (idv, md), c04_add, ctx, idv, md)
    ctx.guard("C04.lookup", "node_by_id", c04_lookup, ctx)
    for k in (1, 2, 3):
        ctx.guard("C04.complete", "create_all_possible_edges on %d nodes" % k, c04_complete, ctx, k)


def c04_add(ctx, idv, md):
    p = ctx.prog
    nm = "add_node, id %s, metadata %s" % (idv, md)
    fi = p.method(GM, "add_node")
    i = interp(p)
    i.track = lambda t: tracked(t) or t is N_
    i.types[ID] = i.types[NAME] = "builtins.str"
    UU = T("sym", "fresh_uuid")
    uuids = []

    def fresh(it, args, kw, st, node):
        uuids.append(1)
        return UU

    i.ext_handlers["uuid.uuid4"] = fresh
    st = State()
    args = {"name": NAME, "values": VALS, "id_": ID if idv == "given" else NONE, "metadata": META if md == "given" else NONE}
    care = AND(NOT(eq(ID, NONE)), NOT(eq(META, NONE)), NOT(eq(VALS, NONE)))
    s = i.run(fi, args=args, self_val=SELF, st=st, alive=care)
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C04.add", nm, s.notes[0], fi.loc)
    key = ID
    if idv == "missing":
        ks = set()
        for e in s.events:
            if e.kind == "setitem" and e.data[0] is N_:
                ks |= {x for _, x in cases_of(e.data[1])}
        if len(ks) != 1 or not any(x is UU for x in subterms(next(iter(ks)))):
            if ks and not any(imprecise_term(x) for x in ks):
                return ctx.bad("C04.add", nm + ": gets a fresh unique id", "stored under %s" % ", ".join(show(x)[:80] for x in ks), fi.loc)
            return ctx.unk("C04.add", nm + ": gets a fresh unique id", "stored under %s" % ", ".join(show(x)[:80] for x in ks), fi.loc)
        key = next(iter(ks))
        ctx.hold("C04.add", nm + ": gets a fresh unique id", loc=fi.loc)
    dup = H(N_, key)
    # rejected exactly when the id is taken (or the values cannot be converted), with nothing stored
    rej, bad = 0, None
    for r in s.raises:
        g = AND(r[0].alive, care)
        if numeric_failure(g) == 0:
            if g and str(s.interp.exc_class(r[1])) not in ("builtins.ValueError",):
                bad = r
            continue
        rej = OR(rej, numeric_failure(g))
    q, wit = cmp_bool(rej, dup, care)
    ctx.add("C04.duplicate", nm + ": rejected exactly when the id is taken", VERDICT[q], wit if q != "eq" else "", fi.loc)
    ctx.add("C04.duplicate", nm + ": values that are no numbers are rejected with a ValueError", VIOLATED if bad else HOLDS, "leaves with %s" % show(bad[1])[:80] if bad else "", bad[2] if bad else fi.loc)
    for r in s.raises:
        if AND(r[0].alive, care) == 0:
            continue
        before = AND(r[0].alive, care)
        same = obs_bool(i, r[0], "k in n", {"k": key, "n": N_})
        q, wit = cmp_bool(same, dup, before)
        ok = q == "eq"
        if ok and dup and AND(before, dup):
            q, wit = cmp_val(observe(i, r[0], "n[k]", {"k": key, "n": N_}), T("idx", N_, key), AND(before, dup))
        ctx.add("C04.duplicate", nm + ": a rejected node leaves the graph unchanged", VERDICT[q], wit if q != "eq" else "", r[2])
    alive = AND(care, s.state.alive, NOT(dup))
    for a in atoms_of(alive):
        if a.op == "exc":
            alive = AND(alive, NOT(bvar(a)))
    if alive == 0:
        return ctx.bad("C04.add", nm, "no node can be added", fi.loc)
    env = {"n": N_, "k": key}
    q, wit = cmp_bool(obs_bool(i, s.state, "k in n", env), 1, alive)
    ctx.add("C04.add", nm + ": the node is stored under its id", VERDICT[q], wit if q != "eq" else "", fi.loc)
    for src, want in (("n[k].name", NAME), ("n[k].id", key), ("n[k].metadata", META if md == "given" else T("dict", (), ()))):
        got = observe(i, s.state, src, env)
        if want.op == "dict":
            q, wit = "eq", ""
            for g, x in cases_of(got):
                if AND(g, alive) and not (x.op == "dict" and not x.args[1]):
                    q, wit = ("unk" if imprecise_term(x) else "diff"), "got %s" % show(x)[:80]
        else:
            q, wit = cmp_val(got, want, alive)
        ctx.add("C04.add", "%s: %s" % (nm, src[5:]), VERDICT[q], wit if q != "eq" else "", fi.loc)
    got = observe(i, s.state, "n[k].values", env)
    ten = bvar(T("isinst", VALS, TENSOR)) if False else obs_bool(i, s.state, "isinstance(x, c)", {"x": VALS, "c": TENSOR})
    for g, x in cases_of(got):
        for cond, nm2 in ((ten, "a tensor is kept as it is"), (NOT(ten), "numbers become a float64 tensor")):
            c = AND(g, alive, cond)
            if c == 0:
                continue
            if cond == ten:
                ok = x is VALS or (x.op == "mcall" and x.args[0] is VALS and x.args[1] in ("clone", "detach"))
            else:
                ok = is_double(x) is VALS
            ctx.add("C04.values", "%s: %s" % (nm, nm2), HOLDS if ok else UNDECIDED if imprecise_term(x) else VIOLATED, "" if ok else "values are %s when %s" % (show(x)[:120], witness(c)), fi.loc)
    q, wit = cmp_val(observe(i, s.state, "r is n[k]", {**env, "r": s.ret}), TRUE, alive)
    ctx.add("C04.add", nm + ": the stored node is returned", VERDICT[q], wit if q != "eq" else "", fi.loc)
    stray = []
    for e in s.events:
        g = AND(e.guard, care)
        if not g:
            continue
        if e.kind in ("setitem", "delitem", "mutcall", "setattr"):
            o = e.data[0]
            root = o
            while root.op in ("idx", "attr", "mcall"):
                root = root.args[0]
            if o is N_ and e.kind == "setitem" and e.data[1] is key:
                continue
            if root is SELF:
                stray.append(e)
    ctx.add("C04.frame", nm + ": nothing else in the graph changes", VIOLATED if stray else HOLDS, "" if not stray else repr(stray[0])[:160], stray[0].loc if stray else fi.loc)


def c04_lookup(ctx):
    fi = ctx.prog.method(GM, "node_by_id")
    i = interp(ctx.prog)
    i.types[ID] = "builtins.str"
    s = i.run(fi, args={fi.node.args.args[1].arg: ID}, self_val=SELF, st=State())
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C04.lookup", "node_by_id", s.notes[0], fi.loc)
    bad = [r for r in s.raises if r[0].alive]
    ctx.require(not bad, "C04.lookup", "node_by_id never fails", "raises", bad[0][2] if bad else fi.loc)
    q, wit = cmp_val(s.frz(), vite(H(N_, ID), T("idx", N_, ID), NONE), s.state.alive)
    ctx.add("C04.lookup", "node_by_id returns the node stored under the id, or nothing", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c04_complete(ctx, k):
    p = ctx.prog
    nm = "create_all_possible_edges on %d nodes" % k
    fi = p.method(AM, "create_all_possible_edges")
    S = Small(p, k, sparse={(x, y): 0 for x in range(k) for y in range(k) if x != y}, deleted=False) if False else None
    i = Interp(p, types={MODEL: AM})
    i.on_attr = None
    st = State()
    M = i.instantiate(GM, [], {}, st, None)
    ns = [T("sym", "n%d" % j) for j in range(k)]
    ids = [const("id%d" % j) for j in range(k)]
    for x in ns:
        i.types[x] = NODE
    assume_distinct(*ns) if k > 1 else None
    tbl = {x: y for x, y in zip(ns, ids)}
    i.on_attr = lambda st_, o, a: tbl.get(o) if a == "id" else None
    nd = i.get_attr(st, M, "nodes", None)
    for x, y in zip(ns, ids):
        i.set_item(st, nd, y, x, None)
    i.set_attr(st, MODEL, "graph", M, None)
    s = i.run(fi, args={}, self_val=MODEL, st=st)
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C04.complete", nm, s.notes[0], fi.loc)
    bad = [r for r in s.raises if r[0].alive]
    ctx.require(not bad, "C04.complete", nm + ": does not fail", "leaves with %s" % (show(bad[0][1])[:80] if bad else ""), bad[0][2] if bad else fi.loc)
    for a in range(k):
        for b in range(k):
            g = obs_bool(i, s.state, "g.edge_exists(x, y)" if a != b else "y.id in g.edges.get(x.id, {})", {"g": M, "x": ns[a], "y": ns[b]}, p.cls(GM).module)
            q, wit = cmp_bool(g, 1 if a != b else 0, s.state.alive)
            ctx.add("C04.complete", "%s: %s" % (nm, "nodes %d and %d are connected" % (a, b) if a != b else "node %d has no self loop" % a), VERDICT[q], wit if q != "eq" else "", fi.loc)


# ---------------------------------------------------------------------------------------------- C28
NAMES = ("b", "C", "a")  # mixed case: "C" sorts before "a"


def cellsym(k, j):
    return T("sym", "x_%s_%d" % (k, j))


class Ingest:
    def __init__(self, prog):
        self.p = prog
        self.i = Interp(prog, types={MODEL: AM})
        self.st = State()

    def dict_(self, items):
        r = self.i.new(self.st, Obj("dict"))
        for k, v in items:
            self.i.set_item(self.st, r, const(k), v, None)
        return r

    def rows(self, order, n):
        return [self.dict_([(k, cellsym(k, j)) for k in (order if j == 0 else order[::-1])]) for j in range(n)]

    def list_(self, xs):
        return self.i.new_list(self.st, xs)

    def columns(self, order, n):
        return self.dict_([(k, self.list_([cellsym(k, j) for j in range(n)])) for k in order])


def C28(ctx):
    for n in (1, 3):
        for order in permutations(NAMES):
            for form in ("rows", "columns", "loader of rows", "loader of columns"):
                if form == "loader of columns" and ctx.prog.classes.get(DL + "JSONDataLoader") is None:
                    continue
                nm = "%s (%s), %d observations" % (form, ",".join(order), n)
                ctx.guard("C28.nodes", nm, c28_nodes, ctx, form, order, n, nm)
                if n == 1 and order == NAMES:
                    for first in ("rows", "columns", "loader of rows", "loader of columns"):
                        n2 = "%s, after %s of other variables" % (nm, first)
                        ctx.guard("C28.nodes", n2, c28_nodes, ctx, form, order, n, n2, first)
    # names that other orders (by number, by length, ignoring case) would sort in another way
    many = ("x10", "b", "x2", "B", "_a", "ab")
    for form in ("rows", "columns", "loader of rows", "loader of columns"):
        if form == "loader of columns" and ctx.prog.classes.get(DL + "JSONDataLoader") is None:
            continue
        nm = "%s of six variables, seven observations" % form
        ctx.guard("C28.nodes", nm, c28_nodes, ctx, form, many, 7, nm)
    for form in ("rows", "loader of rows"):
        for at in (1, 2):
            ctx.guard("C28.incomplete", form, c28_incomplete, ctx, form, at)
    ctx.guard("C28.json", "JSONDataLoader", c28_json, ctx)
    ctx.guard("C28.jsonl", "JSONLDataLoader", c28_jsonl, ctx)
    ctx.guard("C28.select", "load_data_loader", c28_select, ctx)
    ctx.guard("C28.dynamic", "DynamicDataLoader", c28_dynamic, ctx)


def c28_nodes(ctx, form, order, n, nm, first=None):
    p = ctx.prog
    fi = p.method(AM, "create_graph_from_data")
    I = Ingest(p)
    i, st = I.i, I.st
    model = MODEL
    contents = {}
    i.mcall_handlers["load"] = lambda it, recv, args, kw, st_, node: contents.get(recv)

    def given(form, order, n, tag):
        if form == "rows":
            return I.list_(I.rows(order, n))
        if form == "columns":
            return I.columns(order, n)
        data = T("sym", "loader" + tag)
        i.types[data] = ADL
        contents[data] = I.list_(I.rows(order, n)) if form == "loader of rows" else I.list_([I.dict_([("_dict", I.columns(order, n))])])
        return data

    if first:
        o = Obj("inst", AM)
        o.fields.update({"graph": NONE, "_graph_class": T("cls", "causy.graph.Graph")})
        model = i.new(st, o)
        s0 = i.run(fi, args={fi.node.args.args[1].arg: given(first, ("z", "b"), 2, "0")}, self_val=model, st=st)
        if s0.notes:
            return ctx.unk("C28.nodes", nm, s0.notes[0], fi.loc)
        I.st = st = s0.state
    s = i.run(fi, args={fi.node.args.args[1].arg: given(form, order, n, "")}, self_val=model, st=st)
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C28.nodes", nm, s.notes[0], fi.loc)
    care = 1
    for r in s.raises:
        g = r[0].alive
        if numeric_failure(g):
            q, wit = cmp_bool(numeric_failure(g), 0, 1)
            return ctx.add("C28.nodes", nm + ": accepted", VERDICT[q], "leaves with %s" % show(r[1])[:100], r[2])
    for a in atoms_of(s.state.alive):
        if a.op == "exc":
            care = AND(care, NOT(bvar(a)))
    for src, what in (("g", "returned graph"), ("m.graph", "graph of the model")):
        got = observe(i, s.state, "[(k, x.id, x.name, x.values) for k, x in %s.nodes.items()]" % src, {"g": s.ret, "m": model}, fi.module)
        items, why = concrete(got, care)
        if items is None or None in items:
            return ctx.unk("C28.nodes", "%s: %s" % (nm, what), why or show(got)[:300], fi.loc)
        for pos, want in enumerate(sorted(order)):
            c = "%s: %s, node %d is %s with its values in row order" % (nm, what, pos, want)
            if pos >= len(items):
                ctx.bad("C28.nodes", c, "the graph has %d nodes" % len(items), fi.loc)
                continue
            key, id_, name, vals = items[pos].args
            k = const(want)
            if key is not k or id_ is not k or name is not k:
                ctx.bad("C28.nodes", c, "stored under %s with id %s and name %s" % (show(key), show(id_), show(name)), fi.loc)
                continue
            seq = is_double(vals)
            want_seq = T("list", *[T("seg", (), G(1), "elem", cellsym(want, j)) for j in range(n)])
            if seq is None or seq is not want_seq:
                ctx.add("C28.nodes", c, UNDECIDED if imprecise_term(vals) or seq is None and not all_known(vals) else VIOLATED, "values are %s" % show(vals)[:140], fi.loc)
                continue
            ctx.hold("C28.nodes", c, loc=fi.loc)
        if len(items) > len(order):
            ctx.bad("C28.nodes", "%s: %s has no other node" % (nm, what), "%d nodes" % len(items), fi.loc)


def c28_incomplete(ctx, form, at):
    """a row without one of the variables is rejected, never filled in or skipped"""
    p = ctx.prog
    fi = p.method(AM, "create_graph_from_data")
    I = Ingest(p)
    i, st = I.i, I.st
    nm = "%s, row %d lacks a variable: rejected" % (form, at)
    rows = [I.dict_([(k, cellsym(k, j)) for k in NAMES if (j, k) != (at, "C")]) for j in range(3)]
    data = I.list_(rows)
    if form != "rows":
        content, data = data, T("sym", "loader")
        i.types[data] = ADL
        i.mcall_handlers["load"] = lambda it, recv, args, kw, st_, node: content if recv is data else None
    s = i.run(fi, args={fi.node.args.args[1].arg: data}, self_val=MODEL, st=st)
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C28.incomplete", nm, s.notes[0], fi.loc)
    q, wit = cmp_bool(s.state.alive, 0, 1)
    if q == "diff":
        got, _ = concrete(observe(i, s.state, "[len(x.values) for x in g.nodes.values()]", {"g": s.ret}, fi.module), s.state.alive)
    ctx.add("C28.incomplete", nm, VERDICT[q], wit if q != "eq" else "", fi.loc)


def all_known(t):
    return func_symbols(t) <= {"call:torch.tensor", "ext:torch.float64", "ext:torch.float32", "ext:torch.float", "ext:torch.double"}


def concrete(t, care):
    """items of a list whose elements are all unconditional under the care set"""
    t = settled_value(t, care)
    if t is None or t.op != "list":
        return None, "not a plain list: %s" % (show(t)[:120] if t is not None else "?")
    out = []
    for x in t.args:
        if x.op != "seg":
            out.append(x)
            continue
        b, g, k, v = x.args
        if b or k != "elem":
            return None, "not a plain list: %s" % show(t)[:120]
        if AND(g.n, care) == 0:
            continue
        if AND(NOT(g.n), care):
            return None, "conditional element %s" % show(x)[:120]
        out.append(settled_value(v, care))
    return out, ""


def settled_value(t, care):
    if t.op == "tup":
        xs = [settled_value(x, care) for x in t.args]
        return T("tup", *xs) if all(x is not None for x in xs) else None
    if t.op != "cases":
        return t
    vs = {x for g, x in cases_of(t) if AND(g, care)}
    return next(iter(vs)) if len(vs) == 1 else None


FILE, TEXT, DOC = T("sym", "file"), T("sym", "text"), T("sym", "document")
REF, OPT = T("sym", "reference"), T("sym", "options")
LINES = [T("sym", "line%d" % j) for j in range(3)]


def the_file(x):
    return x is FILE or x.op == "enter" and x.args[0] is FILE


def parsed(x):
    return T("call", "json.loads", (x,))


def file_interp(prog, cls, doc=None):
    """a loader object of the class whose file content is scripted"""
    i = Interp(prog)
    st = State()
    opened = []

    def op(it, args, kw, st_, node):
        opened.append((it.freeze(args[0] if args else kw["file"], st_), node))
        return FILE

    lines = i.new_list(st, LINES)

    def js(it, args, kw, st_, node):
        x = args[0]
        while x.op == "mcall" and x.args[1] in ("strip", "rstrip", "lstrip"):
            x = x.args[0]
        if x is TEXT or the_file(x):
            return doc
        if x in LINES:
            return parsed(x)
        return None

    i.ext_handlers["builtins.open"] = op
    i.ext_handlers["json.loads"] = js
    i.ext_handlers["json.load"] = js
    i.mcall_handlers["read"] = lambda it, recv, args, kw, st_, node: TEXT if the_file(recv) else None
    i.mcall_handlers["readlines"] = lambda it, recv, args, kw, st_, node: lines if the_file(recv) else None
    i.mcall_handlers["splitlines"] = lambda it, recv, args, kw, st_, node: lines if recv is TEXT else None
    od, on = i.domain, i.b_next
    used = []

    def dom(v, st_):
        return od(v, st_) if not the_file(v) else [((), 1, x) for x in LINES[len(used) :]]

    def nxt(it, recv, args, kw, st_, node):
        if not the_file(recv) or len(used) >= len(LINES):
            return None
        used.append(1)
        return LINES[len(used) - 1]

    i.b_next = lambda args, kw, st_, node: nxt(i, args[0], (), {}, st_, node) or on(args, kw, st_, node)
    i.mcall_handlers["readline"] = nxt

    i.domain = dom
    loader = i.instantiate(cls, [REF, NONE], {}, st, None)
    return i, st, loader, opened


def c28_json(ctx):
    p = ctx.prog
    cls = DL + "JSONDataLoader"
    fi = p.method(cls, "load")
    for kind in ("list of rows", "object of columns"):
        I = Interp(p)
        nm = "JSONDataLoader.load of a %s" % kind
        R = [T("sym", "row%d" % j) for j in range(3)]
        holder = {}
        i, st, loader, opened = file_interp(p, cls, None)
        if kind == "list of rows":
            doc = i.new_list(st, R)
        else:
            doc = i.new(st, Obj("dict"))
            i.set_item(st, doc, const("a"), T("sym", "column"), None)
        for n in ("json.loads", "json.load"):
            i.ext_handlers[n] = lambda it, args, kw, st_, node: doc if (args[0] is TEXT or the_file(args[0])) else None
        s = i.run(fi, args={}, self_val=loader, st=st)
        ctx.note_run(s)
        if s.notes:
            ctx.unk("C28.json", nm, s.notes[0], fi.loc)
            continue
        bad = [r for r in s.raises if numeric_failure(r[0].alive)]
        if bad:
            ctx.bad("C28.json", nm, "leaves with %s" % show(bad[0][1])[:80], bad[0][2])
            continue
        care, dropped = depends_on_inputs(yields(s), s.state.alive, R)
        if dropped:
            ctx.bad("C28.json", nm + " yields every row once, in order", dropped, fi.loc)
            continue
        got, why = concrete(yields(s), care)
        if got is None:
            ctx.unk("C28.json", nm, why, fi.loc)
            continue
        if kind == "list of rows":
            ok = got == R
            ctx.add("C28.json", nm + " yields every row once, in order", HOLDS if ok else UNDECIDED if any(imprecise_term(x) for x in got) else VIOLATED, "" if ok else "yields %s" % ", ".join(show(x) for x in got)[:160], fi.loc)
        else:
            # the single row the loader form of create_graph_from_data understands as columns
            c28_columns_handover(ctx, i, s, doc, nm, fi)
        ok = opened and all(x is REF for x, _ in opened)
        ctx.require(bool(ok), "C28.json", nm + " reads the referenced file", "opens %s" % ", ".join(show(x) for x, _ in opened), fi.loc)


def yields(s):
    return s.frz()


def c28_columns_handover(ctx, i, s, doc, nm, fi):
    """columns in a JSON object reach the graph like columns given directly"""
    p = ctx.prog
    g = p.method(AM, "create_graph_from_data")
    I = Ingest(p)
    i2, st2 = I.i, I.st
    loader = T("sym", "loader")
    i2.types[loader] = DL + "JSONDataLoader"
    cols = I.columns(NAMES, 2)
    lf = p.method(DL + "JSONDataLoader", "load")
    i2.ext_handlers["builtins.open"] = lambda it, args, kw, st_, node: FILE
    i2.mcall_handlers["read"] = lambda it, recv, args, kw, st_, node: TEXT if the_file(recv) else None
    for n in ("json.loads", "json.load"):
        i2.ext_handlers[n] = lambda it, args, kw, st_, node: cols if (args[0] is TEXT or the_file(args[0])) else None
    obj = i2.instantiate(DL + "JSONDataLoader", [REF, NONE], {}, st2, None)
    s2 = i2.run(g, args={g.node.args.args[1].arg: obj}, self_val=MODEL, st=st2)
    ctx.note_run(s2)
    if s2.notes:
        return ctx.unk("C28.json", nm, s2.notes[0], fi.loc)
    bad = [r for r in s2.raises if numeric_failure(r[0].alive)]
    if bad:
        return ctx.bad("C28.json", nm + " gives the graph of the columns", "leaves with %s" % show(bad[0][1])[:80], bad[0][2])
    care = 1
    for a in atoms_of(s2.state.alive):
        if a.op == "exc":
            care = AND(care, NOT(bvar(a)))
    got, why = concrete(observe(i2, s2.state, "[(k, x.id, x.values) for k, x in g.nodes.items()]", {"g": s2.ret}, g.module), care)
    if got is None:
        return ctx.unk("C28.json", nm + " gives the graph of the columns", why, fi.loc)
    want = [T("tup", const(k), const(k), double(T("list", *[T("seg", (), G(1), "elem", cellsym(k, j)) for j in range(2)]))) for k in sorted(NAMES)]
    ok = got == want
    ctx.add("C28.json", nm + " gives the graph of the columns", HOLDS if ok else UNDECIDED if any(imprecise_term(x) for x in got) else VIOLATED, "" if ok else "nodes %s" % ", ".join(show(x) for x in got)[:200], fi.loc)


def c28_jsonl(ctx):
    p = ctx.prog
    cls = DL + "JSONLDataLoader"
    fi = p.method(cls, "load")
    i, st, loader, opened = file_interp(p, cls)
    s = i.run(fi, args={}, self_val=loader, st=st)
    ctx.note_run(s)
    nm = "JSONLDataLoader.load"
    if s.notes:
        return ctx.unk("C28.jsonl", nm, s.notes[0], fi.loc)
    care, dropped = depends_on_inputs(yields(s), s.state.alive, LINES)
    if dropped:
        return ctx.bad("C28.jsonl", nm + " yields every line once, in order", dropped, fi.loc)
    # a line may be skipped only when it is empty
    got, why = concrete(yields(s), nonblank(care, yields(s)))
    if got is None:
        return ctx.unk("C28.jsonl", nm, why, fi.loc)
    want = [parsed(x) for x in LINES]
    ok = got == want
    ctx.add("C28.jsonl", nm + " yields every line once, in order", HOLDS if ok else UNDECIDED if any(imprecise_term(x) for x in got) else VIOLATED, "" if ok else "yields %s" % ", ".join(show(x) for x in got)[:160], fi.loc)
    ctx.require(bool(opened) and all(x is REF for x, _ in opened), "C28.jsonl", nm + " reads the referenced file", "opens something else", fi.loc)


def depends_on_inputs(t, care, inputs):
    """rows are not None; a row that is yielded only if it differs from others (or their parsed forms) is dropped for equal ones"""
    forms = {x: x for x in inputs}
    forms.update({parsed(x): x for x in inputs})
    for x in list(forms):
        care = AND(care, NOT(eq(x, NONE))) if AND(care, NOT(eq(x, NONE))) else care
    for x in subterms(t):
        if x.op != "seg" or AND(x.args[1].n, care) == 0:
            continue
        off = AND(NOT(x.args[1].n), care)
        if not off:
            continue
        for a in atoms_of(off):
            if a.op == "eq" and a.args[0] in forms and a.args[1] in forms and forms[a.args[0]] is not forms[a.args[1]] and cofactor(off, a, 1) and not cofactor(off, a, 0):
                return care, "a row equal to another one is not yielded: %s" % show(x)[:120]
    return care, None


def nonblank(care, t):
    """lines are not blank"""
    for a in atoms_in(t):
        core = a
        while core.op in ("mcall", "truthy", "truth") and core.args:
            core = core.args[0]
        if core in LINES and a.op != "exc":
            care = AND(care, bvar(a)) if AND(care, bvar(a)) else care
    return care


def atoms_in(t):
    out = set()
    for x in subterms(t):
        if x.op == "seg":
            out |= set(atoms_of(x.args[1].n))
        if x.op == "cases":
            for g, _ in cases_of(x):
                out |= set(atoms_of(g))
    return out


def c28_select(ctx):
    p = ctx.prog
    fi = p.func("causy.data_loader.load_data_loader")
    TY = DL + "DataLoaderType"
    for member, cls in (("JSON", "JSONDataLoader"), ("JSONL", "JSONLDataLoader"), ("DYNAMIC", "DynamicDataLoader")):
        nm = "load_data_loader for type %s" % member
        ref = T("sym", "ref")
        tbl = {(ref, "type"): enum(p, TY, member), (ref, "reference"): REF, (ref, "options"): OPT}
        i = Interp(p, types={ref: DL + "DataLoaderReference"}, stop=lambda f: f.name == "__init__")
        i.on_attr = lambda st, o, a: tbl.get((o, a))
        s = i.run(fi, args={fi.node.args.args[0].arg: ref}, st=State())
        ctx.note_run(s)
        if s.notes:
            ctx.unk("C28.select", nm, s.notes[0], fi.loc)
            continue
        bad = [r for r in s.raises if r[0].alive]
        if bad:
            ctx.bad("C28.select", nm, "leaves with %s" % show(bad[0][1])[:80], bad[0][2])
            continue
        ob = i.obj(s.state, s.ret) if s.ret is not None and s.ret.op == "ref" else None
        if ob is None:
            ctx.unk("C28.select", nm, "returns %s" % show(s.frz())[:100], fi.loc)
            continue
        if ob.cls != DL + cls:
            ctx.bad("C28.select", nm, "builds a %s" % ob.cls, fi.loc)
            continue
        given = (ob.fields.get("*args") or T("tup")).args + tuple(v for k, v in sorted(ob.fields.items()) if k in ("reference", "options"))
        ok = REF in given and OPT in given and (ob.fields.get("reference", REF) is REF) and (not ob.fields.get("*args") or given[0] is REF)
        ctx.add("C28.select", nm + ": gets the reference and the options", HOLDS if ok else VIOLATED, "" if ok else "built with %s" % ", ".join(show(x) for x in given), fi.loc)


def c28_dynamic(ctx):
    """the loader class of the referenced module is built with the options, and its rows are handed on"""
    p = ctx.prog
    cls = DL + "DynamicDataLoader"
    fi = p.method(cls, "load")
    for opts in ("given", "missing"):
        nm = "DynamicDataLoader, options %s" % opts
        i = Interp(p)
        st = State()
        MOD, INNER, ROWS = T("sym", "module"), T("sym", "inner_loader"), T("sym", "rows_of_inner_loader")
        calls = []
        i.ext_handlers["importlib.import_module"] = lambda it, args, kw, st_, node: (calls.append(("import", args[0])), MOD)[1]

        def make(it, recv, args, kw, st_, node):
            if recv is not MOD:
                return None
            calls.append(("build", tuple(it.freeze(a, st_) for a in args), {k: it.freeze(v, st_) for k, v in kw.items()}))
            return INNER

        i.mcall_handlers["DataLoader"] = make
        i.mcall_handlers["load"] = lambda it, recv, args, kw, st_, node: ROWS if recv is INNER else None
        o = NONE
        if opts == "given":
            o = i.new(st, Obj("dict"))
            i.set_item(st, o, const("path"), T("sym", "path"), None)
        ini = p.method(cls, "__init__")
        obj = i.new(st, Obj("inst", cls))
        s0 = i.run(ini, args={"reference": REF, "options": o}, self_val=obj, st=st)
        ctx.note_run(s0)
        bad = [r for r in s0.raises if r[0].alive and not str(i.exc_class(r[1])).startswith("ext")]
        if s0.notes:
            ctx.unk("C28.dynamic", nm, s0.notes[0], ini.loc)
            continue
        if bad:
            ctx.bad("C28.dynamic", nm + ": can be built", "leaves with %s" % show(bad[0][1])[:80], bad[0][2])
            continue
        builds = [c for c in calls if c[0] == "build"]
        kw = {"path": T("sym", "path")} if opts == "given" else {}
        ok = builds and all(c[1] == () and c[2] == kw for c in builds) and all(c[1] is REF for c in calls if c[0] == "import")
        ctx.add("C28.dynamic", nm + ": builds the loader of the referenced module with the options", HOLDS if ok else UNDECIDED if not builds else VIOLATED, "" if ok else str(builds)[:160], ini.loc)
        s = i.run(fi, args={}, self_val=obj, st=s0.state)
        ctx.note_run(s)
        got = s.frz()
        q, wit = cmp_val(got, ROWS, s.state.alive)
        if q != "eq" and got.op == "list":
            q = "unk"
        ctx.add("C28.dynamic", nm + ": hands on the rows of the referenced loader", VERDICT[q], wit if q != "eq" else "", fi.loc)
