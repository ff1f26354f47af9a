"""C01 index agreement, C02 queries, C03 mutators, C04 nodes."""
import ast
from .graphmodel import *
from .program import walk_own

FIELDS = ("deleted", "edge_type", "metadata", "u", "v")


def closure_methods(prog, ci, fi, seen=None):
    """methods of the same class (and module functions) reachable from fi through self.<m>() / name()"""
    seen = {} if seen is None else seen
    if fi.qual in seen:
        return seen
    seen[fi.qual] = fi
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
            a = n.attr
            if a.startswith("__") and not a.endswith("__"):
                a2 = a
            m = prog.find_method(ci, a)
            if m is not None:
                closure_methods(prog, ci, m, seen)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            r = prog.resolve(fi.module, n.func.id)
            if r and r[0] == "func":
                closure_methods(prog, ci, r[1], seen)
    return seen


MUT_CALLS = {"pop", "popitem", "update", "setdefault", "clear", "append", "extend", "insert", "remove", "add", "discard"}
REGION_NAMES = {"edges", "_reverse_edges", "_deleted_edges"}
EDGE_FIELDS = {"deleted", "edge_type", "metadata"}


def may_write(fi):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in EDGE_FIELDS | REGION_NAMES:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in {"pop", "popitem", "update", "setdefault", "clear"}:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
            return True
    return False


def mutators(prog):
    ci = prog.cls(GM)
    out = []
    for fi in public_pair_methods(prog):
        cl = closure_methods(prog, ci, fi)
        if any(self_recursive(f) for f in cl.values()):
            continue  # graph searches (path enumeration, reachability) keep local work lists
        if any(may_write(f) for f in cl.values()):
            out.append(fi)
    return out


def self_recursive(fi):
    return any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fi.name and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"
        for n in ast.walk(fi.node)
    )


def run_pair(prog, fi, mode="alias", extra=None, st=None, uv=(U, V)):
    i = interp(prog, mode)
    args = {"u": uv[0], "v": uv[1]}
    args.update(extra or {})
    s = i.run(fi, args=args, self_val=SELF, alive=1)
    return i, s


# ---------------------------------------------------------------------------------------------- C01
def mirror_obligations(prog, fi, mode):
    """-> list of (what, verdict, detail) for one mutator in one invariant mode"""
    out = []
    i, s = run_pair(prog, fi, mode)
    if not writes_regions(s):
        return i, s, None
    inv = invariant()
    if i.notes:
        out.append(("precision", UNDECIDED, "; ".join(i.notes[:3])))
    ends = [("normal return", s.state, AND(s.state.alive, inv))]
    for r in s.raises:
        c = i.exc_class(r[1]) or "?"
        ends.append(("raise %s at %s" % (str(c).split(".")[-1], r[2]), r[0], AND(r[0].alive, inv)))
    for what, st, care in ends:
        if care == 0:
            continue
        for r in REGIONS:
            for o in [r] + [T("idx", r, x) for x in (u, v)]:
                ob = i.obj(st, o)
                if ob is None:
                    continue
                if ob.q:
                    out.append(("frame", UNDECIDED, "quantified write to %s" % show(o)))
                for k, _, _ in ob.cells:
                    if k not in (u, v):
                        out.append(("frame", VIOLATED if not imprecise_term(k) else UNDECIDED, "writes %s[%s]" % (show(o), show(k))))
        for x, y in ((u, v), (v, u)):
            nm = "%s -> %s after %s" % ("u" if x is u else "v", "v" if x is u else "u", what)
            pf, pr = pres(i, st, E_, x, y), pres(i, st, R_, y, x)
            r, wit = cmp_bool(pf, pr, care)
            if r != "eq":
                out.append((nm + ": present in one index only", VIOLATED if r == "diff" else UNDECIDED, wit))
                continue
            both = AND(care, pf, pr)
            if both == 0:
                continue
            if mode == "alias":
                a, b = rawvalue(i, st, E_, x, y), rawvalue(i, st, R_, y, x)
                for ga, xa in cases_of(a):
                    for gb, xb in cases_of(b):
                        g = AND(ga, gb, both)
                        if g and xa is not xb:
                            out.append((nm + ": indexes hold different edge objects", VIOLATED if imprecise_bdd(g) is None and not imprecise_term(xa) and not imprecise_term(xb) else UNDECIDED, witness(g)))
            else:
                for f in FIELDS:
                    a, b = field(i, st, E_, x, y, f), field(i, st, R_, y, x, f)
                    r, wit = cmp_val(a, b, both)
                    if r != "eq":
                        out.append((nm + ": field %s differs" % f, VIOLATED if r == "diff" else UNDECIDED, wit))
            # the node of an index entry is itself indexed (no dangling first level)
            for reg in REGIONS:
                miss = AND(both, NOT(obs_bool(i, st, "x in r", {"r": reg, "x": y})))
                if miss:
                    out.append((nm + ": target not indexed in %s" % show(reg), VIOLATED if imprecise_bdd(miss) is None else UNDECIDED, witness(miss)))
        for x in (u, v):
            ps = [obs_bool(i, st, "x in r", {"r": reg, "x": x}) for reg in REGIONS]
            for a, b, n in ((ps[0], ps[1], "_reverse_edges"), (ps[0], ps[2], "_deleted_edges")):
                r, wit = cmp_bool(a, b, care)
                if r != "eq":
                    out.append(("first level of edges and %s disagree after %s" % (n, what), VIOLATED if r == "diff" else UNDECIDED, wit))
    return i, s, out


def C01(ctx):
    p = ctx.prog
    muts = mutators(p)
    results = {}
    for mode in ("alias", "distinct"):
        results[mode] = []
        for fi in muts:
            def one():
                i, s, o = mirror_obligations(p, fi, mode)
                ctx.note_run(s)
                if o is not None:
                    results[mode].append((fi, o))
            ctx.guard("C01.mirror", fi.qual, one)
        if all(not o for _, o in results[mode]):
            break
    good = [m for m in results if results[m] and all(not o for _, o in results[m])]
    if good:
        for fi, o in results[good[0]]:
            ctx.hold("C01.mirror(%s)" % good[0], fi.qual, loc=fi.loc)
    else:
        key = lambda m: sum(1 for _, o in results[m] if any(x[1] == VIOLATED for x in o))
        m = min(results, key=lambda m: (key(m), m))
        nv = key(m)
        for fi, o in results[m]:
            if not o:
                ctx.hold("C01.mirror(%s)" % m, fi.qual, loc=fi.loc)
            for what, verdict, d in o:
                ctx.add("C01.mirror(%s)" % m, fi.qual + ": " + what, verdict, d, fi.loc)
    ctx.count("mutators", len(results["alias"]))
    if len(results["alias"]) < 8:
        found = {fi.name for fi, _ in results["alias"]}
        need = {"add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "restore_edge", "restore_directed_edge", "update_edge", "update_directed_edge"}
        undecided = {c.split(".")[-1] for r, c, vd, _, _ in ctx.obs if vd == UNDECIDED}
        for n in sorted(need - found - undecided):
            p.method(GM, n)
            ctx.bad("C01.mirror", GM + "." + n, "does not touch the edge indexes at all")
    ctx.guard("C01.init", GM + ".__init__", c01_init, ctx)
    ctx.guard("C01.purge", GM + ".purge_soft_deleted_edges", c01_purge, ctx)
    ctx.guard("C01.owner", "repository", c01_owner, ctx)


def c01_init(ctx):
    p = ctx.prog
    fi = p.method(GM, "__init__")
    i = interp(p)
    s = i.run(fi, self_val=SELF)
    ctx.note_run(s)
    g = observe(i, s.state, "self.graph", {"self": SELF})
    refs = {}
    for a in ("edges", "_reverse_edges"):
        val = i.get_attr(s.state, i.get_attr(s.state, SELF, "graph", None), a, None)
        ob = i.obj(s.state, val) if val.op == "ref" else None
        if ob is None or ob.kind != "dict":
            ctx.unk("C01.init", fi.qual, "initial %s is %s" % (a, show(val)[:80]), fi.loc)
            continue
        if ob.cells or ob.q or ob.base is not None:
            ctx.bad("C01.init", fi.qual, "initial %s is not empty" % a, fi.loc)
            continue
        if val in refs:
            ctx.bad("C01.init", fi.qual, "%s and %s start as the same dictionary" % (a, refs[val]), fi.loc)
            continue
        refs[val] = a
        ctx.hold("C01.init", fi.qual + ": " + a + " starts empty and unshared", loc=fi.loc)


def c01_purge(ctx):
    """whole-graph mutators only act through the verified single-edge mutators"""
    p = ctx.prog
    ci = p.cls(GM)
    muts = {fi.qual for fi in mutators(p)}
    for n, fi in ci.methods.items():
        if n.startswith("_") or fi.qual in muts or fi.is_property:
            continue
        ps = method_params(fi)
        if "u" in ps and "v" in ps:
            continue
        cl = closure_methods(p, ci, fi)
        if not any(may_write(f) for f in cl.values()) or n == "add_node":
            continue
        i = interp(p, stop=lambda f: f.qual in muts)
        s = i.run(fi, self_val=SELF)
        ctx.note_run(s)
        if writes_regions(s):
            ctx.unk("C01.bulk", fi.qual, "writes the indexes directly inside a loop", fi.loc)
        else:
            ctx.hold("C01.bulk", fi.qual, "changes edges only through verified mutators", fi.loc)


def c01_owner(ctx):
    """no code outside the graph manager stores into the indexes"""
    p = ctx.prog
    n_sites = 0
    for m in p.modules.values():
        if m.name.startswith("vspec"):
            continue
        for node in ast.walk(m.tree):
            tgt = None
            if isinstance(node, ast.Subscript) and isinstance(node.ctx, (ast.Store, ast.Del)):
                tgt = node.value
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in MUT_CALLS:
                tgt = node.func.value
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, (ast.Store, ast.Del)) and node.attr in REGION_NAMES:
                tgt = node
            if tgt is None:
                continue
            b = tgt
            while isinstance(b, ast.Subscript):
                b = b.value
            if not (isinstance(b, ast.Attribute) and b.attr in REGION_NAMES):
                continue
            if isinstance(b.value, ast.Name) and b.value.id == "self" and m.name != "causy.graph":
                continue  # a different class' own attribute (sample generators)
            n_sites += 1
            if m.name == "causy.graph":
                continue
            if not graphish(b.value):
                continue
            ctx.bad("C01.owner", "%s: store into %s" % (m.name, ast.unparse(tgt)), "edge index written outside the graph manager", "%s:%d" % (m.relpath, node.lineno))
    ctx.hold("C01.owner", "repository", "%d index store sites, all inside causy.graph" % n_sites)
    ctx.count("index_store_sites", n_sites)


def graphish(e):
    t = ast.unparse(e)
    return "graph" in t.lower()


# ---------------------------------------------------------------------------------------------- C02
def sat_has(c, k):
    """membership atoms closed under the index invariant proved by C01 (read-only contexts)"""
    if c in REGIONS:
        return AND(H(E_, k), H(N_, k))
    if c.op == "idx" and c.args[0] in (E_, R_):
        x, y = (c.args[1], k) if c.args[0] is E_ else (k, c.args[1])
        return AND(H(N_, x), H(N_, y), H(E_, x), H(E_, y), H(T("idx", E_, x), y), NOT(eq(x, y)))
    return None


def query_interp(prog, stop=None):
    i = interp(prog, "alias", stop)
    i.canon_has = sat_has
    return i


PAIR_QUERIES = [
    "directed_edge_is_soft_deleted",
    "directed_edge_exists",
    "edge_exists",
    "undirected_edge_exists",
    "only_directed_edge_exists",
    "edge_of_type_exists",
    "edge_value",
    "edge_type",
    "get_edge",
]


def graph_method(prog, name):
    """method of the graph as composed at run time (edge type mixins included)"""
    ci = prog.cls(GM)
    f = prog.find_method(ci, name)
    if f is None:
        for c in prog.classes.values():
            if c.name == "GraphAccessMixin" and name in c.methods:
                return c.methods[name]
        raise AnalysisError("graph query %s not found" % name)
    return f


def compare_runs(ctx, rule, construct, fi, s, r, care=1, ordered=True, loc=None, vocab=None, allow_exc=()):
    """s: implementation summary, r: reference summary (return value and exceptions)"""
    loc = loc or fi.loc
    a, b = canon(s.frz()), canon(r.frz())
    if not ordered:
        a, b = map_leaves(a, setify), map_leaves(b, setify)
    notes = s.interp.notes
    res, wit = cmp_val(a, b, AND(care, s.state.alive, r.state.alive), vocab)
    if res == "diff" and notes:
        res, wit = "unk", "%s (%s)" % (wit, notes[0])
    ctx.add(rule, construct + ": result", {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}[res], wit, loc)
    ra, rb = raise_conditions(s), raise_conditions(r)
    for c in sorted(set(ra) | set(rb)):
        x, y = ra.get(c, 0), rb.get(c, 0)
        res, wit = cmp_bool(x, y, care)
        if res == "eq":
            if y != 0:
                ctx.hold(rule, construct + ": raises %s exactly when specified" % c.split(".")[-1], loc=loc)
            continue
        what = "leaves with %s when %s" % (c.split(".")[-1], wit) if AND(x, NOT(y), care) else "does not raise %s when %s" % (c.split(".")[-1], wit)
        ctx.add(rule, construct + ": exceptions", VIOLATED if res == "diff" else UNDECIDED, what, loc)


def map_leaves(t, f):
    return mk_cases([(g, f(x)) for g, x in cases_of(t)])


def C02(ctx):
    p = ctx.prog
    ty = T("sym", "edge_type")
    for name in PAIR_QUERIES:
        fi = graph_method(p, name)
        spec = p.func("vspec.graph." + name)
        for a, an in ((U, "node"), (u, "id")):
            for b, bn in ((V, "node"), (v, "id")):
                if name == "get_edge" and (an, bn) != ("node", "node"):
                    continue

                def one(a=a, b=b):
                    args = {"u": a, "v": b}
                    if name == "edge_of_type_exists":
                        args["edge_type"] = ty
                    s = query_interp(p).run(fi, args=args, self_val=SELF)
                    sargs = {"self": SELF, "u": u, "v": v}
                    if name == "edge_of_type_exists":
                        sargs["edge_type"] = ty
                    r = query_interp(p).run(spec, args=sargs)
                    ctx.note_run(s)
                    compare_runs(ctx, "C02.exact", "%s(%s, %s)" % (fi.qual, an, bn), fi, s, r, invariant_nodes())

                ctx.guard("C02.exact", fi.qual, one)
    for name, par in (("parents_of_node", "u"), ("get_siblings", "v"), ("node_by_id", "id_"), ("retrieve_edges", None)):
        fi = graph_method(p, name)
        spec = p.func("vspec.graph." + name)
        forms = [(U, u, "node"), (u, u, "id")] if par in ("u", "v") else [(u, u, "id")] if par else [(None, None, "")]
        for a, sa_, an in forms:

            def one(a=a, sa_=sa_):
                pn = [x for x in method_params(fi) if x != "self"]
                s = query_interp(p).run(fi, args={pn[0]: a} if par else {}, self_val=SELF)
                r = query_interp(p).run(spec, args={"self": SELF, **({par: sa_} if par else {})})
                ctx.note_run(s)
                compare_runs(ctx, "C02.exact", "%s(%s)" % (fi.qual, an), fi, s, r, invariant_nodes(), ordered=name != "get_siblings")

            ctx.guard("C02.exact", fi.qual, one)
    # siblings: graph_utils helper used by generators
    fi = p.funcs.get("causy.graph_utils.retrieve_edges")
    if fi is not None:

        def one():
            g = GR
            s = query_interp(p).run(fi, args={method_params(fi)[0]: g})
            r = query_interp(p).run(p.func("vspec.graph.module_retrieve_edges"), args={"graph": g})
            ctx.note_run(s)
            compare_runs(ctx, "C02.exact", fi.qual, fi, s, r)

        ctx.guard("C02.exact", fi.qual, one)
    ctx.guard("C02.pure", "queries", c02_pure, ctx)


def invariant_nodes():
    return 1


def c02_pure(ctx):
    """no query writes graph state"""
    p = ctx.prog
    for name in PAIR_QUERIES + ["parents_of_node", "get_siblings", "retrieve_edges", "node_by_id"]:
        fi = graph_method(p, name)
        i = query_interp(p)
        pn = [x for x in method_params(fi) if x != "self"]
        args = {}
        if "u" in pn:
            args["u"] = U
        if "v" in pn:
            args["v"] = V
        s = i.run(fi, args=args, self_val=SELF)
        w = [e for e in s.events if e.kind in ("setattr", "setitem", "delitem", "mutcall", "augassign")]
        ctx.require(not w, "C02.pure", fi.qual, "writes %s" % (w[:1],), fi.loc)


# ---------------------------------------------------------------------------------------------- C03
def pre_pres(reg, x, y):
    return AND(H(reg, x), H(T("idx", reg, x), y))


def pre_field(reg, x, y, f):
    return endpoint(cell(reg, x, y), f) or T("attr", cell(reg, x, y), f)


MD, ET, NEWMD = T("sym", "metadata"), T("sym", "edge_type"), T("sym", "metadata")


def mutator_specs():
    """name -> list of (label, extra args, reject BDD, {(x,y): (presence, {field: value})})"""
    nn = OR(NOT(H(N_, u)), NOT(H(N_, v)))
    P = lambda x, y: pre_pres(E_, x, y)
    Dp = lambda x, y: pre_pres(D_, x, y)
    X = {u: U, v: V}
    keep = lambda x, y: (P(x, y), {f: pre_field(E_, x, y, f) for f in FIELDS})

    def fresh(x, y):
        return (1, {"u": X[x], "v": X[y], "edge_type": ET, "metadata": MD, "deleted": FALSE})

    def soft(x, y):
        d = {f: pre_field(E_, x, y, f) for f in FIELDS}
        d["deleted"] = TRUE
        return (P(x, y), d)

    gone = (0, {})

    def restored(x, y):
        d = {}
        for f in ("edge_type", "metadata"):
            d[f] = vite(P(x, y), pre_field(E_, x, y, f), pre_field(D_, x, y, f))
        d["deleted"] = FALSE
        d["u"] = vite(P(x, y), pre_field(E_, x, y, "u"), X[x])
        d["v"] = vite(P(x, y), pre_field(E_, x, y, "v"), X[y])
        return (OR(P(x, y), Dp(x, y)), d)

    def upd(x, y, md, et):
        d = {f: pre_field(E_, x, y, f) for f in FIELDS}
        if md is not None:
            d["metadata"] = md
        if et is not None:
            d["edge_type"] = et
        return (P(x, y), d)

    uv, vu = (u, v), (v, u)
    out = {
        "add_edge": [("", {"metadata": MD, "edge_type": ET}, nn, {uv: fresh(u, v), vu: fresh(v, u)})],
        "add_directed_edge": [("", {"metadata": MD, "edge_type": ET}, nn, {uv: fresh(u, v), vu: keep(v, u)})],
        "remove_edge": [
            ("soft", {"soft_delete": TRUE}, nn, {uv: soft(u, v), vu: soft(v, u)}),
            ("hard", {"soft_delete": FALSE}, nn, {uv: gone, vu: gone}),
        ],
        "remove_directed_edge": [
            ("soft", {"soft_delete": TRUE}, nn, {uv: soft(u, v), vu: keep(v, u)}),
            ("hard", {"soft_delete": FALSE}, nn, {uv: gone, vu: keep(v, u)}),
        ],
        "restore_edge": [("", {}, OR(nn, NOT(OR(P(u, v), P(v, u), Dp(u, v), Dp(v, u)))), {uv: restored(u, v), vu: restored(v, u)})],
        "restore_directed_edge": [("", {}, OR(nn, NOT(OR(P(u, v), Dp(u, v)))), {uv: restored(u, v), vu: keep(v, u)})],
        "update_edge": [],
        "update_directed_edge": [],
    }
    for nm, rej, both in (("update_edge", OR(nn, NOT(AND(P(u, v), P(v, u)))), True), ("update_directed_edge", OR(nn, NOT(P(u, v))), False)):
        for lab, md, et in (("metadata", MD, None), ("type", None, ET), ("metadata and type", MD, ET), ("nothing", None, None)):
            out[nm].append((lab, {"metadata": md or NONE, "edge_type": et or NONE}, rej, {uv: upd(u, v, md, et), vu: upd(v, u, md, et) if both else keep(v, u)}))
    return out


def c03_case(ctx, fi, label, args, reject, dirs):
    p = ctx.prog
    i, s = run_pair(p, fi, "alias", args)
    for x in (MD, ET):
        i.types[x] = i.types.get(x) or None
    ctx.note_run(s)
    nm = fi.qual + (" (%s)" % label if label else "")
    inv = invariant()
    # symbolic metadata / type arguments are real values
    inv = AND(inv, NOT(eq(MD, NONE)), NOT(eq(ET, NONE)))
    if i.notes:
        ctx.unk("C03.effect", nm, "; ".join(i.notes[:2]), fi.loc)
        return
    # 1. rejections
    rc = raise_conditions(s)
    ge = rc.pop("causy.graph.GraphError", 0)
    res, wit = cmp_bool(ge, reject, inv)
    ctx.add("C03.reject", nm, {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}[res], "" if res == "eq" else "GraphError raised differently from the specification when %s" % wit, fi.loc)
    for c, g in rc.items():
        g = AND(g, inv)
        if g:
            ctx.add("C03.reject", nm, VIOLATED if imprecise_bdd(g) is None else UNDECIDED, "leaves with %s when %s" % (c, witness(g)), fi.loc)
    # 2. rejected calls change nothing
    for r in s.raises:
        care = AND(r[0].alive, inv)
        if care == 0:
            continue
        for x, y in ((u, v), (v, u)):
            a = pres(i, r[0], E_, x, y)
            q, wit = cmp_bool(a, pre_pres(E_, x, y), care)
            if q == "diff":
                ctx.bad("C03.atomic", nm, "rejected call changes the graph when %s" % wit, fi.loc)
            both = AND(care, a)
            for f in FIELDS:
                if both and q == "eq":
                    q2, wit = cmp_val(field(i, r[0], E_, x, y, f), pre_field(E_, x, y, f), both)
                    if q2 == "diff":
                        ctx.bad("C03.atomic", nm, "rejected call changes %s: %s" % (f, wit), fi.loc)
    ctx.hold("C03.atomic", nm + ": rejection paths examined", loc=fi.loc)
    # 3. effect
    care = AND(s.state.alive, inv, NOT(reject))
    for (x, y), (pexp, fexp) in dirs.items():
        d = "u -> v" if x is u else "v -> u"
        a = pres(i, s.state, E_, x, y)
        q, wit = cmp_bool(a, pexp, care)
        ctx.add("C03.effect", "%s: presence of %s" % (nm, d), {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}[q], "" if q == "eq" else wit, fi.loc)
        both = AND(care, a, pexp)
        if both == 0:
            continue
        for f, val in fexp.items():
            q, wit = cmp_val(field(i, s.state, E_, x, y, f), val, both)
            ctx.add("C03.effect", "%s: %s of %s" % (nm, f, d), {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}[q], "" if q == "eq" else wit, fi.loc)
    # 4. what a hard removal keeps for a later restore
    if label == "hard":
        for (x, y), (pexp, _) in dirs.items():
            if pexp != 0:
                continue
            was = AND(care, pre_pres(E_, x, y))
            a = pres(i, s.state, D_, x, y)
            miss = AND(was, NOT(a))
            if miss:
                ctx.add("C03.restorable", nm, VIOLATED if imprecise_bdd(miss) is None else UNDECIDED, "removed edge is not kept for restoring when %s" % witness(miss), fi.loc)
            for f in ("edge_type", "metadata"):
                q, wit = cmp_val(field(i, s.state, D_, x, y, f), pre_field(E_, x, y, f), AND(was, a))
                ctx.add("C03.restorable", "%s: %s" % (nm, f), {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}[q], "" if q == "eq" else wit, fi.loc)
    # 5. the recorded history of the pair survives
    for x, y in ((u, v), (v, u)):
        k = T("tup", x, y)
        was = AND(care, H(H_, k))
        pr, val = i.cell(s.state, H_, k)
        lost = AND(was, NOT(pr))
        q, wit = cmp_val(val, T("idx", H_, k), AND(was, pr))
        changed = i.obj(s.state, T("idx", H_, k)) is not None
        ctx.require(lost == 0 and q != "diff" and not changed, "C03.history", nm, "edge history of the pair is lost or replaced", fi.loc)


def C03(ctx):
    p = ctx.prog
    for name, cases in mutator_specs().items():
        fi = p.method(GM, name)
        for label, args, rej, dirs in cases:
            ctx.guard("C03.effect", fi.qual + " " + label, c03_case, ctx, fi, label, args, rej, dirs)
    # self loops
    for name in ("add_edge", "add_directed_edge"):
        fi = p.method(GM, name)

        def loop(fi=fi):
            i, s = run_pair(p, fi, "alias", {}, uv=(U, U))
            care = AND(H(N_, u), IMPLIES(H(T("idx", E_, u), u), 0))
            ok = AND(care, s.state.alive)
            ctx.add("C03.selfloop", fi.qual, HOLDS if ok == 0 else (VIOLATED if imprecise_bdd(ok) is None else UNDECIDED), "" if ok == 0 else "accepts an edge from a node to itself", fi.loc)
            for r in s.raises:
                if AND(care, r[0].alive) and AND(care, r[0].alive, pres(i, r[0], E_, u, u)):
                    ctx.bad("C03.selfloop", fi.qual, "stores the self loop before rejecting it", fi.loc)

        ctx.guard("C03.selfloop", fi.qual, loop)
    # defaults: hard removal and generic types
    for name, par, want in (
        ("remove_edge", "soft_delete", FALSE),
        ("remove_directed_edge", "soft_delete", FALSE),
        ("add_edge", "edge_type", "causy.edge_types.UndirectedEdge"),
        ("add_directed_edge", "edge_type", "causy.edge_types.DirectedEdge"),
        ("update_edge", "metadata", NONE),
        ("update_edge", "edge_type", NONE),
        ("update_directed_edge", "metadata", NONE),
        ("update_directed_edge", "edge_type", NONE),
    ):
        fi = p.method(GM, name)

        def dflt(fi=fi, par=par, want=want):
            i = interp(p)
            a = fi.node.args
            ps = [x.arg for x in a.args]
            if par not in ps or len(a.defaults) < len(ps) - ps.index(par):
                ctx.bad("C03.default", fi.qual + "." + par, "no default value", fi.loc)
                return
            d = a.defaults[ps.index(par) - len(ps)]
            fr = Frame(None, fi.module, fi.cls)
            i.frames.append(fr)
            st = State()
            st.envs[fr.fid] = {}
            val = i.freeze(i.eval(d, st), st)
            i.frames.pop()
            if isinstance(want, str):
                ok = val.op == "rec" and val.args[0] == want
            else:
                ok = val is want or truth(eq(val, want) and B(eq(val, want)) or FALSE) == 1
            ctx.require(ok, "C03.default", fi.qual + "." + par, "default is %s" % show(val), fi.loc)

        ctx.guard("C03.default", fi.qual + "." + par, dflt)
    ctx.guard("C03.purge", GM + ".purge_soft_deleted_edges", c03_purge, ctx)


def c03_purge(ctx):
    p = ctx.prog
    fi = p.method(GM, "purge_soft_deleted_edges")
    stopq = {GM + ".remove_directed_edge", GM + ".remove_edge"}
    isq = lambda e: e.kind == "call" and e.data[0] in stopq
    s = query_interp(p, stop=lambda f: f.qual in stopq).run(fi, self_val=SELF)
    r = query_interp(p, stop=lambda f: f.qual in stopq).run(p.func("vspec.graph.purge_soft_deleted_edges"), args={"self": SELF})
    ctx.note_run(s)
    a, b = call_events(s, isq), call_events(r, isq)
    if writes_regions(s) or s.notes:
        ctx.unk("C03.purge", fi.qual, "edges are removed inline; %s" % "; ".join(s.notes[:1]), fi.loc)
        return
    compare_calls(ctx, "C03.purge", fi.qual, a, b, fi.loc)
    bad = [x for x in s.raises if x[0].alive]
    ctx.require(not bad, "C03.purge", fi.qual + ": completes", "may raise %s" % (show(bad[0][1])[:80] if bad else ""), fi.loc)


def compare_calls(ctx, rule, construct, a, b, loc, care=1):
    """event sequences must perform the same calls under the same conditions"""
    def key(x):
        return (x[0], x[3][0], tuple(show(y) for y in x[3][1]))

    def fold(seq):
        d = {}
        for x in seq:
            d[key(x)] = OR(d.get(key(x), 0), x[1])
        return d

    da, db = fold(a), fold(b)
    for k in sorted(set(da) | set(db), key=str):
        q, wit = cmp_bool(da.get(k, 0), db.get(k, 0), care)
        nm = "%s: call %s(%s)" % (construct, k[1].split(".")[-1], ", ".join(k[2][1:]))
        if q == "eq":
            ctx.hold(rule, nm, loc=loc)
        else:
            extra = AND(da.get(k, 0), NOT(db.get(k, 0)), care) != 0
            ctx.add(rule, nm, VIOLATED if q == "diff" else UNDECIDED, ("performed when %s" if extra else "not performed when %s") % wit, loc)
