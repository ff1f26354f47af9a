"""C31 path queries and C17 d-separation: exact answers on every graph with k generic nodes (recursion unrolled to k activations)."""
from itertools import permutations

from .rules_generators import *
from .interp import mkseg

UNDIR, DIRECTED = "causy.edge_types.UndirectedEdge", "causy.edge_types.DirectedEdge"


def simple_paths(ns, u, v):
    """node sequences u..v without a repeated node, over all intermediate selections"""
    if u == v:
        return [(u,)]
    mid = [x for x in ns if x not in (u, v)]
    return [(u,) + p + (v,) for r in range(len(mid) + 1) for p in permutations(mid, r)]


def steps(p):
    return list(zip(p, p[1:]))


def reach(S, edge, u, v):
    """a path of edge(x, y) from u to v; for u == v one through another node"""
    ns = range(S.k)
    if u != v:
        return or_all(AND(*[edge(a, b) for a, b in steps(p)]) for p in simple_paths(ns, u, v))
    return or_all(AND(edge(u, x), *[edge(a, b) for a, b in steps(p)]) for x in ns if x != u for p in simple_paths(ns, x, u))


def arguments(S, fi, given):
    """explicit arguments, declared defaults for the others"""
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    out = dict(given)
    for p, d in zip(ps[len(ps) - len(a.defaults) :], a.defaults):
        if p not in out:
            out[p] = S.i.default_value(fi, d, S.st)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None and p.arg not in out:
            out[p.arg] = S.i.default_value(fi, d, S.st)
    return out


class Query:
    """one abstract evaluation of a query method of the graph"""

    def __init__(self, ctx, S, fi, given):
        S.i.recursion = 2 * S.k + 2
        self.ctx, self.S, self.fi = ctx, S, fi
        self.s = S.i.run(fi, args=arguments(S, fi, given), self_val=S.g, st=S.st, alive=S.care)
        ctx.note_run(self.s)
        self.known = set(atoms_of(S.care))
        for x, y in S.E:
            p, e = S.E[x, y]
            self.known |= set(atoms_of(p)) | set(atoms_of(truth(T("attr", e, "deleted"))))
        self.known |= set(getattr(S, "extra_atoms", ()))

    def raised(self, care):
        r = 0
        for x in self.s.raises:
            r = OR(r, AND(x[0].alive, care))
        return r

    def endless(self, care):
        r = 0
        for g, fi, node in self.S.i.endless:
            r = OR(r, AND(g, care))
        return r

    def precise(self, d):
        """the part of a difference that holds whatever the unresolved conditions are"""
        for a in atoms_of(d):
            if a not in self.known:
                d = AND(cofactor(d, a, 0), cofactor(d, a, 1))
        return d

    def verdict(self, rule, nm, got, want, care, text="%s"):
        d = AND(XOR(got, want), care)
        if d == 0:
            return self.ctx.hold(rule, nm, "", self.fi.loc)
        p = self.precise(d)
        if p == 0:
            return self.ctx.unk(rule, nm, "depends on %s" % witness(d)[:200], self.fi.loc)
        return self.ctx.bad(rule, nm, text % ("when " + witness(p)), self.fi.loc)

    def truth_of(self, care):
        r = 0
        for g, v in cases_of(self.s.ret):
            if AND(g, care):
                r = OR(r, AND(g, truth(v)))
        return r


def fact(ctx, q, rule, nm, want, care=None):
    """boolean query: answers exactly `want`, raises nothing, ends"""
    care = q.S.care if care is None else care
    e = q.endless(care)
    if e:
        p = q.precise(e)
        if p:
            ctx.bad(rule, nm + ": ends", "calls itself with the same arguments, without end, when " + witness(p), q.fi.loc)
            return
    r = q.raised(care)
    if r and q.precise(r):
        ctx.bad(rule, nm + ": raises nothing", "raises when " + witness(q.precise(r)), q.fi.loc)
        return
    q.verdict(rule, nm, q.truth_of(care), want, AND(care, NOT(r)), "wrong answer %s")


def sequence_items(q, v, g, leaf):
    """all concrete sequences a list value can stand for: [(guard, tuple)]"""
    out = []
    for gc, x in cases_of(v):
        g2 = AND(g, gc)
        if g2 == 0:
            continue
        ps = parts(q.S.i, q.s.state, x)
        if ps is None:
            raise Lost("value %s" % show(q.S.i.freeze(x, q.s.state))[:160])
        acc = [(g2, ())]
        for gg, y in ps:
            nxt = []
            for ga, t in acc:
                if AND(ga, gg):
                    nxt.append((AND(ga, gg), t + (leaf(y),)))
                if AND(ga, NOT(gg)):
                    nxt.append((AND(ga, NOT(gg)), t))
            acc = nxt
            if len(acc) > 4096:
                raise Lost("too many alternatives")
        out += acc
    return out


def node_leaf(S):
    at = {n: k for k, n in enumerate(S.nodes)}
    at.update({n: k for k, n in enumerate(S.ids)})

    def f(y):
        if y not in at:
            raise Lost("value %s" % show(y)[:120])
        return at[y]

    return f


def same(ctx, q, rule, nm, got, want, care, what):
    """got: [(guard, key)] in order; every key exactly under its wanted guard and at most once"""
    tab, twice = {}, {}
    for g, c in got:
        if AND(g, care) == 0:
            continue
        twice[c] = OR(twice.get(c, 0), AND(tab.get(c, 0), g))
        tab[c] = OR(tab.get(c, 0), g)
    bad = 0
    for c in sorted(set(tab) | set(want), key=str):
        d = AND(XOR(tab.get(c, 0), want.get(c, 0)), care)
        t = AND(twice.get(c, 0), care)
        if d == 0 and t == 0:
            continue
        bad += 1
        for x, word in ((AND(d, tab.get(c, 0)), "unexpected"), (AND(d, want.get(c, 0)), "missing"), (t, "repeated")):
            if x == 0:
                continue
            p = q.precise(x)
            if p:
                ctx.bad(rule, "%s: %s %s" % (nm, what, key_text(q.S, c)), "%s when %s" % (word, witness(p)), q.fi.loc)
            else:
                ctx.unk(rule, "%s: %s %s" % (nm, what, key_text(q.S, c)), "depends on %s" % witness(x)[:200], q.fi.loc)
            break
    if not bad:
        ctx.hold(rule, "%s: %d %ss" % (nm, len(want), what), "", q.fi.loc)


def key_text(S, c):
    if isinstance(c, tuple):
        return "(" + ", ".join(key_text(S, x) for x in c) + ")"
    return name_of(S, c)


def listing(ctx, q, rule, nm, leaf, want, what, care=None):
    care = q.S.care if care is None else care
    e = q.endless(care)
    if e and q.precise(e):
        ctx.bad(rule, nm + ": ends", "calls itself with the same arguments, without end, when " + witness(q.precise(e)), q.fi.loc)
        return
    r = q.raised(care)
    if r and q.precise(r):
        ctx.bad(rule, nm + ": raises nothing", "raises when " + witness(q.precise(r)), q.fi.loc)
        return
    care = AND(care, NOT(r))
    got = []
    for gc, x in cases_of(q.s.ret):
        if AND(gc, care) == 0:
            continue
        ps = parts_any(q, x)
        for g, y in ps:
            if AND(gc, g, care) == 0:
                continue
            got += leaf(q, y, AND(gc, g, care))
    same(ctx, q, rule, nm, got, want, care, what)


def parts_any(q, x):
    i, st = q.S.i, q.s.state
    ob = i.obj(st, x) if x.op == "ref" else None
    if ob is not None and ob.kind == "set":
        x = T("list", *ob.segs)
    if x.op == "set":
        x = T("list", *x.args)
    ps = parts(i, st, x)
    if ps is None:
        raise Lost("value %s" % show(i.freeze(x, st))[:160])
    return ps


R31 = "C31.paths"


def unchanged(ctx, q, rule, nm):
    """the query leaves the adjacency structure as it was"""
    S, st = q.S, q.s.state
    for kind, refs in (("edges", S.fw_in), ("reverse edges", S.bw_in)):
        for k, r in enumerate(refs):
            now, was = S.i.freeze(r, st), q.before[r]
            if now is not was:
                ctx.bad(rule, nm + ": reads only", "%s of %s are modified" % (kind, name_of(S, k)), q.fi.loc)
                return
    ctx.hold(rule, nm + ": reads only", "", q.fi.loc)


def graph_method(prog, name):
    """a query method of the graph class, or of a mixin that an edge type or extension grafts onto it"""
    m = prog.find_method(prog.cls(GRAPH), name)
    if m is not None:
        return m
    for c in prog.classes.values():
        if c.name == "GraphAccessMixin" and name in c.methods:
            return c.methods[name]
    return prog.method(GRAPH, name)


def query(ctx, k, name, given, ids=False, pre=None):
    S = Small(ctx.prog, k, sparse=True)
    fi = graph_method(ctx.prog, name)
    before = {r: S.i.freeze(r, S.st) for r in S.fw_in + S.bw_in}
    for x in S.ids:
        S.care = AND(S.care, truth(x), NOT(eq(x, NONE)))  # ids are non-empty strings
    if pre:
        pre(S)
    arg = {p: (S.ids if ids else S.nodes)[x] for p, x in given.items()}
    q = Query(ctx, S, fi, arg)
    q.before = before
    return q


def settled(ctx, nm):
    return any(o[2] == VIOLATED and o[1].startswith(nm) for o in ctx.obs)


def C31(ctx):
    ks = (2, 3, 4, 5) if ctx.tier == "thorough" else (2, 3, 4)
    for k in ks:
        for ids in (False, True):
            tag = "%d nodes, %s" % (k, "ids" if ids else "nodes")

            def exists(same_end):
                v = 0 if same_end else k - 1
                q = query(ctx, k, "directed_path_exists", {"u": 0, "v": v}, ids)
                nm = "directed_path_exists(%s) on %s" % ("u, u" if same_end else "u, v", tag)
                fact(ctx, q, R31, nm, reach(q.S, q.S.live, 0, v))
                unchanged(ctx, q, R31, nm)

            def desc():
                q = query(ctx, k, "descendants_of_node", {"u": 0}, ids)
                S = q.S
                want = {0: 1}
                for x in range(1, k):
                    want[x] = reach(S, S.only, 0, x)
                nm = "descendants_of_node on " + tag
                lf = node_leaf(S)
                listing(ctx, q, R31, nm, lambda q_, y, g: [(g, lf(y))], want, "node")
                unchanged(ctx, q, R31, nm)

            def allp():
                q = query(ctx, k, "all_paths_on_underlying_undirected_graph", {"u": 0, "v": k - 1}, ids)
                S = q.S
                want = {p: AND(*[S.adj(a, b) for a, b in steps(p)]) for p in simple_paths(range(k), 0, k - 1)}
                lf = node_leaf(S)
                nm = "all_paths_on_underlying_undirected_graph on " + tag
                listing(ctx, q, R31, nm, lambda q_, y, g: sequence_items(q_, y, g, lf), want, "path")
                unchanged(ctx, q, R31, nm)

            def dirp():
                q = query(ctx, k, "directed_paths", {"u": 0, "v": k - 1}, ids)
                S = q.S
                want = {tuple(steps(p)): AND(*[S.live(a, b) for a, b in steps(p)]) for p in simple_paths(range(k), 0, k - 1)}
                lf = node_leaf(S)

                def pair(y):
                    ps = parts(S.i, q.s.state, y)
                    if ps is None or len(ps) != 2:
                        raise Lost("value %s" % show(y)[:120])
                    return tuple(lf(x) for _, x in ps)

                nm = "directed_paths on " + tag
                listing(ctx, q, R31, nm, lambda q_, y, g: sequence_items(q_, y, g, pair), want, "path")
                unchanged(ctx, q, R31, nm)

            for nm, f, a in (("directed_path_exists", exists, (False,)), ("directed_path_exists", exists, (True,)), ("descendants_of_node", desc, ()), ("all_paths_on_underlying_undirected_graph", allp, ()), ("directed_paths", dirp, ())):
                if settled(ctx, nm):
                    continue  # already violated on a smaller graph
                ctx.guard(R31, "%s on %s" % (nm, tag), f, *a)
    ctx.counts["nodes"] = max(ks)


# ---------------------------------------------------------------------------------------------- C17
R17 = "C17.separation"


def typed(S, ctx, cpdag):
    """edge types as in a DAG (all directed) or a partially directed graph (undirected when live in both directions)"""
    d, n = edge_type_value(ctx.prog, DIRECTED), edge_type_value(ctx.prog, UNDIR)
    assume_distinct(d, n)  # models of different classes are never equal
    for (x, y), (p, e) in S.E.items():
        S.tbl[(e, "edge_type")] = vite(S.live(y, x), n, d) if cpdag else d


def conditioning(S, u, v, shape):
    """a list of nodes / ids, each present or not; returns (list, {node: guard})"""
    segs, z = [], {}
    for x in range(S.k):
        if x in (u, v):
            continue
        t = T("sym", "given_" + name_of(S, x))
        S.extra_atoms = set(S.extra_atoms) | {t}
        z[x] = bvar(t)
        what = S.ids[x] if shape == "ids" or (shape == "mixed" and x % 2) else S.nodes[x]
        segs.append(mkseg((), z[x], "elem", what))
    o = Obj("list")
    o.segs = tuple(segs)
    return S.i.new(S.st, o), z


def shape_care(S, cpdag):
    """acyclic; a CPDAG is a chain graph (no cycle with a directed edge) and has no a -> b - c with a and c not adjacent"""
    c = 1
    for x in range(S.k):
        for y in range(S.k):
            if x == y:
                continue
            if not cpdag:
                c = AND(c, NOT(S.und(x, y)))
                continue
            for w in range(S.k):
                if w not in (x, y):
                    c = AND(c, NOT(AND(S.only(x, y), S.und(y, w), NOT(S.adj(x, w)))))
    for x in range(S.k):
        for y in range(S.k):
            if x != y:
                c = AND(c, NOT(AND(S.only(x, y), reach(S, S.live, y, x))))
    return c


def connected(S, z, u, v, cpdag):
    """some path is open given z"""
    arrow = S.only
    into = [AND(OR(*[0] + [AND(z[t], reach(S, arrow, x, t)) for t in z if t != x]), 1) if x in (u, v) else OR(z[x], *[AND(z[t], reach(S, arrow, x, t)) for t in z if t != x]) for x in range(S.k)]
    r = 0
    for p in simple_paths(range(S.k), u, v):
        g = AND(*[S.adj(a, b) for a, b in steps(p)])
        for a, m, b in zip(p, p[1:], p[2:]):
            coll = AND(arrow(a, m), arrow(b, m))
            if cpdag:
                non = OR(arrow(m, a), arrow(m, b), AND(NOT(S.adj(a, b)), NOT(coll)))
                g = AND(g, OR(AND(coll, into[m]), AND(non, NOT(coll), NOT(z[m]))))
            else:
                g = AND(g, OR(AND(coll, into[m]), AND(NOT(coll), NOT(z[m]))))
        r = OR(r, g)
    return r


SIZES = [  # nodes, possible adjacencies (None: all), soft deleted edges and missing rows included
    (2, None, True),
    (3, None, True),
    (4, None, True),
    (5, ((0, 1), (1, 2), (2, 3), (3, 4)), False),
    (6, ((0, 1), (1, 2), (2, 3), (1, 4), (4, 5), (2, 5)), False),
]
MORE = [(5, None, False)]


def C17(ctx):
    for name, cpdag in (("are_nodes_d_separated_dag", False), ("are_nodes_d_separated_cpdag", True)):
        fi = graph_method(ctx.prog, name)

        def setting(k, pairs, full):
            S = Small(ctx.prog, k, sparse=full, deleted=full, pairs=pairs)
            typed(S, ctx, cpdag)
            for x in S.ids:
                S.care = AND(S.care, truth(x), NOT(eq(x, NONE)))
            S.care = AND(S.care, shape_care(S, cpdag))
            return S

        def run(k, pairs, full, shape, u, v, nm):
            S = setting(k, pairs, full)
            ls, z = conditioning(S, u, v, shape)
            before = {r: S.i.freeze(r, S.st) for r in S.fw_in + S.bw_in}
            end = S.ids if shape == "ids" else S.nodes
            q = Query(ctx, S, fi, {"u": end[u], "v": end[v], "conditioning_set": ls})
            q.before = before
            fact(ctx, q, R17, nm, NOT(connected(S, z, u, v, cpdag)))
            unchanged(ctx, q, R17, nm)

        for k, pairs, full in SIZES + (MORE if ctx.tier == "thorough" else []):
            last = {5: 4, 6: 3}.get(k, k - 1)
            for shape in ("nodes", "ids", "mixed"):
                if settled(ctx, name) or k > 4 and shape != "nodes" or k < 4 and shape == "mixed":
                    continue
                nm = "%s on %s%d nodes, %s" % (name, "selected graphs with " if pairs else "", k, shape)
                ctx.guard(R17, nm, run, k, pairs, full, shape, 0, last, nm)
                if k == 3 and shape == "nodes":
                    ctx.guard(R17, nm + ", swapped", run, k, pairs, full, shape, 2, 0, nm + ", swapped")

        # u or v in the conditioning set is rejected
        for shape in ("nodes", "ids"):
            for other in ("nodes", "ids"):
                for which in (0, 1):

                    def rej(nm):
                        S = setting(3, None, True)
                        end = S.ids if shape == "ids" else S.nodes
                        what = S.ids if other == "ids" else S.nodes
                        q = Query(ctx, S, fi, {"u": end[0], "v": end[1], "conditioning_set": S.ls([what[2], what[which]])})
                        q.verdict(R17, nm, q.raised(S.care), S.care, S.care, "is answered instead of rejected %s")

                    nm = "%s: %s in the conditioning set (%s, given %s)" % (name, "uv"[which], shape, other)
                    ctx.guard(R17, nm, rej, nm)
    ctx.counts["nodes"] = max(k for k, _, _ in SIZES)
