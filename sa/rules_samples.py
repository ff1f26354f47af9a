"""C29 sample generators: structural equations of the samples, graph of the model, stationary start of time series."""
import itertools
import random

from .rules_results import *
from . import numeric as N

SG = "causy.sample_generator."
NORMAL = ("random.normalvariate", "random.gauss", "torch.randn", "torch.normal")


class Gen:
    """a generator on given edges (source, target, lag or None), with symbolic weights; every draw of noise is a new symbol"""

    def __init__(self, p, cls, edges, own_noise=True):
        self.p = p
        self.edges = edges
        i = self.i = var_interp(p)
        st = self.st = State()
        self.w = [T("sym", "weight%d" % k) for k in range(len(edges))]
        for w in self.w:
            i.types[w] = "builtins.float"
        self.noise = []
        self.start = []
        self.made = []
        self.odd = []
        ref = lambda n, lag: Inst(SG + "NodeReference", node=const(n)) if lag is None else Inst(SG + "TimeAwareNodeReference", node=const(n), point_in_time=const(-lag))
        es = build(i, st, [Inst(SG + "SampleEdge", from_node=ref(a, l), to_node=ref(b, None if l is None else 0), value=w) for (a, b, l), w in zip(edges, self.w)])
        self.given = es
        self.before = i.freeze(es, st)
        i.ext_handlers["noise source"] = self.draw
        for n in ("random.normalvariate", "random.gauss"):
            i.ext_handlers[n] = self.standard
        i.ext_handlers["torch.normal"] = self.started
        for n in ("torch.zeros", "torch.ones", "torch.eye"):
            i.ext_handlers[n] = self.tensor(n)
        self.ci = p.cls(SG + cls)
        kw = {"random": T("ext", "noise source")} if own_noise else {}
        self.raises = []
        self.gen = self.do(lambda: i.instantiate(self.ci.qual, [es], kw, st, self.ci.node))
        self.fi = p.method(self.ci.qual, "generate")

    def do(self, f):
        i, st = self.i, self.st
        fr = Frame(None, self.ci.module, None)
        st.envs[fr.fid] = {}
        i.frames.append(fr)
        sink = []
        i.sinks.append(sink)
        try:
            return f()
        finally:
            i.sinks.pop()
            i.frames.pop()
            self.raises += sink

    def fresh(self):
        t = T("sym", "noise%d" % len(self.noise))
        self.i.types[t] = "builtins.float"
        self.noise.append(t)
        return t

    def draw(self, it, args, kw, st, node):
        return self.fresh()

    def standard(self, it, args, kw, st, node):
        a = [it.freeze(x, st) for x in args] + [it.freeze(kw[k], st) for k in ("mu", "sigma") if k in kw]
        if a and a != [const(0), const(1)] and a != [const(0.0), const(1.0)]:
            self.odd.append((a, node))
        return self.fresh()

    def started(self, it, args, kw, st, node):
        a = [it.freeze(x, st) for x in args] + [it.freeze(kw[k], st) for k in ("mean", "std") if k in kw]
        t = T("sym", "start%d" % len(self.start))
        self.start.append((t, a, node))
        return t

    def tensor(self, name):
        def h(it, args, kw, st, node):
            t = T("sym", "tensor%d" % len(self.made))
            self.made.append((t, T("call", name, tuple(it.freeze(a, st) for a in args))))
            return t

        return h

    def point(self, rnd, scale=1.0):
        """a random valuation"""
        val = {w: rnd.uniform(0.2, 0.9) * scale * rnd.choice((-1, 1)) for w in self.w}
        val.update({n: rnd.gauss(0, 1) for n in self.noise})
        val.update({t: rnd.gauss(0, 1) for t, _, _ in self.start})
        made = dict(self.made)
        busy = set()

        def leaf(t):
            if t in val:
                return val[t]
            if t in made:
                if t in busy:
                    raise N.Unknown("tensor that depends on itself")
                busy.add(t)
                st = [(e.loops, e.guard, e.data[1], e.data[2]) for e in self.s.events if e.kind == "setitem" and e.data[0] is t]
                val[t] = N.stored_tensor(ev, ev(made[t]), st)
                busy.discard(t)
                return val[t]
            if t.op == "isinst":
                return "Tensor" in str(t.args[1])
            return None

        ev = N.Ev(leaf)
        self.val = val
        return ev


def C29(ctx):
    names = "abc"
    for order in itertools.permutations(names):
        pairs = [(order[0], order[1]), (order[0], order[2]), (order[1], order[2])]
        for k in (1, 2, 3):
            for es in itertools.combinations(pairs, k):
                for rev in (False, True) if k > 1 else (False,):
                    ctx.guard("C29.iid", str(es), c29_iid, ctx, [(a, b, None) for a, b in (reversed(es) if rev else es)], 2)
    for es in ("ab bc cd", "db dc ba ca", "da cb ba dc db", "bd ad cd dx", "ab"):
        for size in (1, 3):
            ctx.guard("C29.iid", es, c29_iid, ctx, [(x[0], x[1], None) for x in es.split()], size)
    ctx.guard("C29.iid", "default noise", c29_iid, ctx, [("a", "b", None)], 2, False)
    ser = (
        [("a", "a", 1)],
        [("a", "a", 1), ("b", "b", 1), ("a", "b", 1)],
        [("b", "a", 1), ("a", "b", 1), ("a", "a", 1)],
        [("a", "a", 1), ("a", "a", 2)],
        [("a", "a", 1), ("a", "b", 2)],
        [("b", "a", 2), ("b", "b", 1), ("a", "a", 1)],
        [("c", "b", 1), ("b", "a", 1), ("c", "c", 1)],
    )
    for es in ser:
        for size in (1, 4):
            ctx.guard("C29.series", str(es), c29_series, ctx, es, size)
    ctx.guard("C29.series", "default noise", c29_series, ctx, ser[0], 3, False)


def numbers(n):
    """torch.tensor of numbers is a tensor and does not fail"""
    care = 1
    for a in atoms_of(n):
        if a.op == "isinst" and "torch.Tensor" in show(a.args[1]):
            care = AND(care, bvar(a))
        if a.op == "exc" and a.args[-1].op == "call" and a.args[-1].args[0] == "torch.tensor":
            care = AND(care, NOT(bvar(a)))
    return care


def c29_run(ctx, R, nm, G, size):
    if G.raises:
        ctx.bad(R, nm, "the generator cannot be created: %s" % show(G.raises[0][1])[:80], G.ci.loc)
        return None
    G.s = s = G.i.run(G.fi, args={G.fi.node.args.args[1].arg: const(size)}, self_val=G.gen, st=G.st)
    ctx.note_run(s)
    if undecidable(ctx, R, nm, s, G.fi.loc):
        return None
    if s.raises:
        q, wit = cmp_bool(raised(s), 0, numbers(raised(s)))
        ctx.add(R, nm + ": samples can be generated", VERDICT[q], "%s %s" % (show(s.raises[0][1])[:80], wit), G.fi.loc)
        if q != "eq":
            return None
    s.state.alive = AND(s.state.alive, numbers(s.state.alive))
    r = settled_value(s.frz(), s.state.alive)
    if r is None or r.op != "tup" or len(r.args) != 2 or r.args[0].op != "dict":
        ctx.unk(R, nm, "result %s" % show(s.frz())[:100], G.fi.loc)
        return None
    q, wit = cmp_val(G.i.freeze(G.given, s.state), G.before, s.state.alive)
    ctx.add(R, nm + ": the edges given are left alone", VERDICT[q], wit if q != "eq" else "", G.fi.loc)
    d = {cval(k): x for k, g, x in r.args[0].args[1] if g.n == 1}
    vs = sorted({x for e in G.edges for x in e[:2]})
    ctx.require(sorted(d) == vs and len(r.args[0].args[1]) == len(vs), R, nm + ": there are samples of every variable", "of %s" % sorted(d), G.fi.loc)
    if sorted(d) != vs:
        return None
    for a, node in G.odd:
        ctx.bad(R, nm + ": noise has mean 0 and variance 1", "drawn with %s" % [show(x)[:30] for x in a], G.i.loc(node))
    return r, d, vs


def c29_samples(ctx, R, nm, G, d, vs, size, lag0):
    """every sample is the weighted sum of its causes and one draw of noise that no other sample uses. None: not decided"""
    rnd = random.Random(7)
    for trial in range(6):
        ev = G.point(rnd)
        try:
            x = {v: ev(d[v]) for v in vs}
        except (N.Unknown, TypeError, ValueError, IndexError, KeyError, ZeroDivisionError) as e:
            ctx.unk(R, nm + ": samples", "not evaluated: %s" % e, G.fi.loc)
            return None
        for v in vs:
            if not isinstance(x[v], list) or len(x[v]) != size:
                ctx.bad(R, nm + ": there are as many samples as asked for", "of %s: %s" % (v, show(d[v])[:80]), G.fi.loc)
                return None
        noise = [G.val[n] for n in G.noise]
        used = {}
        for v in vs:
            for t in range(size):
                ins = [(a, l, w) for (a, b, l), w in zip(G.edges, G.w) if b == v]
                if not lag0 and (t == 0 or any(l > t for _, l, _ in ins)):
                    continue
                r = x[v][t] - sum(G.val[w] * x[a][t - (l or 0)] for a, l, w in ins)
                k = next((k for k, n in enumerate(noise) if abs(n - r) < 1e-7), None)
                if k is None:
                    ctx.bad(R, nm + ": a sample is the weighted sum of its causes and noise", "sample %d of %s is %s" % (t, v, show(d[v])[:160]), G.fi.loc)
                    return None
                if k in used:
                    ctx.bad(R, nm + ": every sample has noise of its own", "sample %d of %s has the noise of sample %d of %s" % (t, v, used[k][1], used[k][0]), G.fi.loc)
                    return None
                used[k] = (v, t)
    ctx.hold(R, nm + ": a sample is the weighted sum of its causes and noise of its own", "", G.fi.loc)
    return True


def c29_graph(ctx, R, nm, G, graph, nodes, values, edges):
    i, st = G.i, G.s.state
    env = {"g": graph}
    ids = observe(i, st, "g.nodes", env)
    if ids.op != "dict" or ids.args[0] is not NONE or any(g.n != 1 for _, g, _ in ids.args[1]):
        return ctx.unk(R, nm + ": nodes", show(ids)[:80], G.fi.loc)
    got = {cval(k): x for k, g, x in ids.args[1]}
    ctx.require(sorted(got) == sorted(nodes), R, nm + ": the graph has one node for each", "nodes %s" % sorted(got), G.fi.loc)
    if sorted(got) != sorted(nodes):
        return
    ev = G.point(random.Random(3))
    for n in sorted(nodes):
        f = dict(got[n].args[1]) if got[n].op == "rec" else {}
        try:
            a, b = N.flatl(ev(f["values"])), N.flatl(values(ev, n))
            same = len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))
        except (N.Unknown, TypeError, ValueError, IndexError, KeyError) as e:
            ctx.unk(R, "%s: values of node %s" % (nm, n), str(e), G.fi.loc)
            continue
        ctx.require(same, R, "%s: node %s has the samples" % (nm, n), "has %s" % show(f["values"])[:80], G.fi.loc)
    for a in nodes:
        for b in nodes:
            if a != b:
                c = obs_bool(i, st, "g.directed_edge_exists(g.nodes[%r], g.nodes[%r])" % (a, b), env)
                q, wit = cmp_bool(c, int((a, b) in edges), st.alive)
                ctx.add(R, "%s: %s edge %s -> %s in the graph" % (nm, "there is an" if (a, b) in edges else "no", a, b), VERDICT[q], wit if q != "eq" else "", G.fi.loc)


def c29_iid(ctx, edges, size, own=True):
    R = "C29.iid"
    nm = "edges %s, %d samples%s" % (" ".join(a + ">" + b for a, b, _ in edges), size, "" if own else ", default noise")
    G = Gen(ctx.prog, "IIDSampleGenerator", edges, own)
    got = c29_run(ctx, R, nm, G, size)
    if got is None:
        return
    r, d, vs = got
    c29_samples(ctx, R, nm, G, d, vs, size, True)
    c29_graph(ctx, R, nm, G, r.args[1], vs, lambda ev, n: ev(d[n]), {(a, b) for a, b, _ in edges})


def stationary(vs, edges, w):
    """variances of a stationary process X_t = sum of A_l X_(t-l) + noise, by iteration of the covariance of the stacked state"""
    L = max(l for _, _, l in edges)
    n = len(vs)
    A = [[0.0] * (n * L) for _ in range(n * L)]
    for (a, b, l), x in zip(edges, w):
        A[vs.index(b)][(l - 1) * n + vs.index(a)] = x
    for k in range(n, n * L):
        A[k][k - n] = 1.0
    Q = [[1.0 if r == c and r < n else 0.0 for c in range(n * L)] for r in range(n * L)]
    S = [list(r) for r in Q]
    for _ in range(400):
        S = N.ew2(lambda p, q: p + q, N.matmul(N.matmul(A, S), N.transpose(A)), Q)
    return {v: S[k][k] for k, v in enumerate(vs)}


def c29_series(ctx, edges, size, own=True):
    R = "C29.series"
    nm = "edges %s, %d steps%s" % (" ".join("%s>%s lag %d" % e for e in edges), size, "" if own else ", default noise")
    G = Gen(ctx.prog, "TimeseriesSampleGenerator", edges, own)
    got = c29_run(ctx, R, nm, G, size)
    if got is None:
        return
    r, d, vs = got
    c29_samples(ctx, R, nm, G, d, vs, size, False)
    # the values at the start
    rnd = random.Random(11)
    starts = {t: (a, node) for t, a, node in G.start}
    for v in vs:
        c = "%s: %s starts with its stationary distribution" % (nm, v)
        done = False
        for trial in range(3):
            ev = G.point(rnd, 0.3)
            try:
                x = ev(d[v])[0]
                hit = [t for t in starts if abs(G.val[t] - x) < 1e-12]
                if len(hit) != 1 or len(starts[hit[0]][0]) != 2:
                    ctx.unk(R, c, "start %s" % show(d[v])[:100], G.fi.loc)
                    break
                a, node = starts[hit[0]]
                mean, sd = ev(a[0]), ev(a[1])
            except (N.Unknown, TypeError, ValueError, IndexError, KeyError, ZeroDivisionError) as e:
                ctx.unk(R, c, "not evaluated: %s" % e, G.fi.loc)
                break
            want = stationary(vs, edges, [G.val[w] for w in G.w])[v] ** 0.5
            if abs(mean) > 1e-9 or abs(sd - want) > 1e-5:
                ctx.bad(R, c, "normal with mean %.6g and standard deviation %.6g instead of 0 and %.6g" % (mean, sd, want), G.fi.loc)
                break
        else:
            ctx.hold(R, c, "", G.fi.loc)
    used = {}
    nodes = {"%s-t%d" % (v, t): (v, t) for v in vs for t in range(size)}
    es = {("%s-t%d" % (a, t - l), "%s-t%d" % (b, t)) for a, b, l in edges for t in range(1, size) if t - l >= 0}
    c29_graph(ctx, R, nm, G, r.args[1], list(nodes), lambda ev, n: [ev(d[nodes[n][0]])[nodes[n][1]]], es)
