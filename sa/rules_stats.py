"""C12 independence tests and correlations, C18 direct effects: decisions as functions of the data, compared by random interpretation."""
import math
import random

from .rules_steps import *
from . import numeric as N

IT = "causy.causal_discovery.constraint.independence_tests.common."
CALC = "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"
EFF = "causy.causal_effect_estimation.multivariate_regression.ComputeDirectEffectsInDAGsMultivariateRegression"
SAMPLES = 40


def stats_interp(S):
    """tensors that are filled in place become named objects, their stores are replayed by the evaluation"""
    made = []

    def mk(name):
        def h(it, args, kw, st, node):
            t = T("sym", "tensor%d" % len(made))
            made.append((t, T("call", name, tuple(it.freeze(a, st) for a in args))))
            return t

        return h

    for n in ("torch.zeros", "torch.ones", "torch.eye"):
        S.i.ext_handlers[n] = mk(n)
    return made


class Point:
    """one valuation of the graph and the data"""

    def __init__(self, S, rnd, skel, n, thr, made, s, center=False, directed=None):
        self.S = S
        k = S.k
        self.n = n
        base = [[rnd.gauss(0, 1) for _ in range(n)] for _ in range(k)]
        self.vals = []
        for x in range(k):
            w = [rnd.uniform(-0.7, 0.7) for _ in range(x)]
            v = [base[x][j] + sum(w[y] * self.vals[y][j] for y in range(x)) for j in range(n)]
            if center:
                m = sum(v) / n
                v = [a - m for a in v]
            else:
                v = [a + 0.5 * x for a in v]
            self.vals.append(v)
        self.corr = {}
        c = N.corrcoef(self.vals) if k > 1 else []
        for x in range(k):
            for y in range(k):
                if x != y:
                    self.corr[x, y] = c[x][y]
        self.meta = {(x, y): {"correlation": self.corr[x, y], "kept": 7.0} for x in range(k) for y in range(k) if x != y}
        self.thr = thr
        self.leafs = {}
        for x in range(k):
            self.leafs[T("attr", S.nodes[x], "values")] = self.vals[x]
            self.leafs[T("attr", S.nodes[x], "name")] = "node%d" % x
            self.leafs[S.nodes[x]] = N.Obj_(values=self.vals[x], name="node%d" % x)
        for (x, y), (p, e) in S.E.items():
            self.leafs[T("sym", "%s->%s" % (S.nodes[x].args[0], S.nodes[y].args[0]))] = ((x, y) in skel)
            self.leafs[T("truth", T("attr", e, "deleted"))] = False
            self.leafs[T("attr", e, "deleted")] = False
            self.leafs[T("attr", e, "metadata")] = self.meta[x, y]
        self.nones = set(S.nodes)
        self.ev = N.Ev(self.leaf)
        for t, base_ in made:
            st = [(e.loops, e.guard, e.data[1], e.data[2]) for e in s.events if e.kind == "setitem" and e.data[0] is t]
            self.leafs[t] = None
            self.leafs[t] = N.stored_tensor(self.ev, self.ev(base_), st)
            self.ev.memo.clear()

    def set_thr(self, thr):
        self.leafs[T("attr", STEPV, "threshold")] = thr
        self.ev.memo.clear()

    def leaf(self, t):
        v = self.leafs.get(t)
        if v is not None:
            return v
        if t.op == "eq" and NONE in t.args:
            return False
        if t.op == "has":
            o = t.args[0]
            if o.op == "attr" and o.args[1] == "metadata":
                return True
        return None


def outcome(ctx, S, s, pr, pt):
    """proposals that exist at a point: [(action, u, v, record)]"""
    return [(a, x, y, r) for g, a, x, y, r in pr if pt.ev.b(g)]


def sep_of(S, s, r, pt):
    """separating set recorded by a removal, as node indexes"""
    nd = {n: k for k, n in enumerate(S.nodes)}
    i, st = S.i, s.state
    data = i.get_attr(st, r, "data", None)
    out = None
    for g, d in cases_of(data):
        if not pt.ev.b(g):
            continue
        v = i.get_item(st, d, const("separatedBy"), None)
        v = i.freeze(v, st)
        for g2, x in cases_of(v):
            if not pt.ev.b(g2):
                continue
            if x.op not in ("list", "tup", "set"):
                raise Lost("separating set %s" % show(x)[:100])
            out = []
            for sg in x.args:
                if sg.op == "seg":
                    b, gg, kk, val = sg.args
                    if b or kk != "elem":
                        raise Lost("separating set %s" % show(x)[:100])
                    if not pt.ev.b(gg.n):
                        continue
                    sg = val
                if sg not in nd:
                    raise Lost("separating set %s" % show(x)[:100])
                out.append(nd[sg])
    return out


def fisher_p(r, n, k):
    z = abs(0.5 * math.log((1 + r) / (1 - r))) * math.sqrt(n - k - 3)
    return 2 * (1 - N.ND.cdf(z))


def t_p(r, n, k):
    df = n - 2 - k
    t = abs(r) * math.sqrt(df / (1 - r * r))
    return 2 * (1 - N.t_cdf(t, df))


def parcorr(vals, a, b, zs):
    c = N.inverse(N.cov([vals[a], vals[b]] + [vals[z] for z in zs]))
    return -c[0][1] / math.sqrt(c[0][0] * c[1][1])


def sym_skel(pairs):
    return {(x, y) for x, y in pairs} | {(y, x) for x, y in pairs}


def C12(ctx):
    R = "C12.decision"
    for cls, name, sizes in (("CorrelationCoefficientTest", "corr", (2,)), ("PartialCorrelationTest", "part", (3,)), ("ExtendedPartialCorrelationTestMatrix", "ext", (3, 4, 5)), ("ExtendedPartialCorrelationTestLinearRegression", "reg", (3, 4, 5))):
        for k in sizes:
            ctx.guard(R, "%s on %d nodes" % (cls, k), c12_one, ctx, IT + cls, name, k, k)
        for k in sizes[:2]:
            ctx.guard(R, "%s on %d of %d nodes" % (cls, k, k + 1), c12_one, ctx, IT + cls, name, k, k + 1)
    ctx.guard("C12.correlation", "CalculatePearsonCorrelations", c12_pearson, ctx)


def prepare(ctx, rule, nm, cls, k, nodes=None, care=None):
    p = ctx.prog
    fi = p.method(cls, "process")
    S = Small(p, k)
    if care:
        S.care = care(S)
    made = stats_interp(S)
    s = run_step(ctx, S, fi, [S.ids[x] for x in (nodes or range(k))])
    if s.notes:
        ctx.unk(rule, nm, s.notes[0], fi.loc)
        return None
    try:
        return fi, S, s, made, proposals(ctx, S, s)
    except Lost as e:
        ctx.unk(rule, nm, str(e), fi.loc)


def c12_skeletons(name, k):
    allp = [(x, y) for x in range(k) for y in range(x + 1, k)]
    if name in ("corr", "part"):
        for m in range(2 ** len(allp)):
            yield sym_skel([q for j, q in enumerate(allp) if m >> j & 1])
        return
    yield sym_skel(allp)
    yield sym_skel([(0, x) for x in range(1, k)])
    yield sym_skel([q for q in allp if q != (0, 1)])
    if name == "ext":
        yield sym_skel([q for q in allp if q != (0, k - 1)])
        yield sym_skel([q for q in allp if q != (0, 2)])


def c12_expect(name, k, skel, pt):
    """{(u,v): (p value function, separating set)} of the removals that may be proposed"""
    v = pt.vals
    if name == "corr":
        return {(0, 1): (fisher_p(pt.corr[0, 1], pt.n, 0), set())} if (0, 1) in skel else {}
    if name == "part":
        if any((x, y) not in skel for x in range(3) for y in range(x)):
            return {}
        return {tuple(sorted({0, 1, 2} - {z})): (fisher_p(parcorr(v, *sorted({0, 1, 2} - {z}), [z]), pt.n, 1), {z}) for z in range(3)}
    zs = list(range(2, k))
    if (0, 1) not in skel or any((0, z) not in skel for z in zs):
        return {}
    r = parcorr(v, 0, 1, zs)
    return {(0, 1): (fisher_p(r, pt.n, k - 2) if name == "ext" else t_p(r, pt.n, k - 2), set(zs))}


def c12_one(ctx, cls, name, k, total):
    nm0 = cls.split(".")[-1] + (" on %d nodes" % k if k == total else " on %d of %d nodes" % (k, total))
    q = prepare(ctx, "C12.decision", nm0, cls, total, nodes=range(k), care=skeleton_care)
    if q is None:
        return
    fi, S, s, made, pr = q
    adj = AND(S.care, S.und(0, 1))
    no_raise(ctx, "C12.decision", nm0, s, adj, fi.loc)
    no_raise(ctx, "C12.decision", nm0 + " without the edge", s, AND(S.care, NOT(adj)), fi.loc)
    fails = any(o[1].startswith(nm0 + " without the edge") and o[2] != HOLDS for o in ctx.obs)
    rnd = random.Random(12345)
    for skel in c12_skeletons(name, k):
        if fails and (0, 1) not in skel:
            continue  # reported above
        if total > k:
            skel = skel | sym_skel([(x, k) for x in range(k)])
        nm = "%s, adjacent: %s" % (nm0, " ".join("n%d-n%d" % e for e in sorted(skel) if e[0] < e[1]) or "none")
        pts = 0
        bad = unk = None
        try:
            for _ in range(SAMPLES):
                n = rnd.randint(k + 5, k + 9)
                pt = Point(S, rnd, skel, n, 0, made, s, center=True)
                exp = c12_expect(name, k, skel, pt)
                ps = [x[0] for x in exp.values()] or [0.3]
                f = rnd.choice((0.5, 0.9, 0.97, 1.03, 1.1, 2.0))
                thr = rnd.choice(ps) * f
                if not 0 < thr < 1 or any(abs(x - thr) < 1e-6 for x in ps):
                    continue
                pt.set_thr(thr)
                out = outcome(ctx, S, s, pr, pt)
                pts += 1
                got = {}
                for a, x, y, r in out:
                    if a == "DO_NOTHING":
                        continue
                    if a != "REMOVE_EDGE_UNDIRECTED":
                        bad = "proposes %s on %s" % (a, name_of(S, x, y))
                        break
                    got[tuple(sorted((x, y)))] = r
                want = {e for e, (p_, z) in exp.items() if p_ > thr}
                if bad is None and set(got) != want:
                    d = sorted(set(got) ^ want)[0]
                    pv = exp.get(d, (None,))[0]
                    bad = "the edge %s is %s with p value %s, threshold %.6f, %d samples" % (name_of(S, *d), "removed" if d in got else "kept", "%.6f" % pv if pv is not None else "undefined", thr, n)
                if bad is None:
                    for e, r in got.items():
                        z = sep_of(S, s, r, pt)
                        if z is None or set(z) != exp[e][1]:
                            bad = "the removal of %s records the separating set {%s}" % (name_of(S, *e), name_of(S, *(z or [])))
                if bad:
                    break
        except (N.Unknown, Lost) as e:
            unk = str(e)
        if bad:
            ctx.bad("C12.decision", nm, bad, fi.loc)
        elif unk or not pts:
            ctx.unk("C12.decision", nm, unk or "no point", fi.loc)
        else:
            ctx.hold("C12.decision", nm, "%d points" % pts, fi.loc)
            ctx.count("points", pts)


def data_of(S, s, r, pt):
    i, st = S.i, s.state
    data = i.get_attr(st, r, "data", None)
    for g, d in cases_of(data):
        if pt.ev.b(g):
            return d
    raise Lost("data")


def item(S, s, d, key, pt):
    v = S.i.freeze(S.i.get_item(s.state, d, const(key), None), s.state)
    return pt.ev(v)


def kept(S, s, d, pt):
    """the proposed values still contain the other values of the edge"""
    return pt.ev.b(S.i.contains_(d, const("kept"), s.state)) and item(S, s, d, "kept", pt) == 7.0


def c12_pearson(ctx):
    nm = "CalculatePearsonCorrelations"
    q = prepare(ctx, "C12.correlation", nm, CALC, 2, care=skeleton_care)
    if q is None:
        return
    fi, S, s, made, pr = q
    no_raise(ctx, "C12.correlation", nm, s, S.care, fi.loc)
    rnd = random.Random(7)
    for skel, what in ((sym_skel([(0, 1)]), "adjacent nodes"), (set(), "nodes without an edge")):
        bad = unk = None
        n_ = 0
        try:
            for _ in range(SAMPLES):
                pt = Point(S, rnd, skel, rnd.randint(4, 12), 0, made, s)
                out = [o for o in outcome(ctx, S, s, pr, pt) if o[0] != "DO_NOTHING"]
                n_ += 1
                if not skel:
                    if out:
                        bad = "proposes %s" % out[0][0]
                    continue
                if len(out) != 1 or out[0][0] != "UPDATE_EDGE" or {out[0][1], out[0][2]} != {0, 1}:
                    bad = "proposes %s" % (", ".join(o[0] for o in out) or "nothing")
                    break
                d = data_of(S, s, out[0][3], pt)
                c = item(S, s, d, "correlation", pt)
                if abs(c - pt.corr[0, 1]) > 1e-9:
                    bad = "correlation %.6f instead of %.6f" % (c, pt.corr[0, 1])
                    break
                if not kept(S, s, d, pt):
                    bad = "the other values of the edge are lost"
                    break
        except (N.Unknown, Lost) as e:
            unk = str(e)
        ctx.add("C12.correlation", "%s: %s" % (nm, what), VIOLATED if bad else UNDECIDED if unk or not n_ else HOLDS, bad or unk or "", fi.loc)


# ---------------------------------------------------------------------------------------------- C18
def C18(ctx):
    for k in (2, 3, 4):
        ctx.guard("C18.effect", "%d nodes" % k, c18_one, ctx, k)


def c18_one(ctx, k):
    nm0 = "effect of n0 on n1 in a graph of %d nodes" % k
    q = prepare(ctx, "C18.effect", nm0, EFF, k, nodes=(0, 1), care=lambda S: AND(S.care, S.live(0, 1), *[NOT(AND(S.E[e][0], truth(T("attr", S.E[e][1], "deleted")))) for e in S.E]))
    if q is None:
        return
    fi, S, s, made, pr = q
    no_raise(ctx, "C18.effect", nm0, s, S.care, fi.loc)
    rnd = random.Random(5)
    others = list(range(2, k))
    from itertools import product

    kinds = ("none", "to1", "from1", "both")
    configs = [(back, c) for back in (False, True) for c in product(kinds, repeat=len(others))]
    for back, conf in configs:
        skel = {(0, 1)} | ({(1, 0)} if back else set())
        for z, c in zip(others, conf):
            if c in ("to1", "both"):
                skel.add((z, 1))
            if c in ("from1", "both"):
                skel.add((1, z))
            if rnd.random() < 0.5:
                skel.add((0, z))
        nm = "%s, edges %s" % (nm0, " ".join("n%d->n%d" % e for e in sorted(skel)))
        bad = unk = None
        n_ = 0
        try:
            for _ in range(6):
                pt = Point(S, rnd, skel, rnd.randint(9, 14), 0, made, s, center=True)
                out = [o for o in outcome(ctx, S, s, pr, pt) if o[0] != "DO_NOTHING"]
                n_ += 1
                if back:
                    if out:
                        bad = "an effect is proposed for an undirected edge"
                        break
                    continue
                if len(out) != 1 or out[0][0] != "UPDATE_EDGE_DIRECTED" or (out[0][1], out[0][2]) != (0, 1):
                    bad = "proposes %s" % (", ".join(o[0] for o in out) or "nothing")
                    break
                parents = [0] + [z for z in others if (z, 1) in skel and (1, z) not in skel]
                amb = [z for z in others if (z, 1) in skel and (1, z) in skel]
                d = data_of(S, s, out[0][3], pt)
                e = item(S, s, d, "direct_effect", pt)
                w = [N.lstsq(N.transpose([pt.vals[z] for z in ps]), pt.vals[1]).solution[0] for ps in (parents, parents + amb)]
                if not amb and abs(e - w[0]) > 1e-7:
                    bad = "direct effect %.6f, regression on the cause and the other parents gives %.6f" % (e, w[0])
                    break
                if amb and abs(e - w[0]) > 1e-7 and abs(e - w[1]) > 1e-7:
                    bad = "direct effect %.6f, regression gives %.6f" % (e, w[0])
                    break
                if not kept(S, s, d, pt):
                    bad = "the other values of the edge are lost"
                    break
        except (N.Unknown, Lost) as e:
            unk = str(e)
        ctx.add("C18.effect", nm, VIOLATED if bad else UNDECIDED if unk or not n_ else HOLDS, bad or unk or "", fi.loc)
