"""C14 composition of the predefined algorithms."""
from .rules_serialization import *

ALGM = "causy.causal_discovery.constraint.algorithms.pc"
FACTORY = "causy.graph_model.graph_model_factory"
IT = "causy.causal_discovery.constraint.independence_tests.common."
PCO = "causy.causal_discovery.constraint.orientation_rules.pc."
CORR = "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"
TEST0 = IT + "CorrelationCoefficientTest"
TEST1 = IT + "PartialCorrelationTest"
TESTN = {IT + "ExtendedPartialCorrelationTestMatrix", IT + "ExtendedPartialCorrelationTestLinearRegression"}
COLLIDER = PCO + "ColliderTest"
RULES4 = [PCO + n for n in ("NonColliderTest", "FurtherOrientTripleTest", "OrientQuadrupleTest", "FurtherOrientQuadrupleTest")]
EFFECT = "causy.causal_effect_estimation.multivariate_regression.ComputeDirectEffectsInDAGsMultivariateRegression"
LOOPC = "causy.common_pipeline_steps.logic.Loop"
TOGETHER = "causy.common_pipeline_steps.logic.ApplyActionsTogether"
EXITC = "causy.common_pipeline_steps.exit_conditions.ExitOnNoActions"
ALLG, EDGEG, NEIGHG, SAMPLEG = ("causy.generators." + n for n in ("AllCombinationsGenerator", "PairsWithEdgesInBetweenGenerator", "PairsWithNeighboursGenerator", "RandomSampleGenerator"))
INF = 10**6
SHORT = {CORR: "correlations", TEST0: "unconditional test", TEST1: "test given one node", COLLIDER: "collider rule", EFFECT: "direct effects"}


class Record:
    """a frozen model object with the defaults of its class"""

    def __init__(self, i, t):
        self.i, self.t, self.cls = i, t, t.args[0]
        self.have = dict(t.args[1])

    def get(self, f):
        if f in self.have:
            return self.have[f]
        fa = self.i.p.find_attr(self.i.p.classes[self.cls], f) if self.cls in self.i.p.classes else None
        if fa is None or fa[1] is None:
            return NONE
        st = State()
        return self.i.freeze(self.i.class_attr_value(fa, st), st)

    def fields(self):
        ci = self.i.p.classes.get(self.cls)
        return {f: self.get(f) for f in (self.i.field_names(ci) if ci else self.have)}


class Odd(Exception):
    pass


def records(i, t):
    if t.op != "list":
        raise Odd("not a list: %s" % show(t)[:80])
    xs, why = concrete(t, 1)
    if xs is None:
        raise Odd(why)
    for x in xs:
        if x is None or x.op != "rec":
            raise Odd("not an object: %s" % (show(x)[:80] if x is not None else "?"))
    return [Record(i, x) for x in xs]


def number(t):
    if is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool):
        return cval(t)
    return None


def node_sets(g):
    """(generator class, least size, greatest size, sampled) of a generator record"""
    if g.cls == SAMPLEG:
        x = g.get("generator")
        if x.op != "rec":
            raise Odd("sampled generator %s" % show(x)[:60])
        c, lo, hi, _ = node_sets(Record(g.i, x))
        return c, lo, hi, True
    if g.cls == EDGEG:
        return g.cls, 2, 2, False
    cs = g.get("comparison_settings")
    if cs.op != "rec":
        raise Odd("comparison settings %s" % show(cs)[:60])
    cs = Record(g.i, cs)
    lo, hi = number(cs.get("min")), number(cs.get("max"))
    if lo is None or hi is None:
        raise Odd("comparison settings are not constant")
    return g.cls, lo, hi if hi else INF, False


def algorithm_record(ctx, name):
    p = ctx.prog
    i = var_interp(p)
    i.stop = lambda f: f.qual == FACTORY
    st = State()
    if name not in p.modules[ALGM].defs:
        raise AnalysisError("no algorithm %s" % name)
    c = i.freeze(i.global_name(p.modules[ALGM], name, st), st)
    return i, c


def C14(ctx):
    p = ctx.prog
    if ALGM not in p.modules:
        raise AnalysisError("module %s not found" % ALGM)
    for c in [CORR, TEST0, TEST1, COLLIDER, EFFECT, LOOPC, EXITC, *TESTN, *RULES4]:
        p.cls(c)
    for name in ("PC", "PCClassic", "PCStable", "ParallelPC"):
        ctx.guard("C14.algorithm", name, c14_algorithm, ctx, name)
    ctx.guard("C14.registry", "AVAILABLE_ALGORITHMS", c14_registry, ctx)


def flatten(steps):
    out = []
    for s in steps:
        if s.cls == TOGETHER:
            out += flatten(records(s.i, s.get("pipeline_steps")))
        else:
            out.append(s)
    return out


def refs_in(t, acc):
    if t.op == "rec":
        if t.args[0] == REFC:
            acc.append(dict(t.args[1]).get("name"))
            return
        for _, x in t.args[1]:
            refs_in(x, acc)
    elif t.op == "list":
        for x in t.args:
            refs_in(x.args[3] if x.op == "seg" else x, acc)
    elif t.op == "dict":
        for c in t.args[1]:
            refs_in(c[2], acc)


def c14_algorithm(ctx, name):
    p = ctx.prog
    loc = "%s (%s)" % (p.modules[ALGM].relpath, name)
    R = "C14." + name
    i, c = algorithm_record(ctx, name)
    ctx.analysed.add(ALGM + "." + name)
    ctx.analysed.update(q for q in i.inlined if not q.startswith("vspec."))
    if not (c.op == "call" and c.args[0] == FACTORY):
        return ctx.unk(R, name, "is not built by graph_model_factory: %s" % show(c)[:100], loc)
    args = c.args[1]
    alg = settled_value(args[0], 1) if args else None
    if alg is None or alg.op != "rec" or alg.args[0] != "causy.models.Algorithm":
        return ctx.unk(R, name, "the algorithm is not constant: %s" % show(c)[:100], loc)
    A = Record(i, alg)
    try:
        steps = records(i, A.get("pipeline_steps"))
        flat_ = flatten(steps)
        c14_steps(ctx, R, name, i, steps, flat_, loc)
        c14_variables(ctx, R, name, i, A, flat_, loc)
        et = records(i, A.get("edge_types"))
        ctx.require(sorted(e.cls for e in et) == ["causy.edge_types.DirectedEdge", "causy.edge_types.UndirectedEdge"], R, name + ": directed and undirected edges", "edge types %s" % [e.cls for e in et], loc)
        for h in ("pre_graph_update_hooks", "post_graph_update_hooks"):
            v = A.get(h)
            ctx.require(v is NONE or v.op == "list" and not v.args, R, "%s: no %s" % (name, h), show(v)[:80], loc)
    except Odd as e:
        ctx.unk(R, name, str(e), loc)


def c14_steps(ctx, R, name, i, steps, flat_, loc):
    kinds = [s.cls for s in flat_]
    known = {CORR, TEST0, TEST1, COLLIDER, EFFECT, LOOPC, *TESTN}
    odd = [k for k in kinds if k not in known]
    if odd and not all(k in RULES4 for k in odd):
        ctx.unk(R, name + ": composition", "unknown steps %s" % odd, loc)
        return
    pos = lambda k: [n for n, x in enumerate(kinds) if x == k]
    tests = [n for n, x in enumerate(kinds) if x in (TEST0, TEST1) or x in TESTN]
    sets = {}
    for n, s in enumerate(flat_):
        if s.cls == LOOPC:
            continue
        g = s.get("generator")
        if g.op != "rec":
            raise Odd("generator of %s: %s" % (s.cls, show(g)[:60]))
        sets[n] = node_sets(Record(i, g))
    # correlations of all pairs first
    ok = kinds[:1] == [CORR] and len(pos(CORR)) == 1
    ctx.require(ok, R, name + ": correlations are computed once, before every other step", "steps %s" % [k.split(".")[-1] for k in kinds], loc)
    for k in pos(CORR) + pos(TEST0) + pos(COLLIDER):
        ctx.require(sets[k] == (ALLG, 2, 2, False), R, "%s: %s over all pairs of nodes" % (name, SHORT[kinds[k]]), "generates %s" % (sets[k],), loc)
    ctx.require(len(pos(TEST0)) == 1 and tests and tests[0] == pos(TEST0)[0], R, name + ": independence is tested without conditioning first", "tests %s" % [kinds[n].split(".")[-1] for n in tests], loc)
    # conditioning sizes
    covered = set()
    cap = 12
    for n in tests:
        c, lo, hi, sampled = sets[n]
        nm = "%s: step %d" % (name, n)
        if kinds[n] == TEST1:
            ctx.require((lo, hi) == (3, 3) and c == ALLG, R, nm + " conditions on exactly one node", "generates %s" % (sets[n],), loc)
        if kinds[n] in TESTN:
            ctx.require(lo >= 3 and c in (NEIGHG, ALLG), R, nm + " gets pairs with conditioning nodes", "generates %s" % (sets[n],), loc)
        if not sampled and kinds[n] != TEST0:
            covered |= set(range(lo - 2, min(hi - 2, cap) + 1))
    missing = [k for k in range(1, cap + 1) if k not in covered]
    ctx.require(not missing, R, name + ": conditioning sets of every size are tested completely", "sizes %s are not tested%s" % (missing, " completely" if any(x[3] for x in sets.values()) else ""), loc)
    los = [sets[n][1] for n in tests]
    ctx.require(los == sorted(los), R, name + ": smaller conditioning sets are tested first", "sizes %s" % los, loc)
    ctx.require(not any(sets[n][3] for n in sets if kinds[n] not in TESTN), R, name + ": only conditional tests are sampled", "", loc)
    # orientation
    col, loop, eff = pos(COLLIDER), pos(LOOPC), pos(EFFECT)
    ctx.require(len(col) == 1 and bool(tests) and col[0] > max(tests), R, name + ": colliders are oriented once, after all tests", "collider rule at %s, tests at %s" % (col, tests), loc)
    ctx.require(len(loop) == 1 and bool(col) and loop[0] == col[0] + 1, R, name + ": the orientation rules follow the collider rule", "loop at %s, collider rule at %s" % (loop, col), loc)
    ctx.require(not odd, R, name + ": the orientation rules run in the loop", "rules outside %s" % odd, loc)
    ctx.require(eff == [len(kinds) - 1], R, name + ": direct effects are computed last", "at %s of %d" % (eff, len(kinds)), loc)
    for k in eff:
        ctx.require(sets[k] == (EDGEG, 2, 2, False), R, name + ": direct effects of every edge", "generates %s" % (sets[k],), loc)
    for k in col:
        ctx.require(truth(flat_[k].get("needs_unapplied_actions")) == 1, R, name + ": the collider rule sees the orientations proposed before", show(flat_[k].get("needs_unapplied_actions"))[:60], loc)
    for k in loop:
        L = flat_[k]
        inner = records(i, L.get("pipeline_steps"))
        ctx.require(sorted(x.cls for x in inner) == sorted(RULES4), R, name + ": the loop has each of the four orientation rules", "has %s" % [x.cls.split(".")[-1] for x in inner], loc)
        for x in inner:
            g = x.get("generator")
            if g.op != "rec":
                raise Odd("generator of %s" % x.cls)
            if x.cls in RULES4:
                ctx.require(node_sets(Record(i, g)) == (ALLG, 2, 2, False), R, "%s: %s over all pairs of nodes" % (name, x.cls.split(".")[-1]), "generates %s" % (node_sets(Record(i, g)),), loc)
        e = L.get("exit_condition")
        ctx.require(e.op == "rec" and e.args[0] == EXITC, R, name + ": the loop ends when an iteration changes nothing", show(e)[:60], loc)


def c14_variables(ctx, R, name, i, A, flat_, loc):
    v = A.get("variables")
    vs = records(i, v) if v is not NONE else []
    names = [x.get("name") for x in vs]
    ctx.require(len(set(names)) == len(names), R, name + ": every variable is declared once", "variables %s" % [show(n) for n in names], loc)
    th = [x for x in vs if x.get("name") is const("threshold")]
    ok = len(th) == 1 and th[0].cls == VR + "FloatVariable" and th[0].get("value") is const(0.05)
    ctx.require(ok, R, name + ": the threshold is a float variable with default 0.05", "declared %s" % [show(x.t)[:80] for x in th], loc)
    for n, s in enumerate(flat_):
        if s.cls in (TEST0, TEST1) or s.cls in TESTN:
            t = s.get("threshold")
            ctx.require(t.op == "rec" and t.args[0] == REFC and dict(t.args[1]).get("name") is const("threshold"), R, "%s: test %d uses the threshold of the user" % (name, n), show(t)[:80], loc)
    used = []
    for f, x in A.fields().items():
        if f != "variables":
            refs_in(x, used)
    lost = [show(x) for x in used if x not in names]
    ctx.require(not lost, R, name + ": every referenced variable is declared", "not declared: %s" % lost, loc)
    idle = [show(x) for x in names if x not in used]
    ctx.require(not idle, R, name + ": every declared variable is used", "not used: %s" % idle, loc)


def c14_registry(ctx):
    p = ctx.prog
    mod = "causy.causal_discovery"
    loc = p.modules[mod].relpath
    i = var_interp(p)
    i.stop = lambda f: f.qual == FACTORY
    st = State()
    d = i.freeze(i.global_name(p.modules[mod], "AVAILABLE_ALGORITHMS", st), st)
    if d.op != "dict" or d.args[0] is not NONE or d.args[2]:
        return ctx.unk("C14.registry", "AVAILABLE_ALGORITHMS", "not an explicit table: %s" % show(d)[:80], loc)
    cells = {k: x for k, g, x in d.args[1]}
    for n in ("PC", "ParallelPC"):
        x = cells.get(const(n))
        want = i.freeze(i.global_name(p.modules[ALGM], n, st), st)
        ctx.require(x is not None and x is want, "C14.registry", "the algorithm named %s is %s" % (n, n), "is %s" % (show(x)[:120] if x is not None else "missing"), loc)
        if x is not None and x.op == "call" and x.args[1] and x.args[1][0].op == "rec":
            nm = dict(x.args[1][0].args[1]).get("name")
            ctx.require(nm is const(n), "C14.registry", "the algorithm %s carries its name" % n, "is named %s" % show(nm)[:60], loc)
