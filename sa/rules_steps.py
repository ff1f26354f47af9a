"""C15 collider orientation, C16 further orientation rules: exact proposals on graphs with k generic nodes."""
from .smallgraph import *

PCR = "causy.causal_discovery.constraint.orientation_rules.pc."
FCI = "causy.causal_discovery.constraint.orientation_rules.fci."
STRAT = PCR + "ColliderTestConflictResolutionStrategies"
STEPV = T("sym", "step")


class Lost(Exception):
    pass


def flat(i, st, v, g=1):
    """guarded results of a step, in order: [(guard, result value)]; raises Lost when not resolved"""
    out = []
    for gc, x in cases_of(v):
        g2 = AND(g, gc)
        if g2 == 0 or x is NONE:
            continue
        if x.op == "ref":
            ob = i.obj(st, x)
            if ob is not None and ob.kind == "list":
                for sg in ob.segs:
                    b, gg, k, val = sg.args if isinstance(sg, Term) else (sg.binders, sg.g, sg.kind, sg.v)
                    gg = gg.n if hasattr(gg, "n") else gg
                    if b or k != "elem":
                        raise Lost("result list %s" % show(i.freeze(x, st))[:160])
                    out += flat(i, st, val, AND(g2, gg))
                continue
            if ob is not None and ob.kind in ("set", "dict"):
                raise Lost("result %s" % show(i.freeze(x, st))[:160])
            out.append((g2, x))
            continue
        if x.op == "list":
            for sg in x.args:
                b, gg, k, val = sg.args
                if b or k != "elem":
                    raise Lost("result list %s" % show(x)[:160])
                out += flat(i, st, val, AND(g2, gg.n))
            continue
        if imprecise_term(x) is not None:
            raise Lost("result %s" % show(x)[:160])
        out.append((g2, x))
    return out


def leaf(i, st, v, f, g):
    """guarded leaves of an attribute of a result"""
    t = i.get_attr(st, v, f, None)
    for gc, x in cases_of(t):
        g2 = AND(g, gc)
        if g2:
            yield g2, x


def proposals(ctx, S, s):
    """ordered list (guard, action name, u index, v index, result value)"""
    i, st = S.i, s.state
    acts = {enum(ctx.prog, TRA, m): m for m in ("REMOVE_EDGE_UNDIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_DIRECTED", "DO_NOTHING", "REMOVE_EDGE_DIRECTED", "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED")}
    nd = {n: k for k, n in enumerate(S.nodes)}
    out = []
    for g, r in flat(i, st, s.ret):
        for g1, a in leaf(i, st, r, "action", g):
            for g2, u_ in leaf(i, st, r, "u", g1):
                for g3, v_ in leaf(i, st, r, "v", g2):
                    if AND(g3, S.care) == 0:
                        continue
                    if a not in acts or u_ not in nd or v_ not in nd:
                        raise Lost("result %s on %s, %s" % (show(a)[:60], show(u_)[:60], show(v_)[:60]))
                    out.append((g3, acts[a], nd[u_], nd[v_], r))
    return out


def table(props, kinds=None):
    t = {}
    for g, a, x, y, r in props:
        if kinds is None or a in kinds:
            t[a, x, y] = OR(t.get((a, x, y), 0), g)
    return t


def run_step(ctx, S, fi, nodes, extra=None, self_val=STEPV):
    a = {"nodes": S.ls(nodes), "graph": S.g}
    names = method_params(fi)
    for k, v in (extra or {}).items():
        if k in names:
            a[k] = v
    s = S.i.run(fi, args=a, self_val=self_val, st=S.st, alive=S.care)
    ctx.note_run(s)
    return s


def name_of(S, *xs):
    return ", ".join(S.ids[x].args[0][3:] for x in xs)


def effective(S, a, x, y):
    """condition under which a proposal changes the graph when it is applied"""
    if a == "REMOVE_EDGE_DIRECTED":
        return S.live(x, y)
    return 1


def compare(ctx, rule, nm, S, got, want, care, loc):
    """got/want: {(action,u,v): guard}; every graph changing proposal exactly when specified"""
    for key in sorted(set(got) | set(want), key=str):
        if key[0] == "DO_NOTHING":
            continue
        a, x, y = key
        q, wit = cmp_bool(got.get(key, 0), want.get(key, 0), AND(care, effective(S, a, x, y)))
        miss = ""
        if q == "diff":
            d = AND(XOR(got.get(key, 0), want.get(key, 0)), care)
            miss = "missing" if AND(d, want.get(key, 0)) else "unexpected"
        ctx.add(rule, "%s: %s %s" % (nm, a, name_of(S, x, y)), VERDICT[q], "" if q == "eq" else "%s when %s" % (miss, wit), loc)


def or_all(xs):
    r = 0
    for x in xs:
        r = OR(r, x)
    return r


# ---------------------------------------------------------------------------------------------- C16
def spec_r1(S, x, y, ns):
    """[(guard of candidate, conflict guard, u, v)]"""
    out = []
    for a, b in ((x, y), (y, x)):
        for z in ns:
            if z in (a, b):
                continue
            cand = AND(NOT(S.adj(x, y)), S.only(a, z), S.und(z, b))
            conf = or_all(AND(S.only(n, b), NOT(S.adj(n, z))) for n in ns if n not in (b, z))
            out.append((cand, conf, b, z))
    return out


def spec_r2(S, x, y, ns):
    t = {}
    for a, b in ((x, y), (y, x)):
        t["REMOVE_EDGE_DIRECTED", b, a] = or_all(AND(S.und(x, y), S.only(a, z), S.only(z, b)) for z in ns if z not in (a, b))
    return t


def spec_r3(S, y, w, ns):
    t = {}
    for z in ns:
        for x in ns:
            if len({x, y, z, w}) == 4:
                g = AND(NOT(S.adj(y, w)), S.only(y, z), S.only(w, z), S.und(x, y), S.und(x, w), S.und(x, z))
                t["REMOVE_EDGE_DIRECTED", z, x] = OR(t.get(("REMOVE_EDGE_DIRECTED", z, x), 0), g)
    return t


def spec_r4(S, a, b, ns):
    t = {}
    for x, w in ((a, b), (b, a)):
        for z in ns:
            for y in ns:
                if len({x, y, z, w}) == 4:
                    g = AND(NOT(S.adj(y, z)), S.und(x, z), S.und(x, w), S.und(x, y), S.only(y, w), S.only(w, z))
                    t["REMOVE_EDGE_DIRECTED", z, x] = OR(t.get(("REMOVE_EDGE_DIRECTED", z, x), 0), g)
    return t


MEEK = (
    ("NonColliderTest", None, (3, 4)),
    ("FurtherOrientTripleTest", spec_r2, (3, 4, 5)),
    ("OrientQuadrupleTest", spec_r3, (4, 5)),
    ("FurtherOrientQuadrupleTest", spec_r4, (4, 5)),
)


def C16(ctx):
    for cls, spec, sizes in MEEK:
        for k in sizes:
            for pair in ((0, 1), (1, 0)):
                nm = "%s on pair (n%d, n%d) of %d nodes" % (cls, pair[0], pair[1], k)
                ctx.guard("C16.rule", nm, c16_one, ctx, nm, PCR + cls, spec, k, pair)


def c16_one(ctx, nm, cls, spec, k, pair):
    p = ctx.prog
    fi = p.method(cls, "process")
    S = Small(p, k)
    s = run_step(ctx, S, fi, [S.ids[x] for x in pair])
    if s.notes:
        return ctx.unk("C16.rule", nm, s.notes[0], fi.loc)
    no_raise(ctx, "C16.rule", nm, s, S.care, fi.loc)
    try:
        got = table(proposals(ctx, S, s))
    except Lost as e:
        return ctx.unk("C16.rule", nm, str(e), fi.loc)
    care = AND(S.care, s.state.alive)
    ns = range(k)
    if spec is not None:
        compare(ctx, "C16.rule", nm, S, got, spec(S, pair[0], pair[1], ns), care, fi.loc)
        return
    # the non collider rule may stop at the first candidate: exact with one candidate, sound and productive with more
    cands = spec_r1(S, pair[0], pair[1], ns)
    one = 0
    anyc = 0
    for n, (c, f, u_, v_) in enumerate(cands):
        anyc = OR(anyc, c)
        one = OR(one, AND(c, *[NOT(o[0]) for m, o in enumerate(cands) if m != n]))
    want = {}
    for c, f, u_, v_ in cands:
        want["REMOVE_EDGE_DIRECTED", u_, v_] = AND(c, NOT(f))
    compare(ctx, "C16.rule", nm + ", one candidate", S, {k_: AND(v_, one) for k_, v_ in got.items()}, {k_: AND(v_, one) for k_, v_ in want.items()}, care, fi.loc)
    for key in sorted(set(got), key=str):
        if key[0] != "DO_NOTHING":
            q, wit = cmp_bool(AND(got[key], NOT(want.get(key, 0))), 0, AND(care, effective(S, *key)))
            ctx.add("C16.rule", "%s: %s %s only when justified" % (nm, key[0], name_of(S, *key[1:])), VERDICT[q], "" if q == "eq" else "when " + wit, fi.loc)
    allw = or_all(want.values())
    noconf = AND(*[NOT(AND(c, f)) for c, f, _, _ in cands])
    q, wit = cmp_bool(or_all(g for key, g in got.items() if key[0] != "DO_NOTHING"), 1, AND(care, allw, noconf))
    ctx.add("C16.rule", nm + ": some candidate is oriented", VERDICT[q], "" if q == "eq" else "nothing is proposed when " + wit, fi.loc)


# ---------------------------------------------------------------------------------------------- C15
def sep_history(S, x, y, n=2):
    """recorded actions of the pair: symbolic kind, symbolic separating sets -> list of (is removal, {node: membership}, records)"""
    out = []
    for h in S.hist[x, y]:
        has = bvar(T("sym", "has_separatedBy(%s)" % h.args[0]))
        mem = {}
        segs = []
        for z in range(S.k):
            m = bvar(T("sym", "%s separatedBy %s" % (h.args[0], S.nodes[z].args[0])))
            mem[z] = AND(has, m)
            segs.append((m, S.nodes[z]))
        lst = S.i.new_list(S.st, [])
        for m, nd in segs:
            st2 = S.st.copy()
            S.i.obj(S.st, lst).segs = tuple(S.i.obj(S.st, lst).segs) + (T("seg", (), G(m), "elem", nd),)
        S.tbl[h, "data"] = S.mkdict([(const("separatedBy"), has, lst)])
        out.append((T("attr", h, "action"), mem))
    return out


def skeleton_care(S):
    c = S.care
    for x in range(S.k):
        for y in range(x):
            c = AND(c, NOT(XOR(S.live(x, y), S.live(y, x))))
            for a, b in ((x, y), (y, x)):
                p_, e = S.E[a, b]
                c = AND(c, NOT(AND(p_, truth(T("attr", e, "deleted")))))
    return c


def pending(S, items):
    """results proposed by earlier combinations but not applied: (guard, action, u, v)"""
    outer = [(1, NONE)]
    for g, a, x, y in items:
        r = T("sym", "pending_%s_%s_%s" % (show(a).split(".")[-1], S.nodes[x].args[0], S.nodes[y].args[0]))
        S.i.types[r] = TR
        S.tbl.update({(r, "u"): S.nodes[x], (r, "v"): S.nodes[y], (r, "action"): a, (r, "data"): S.mkdict([])})
        lst = S.i.new_list(S.st, [])
        S.i.obj(S.st, lst).segs = (T("seg", (), G(g), "elem", r),)
        outer.append((1, lst))
    return S.i.new_list(S.st, [v for _, v in outer])


def C15(ctx):
    p = ctx.prog
    for k in (3, 4):
        for pair in ((0, 1), (1, 0)):
            nm = "ColliderTest on pair (n%d, n%d) of %d nodes" % (pair[0], pair[1], k)
            ctx.guard("C15.collider", nm, c15_one, ctx, nm, PCR + "ColliderTest", k, pair, None, None)
            nm = "ColliderRuleFCI on pair (n%d, n%d) of %d nodes" % (pair[0], pair[1], k)
            ctx.guard("C15.collider", nm, c15_one, ctx, nm, FCI + "ColliderRuleFCI", k, pair, None, None)
    for mode in ("KEEP_FIRST", "KEEP_LAST"):
        for how in ("member", "string"):
            for k in (3, 4) if how == "member" else (3,):
                nm = "ColliderTest with conflicts, %s as %s, %d nodes" % (mode, how, k)
                sv = enum(p, STRAT, mode) if how == "member" else const(mode)
                ctx.guard("C15.conflict", nm, c15_one, ctx, nm, PCR + "ColliderTest", k, (0, 1), mode, sv)


def c15_one(ctx, nm, cls, k, pair, mode, strat):
    p = ctx.prog
    fi = p.method(cls, "process")
    S = Small(p, k, history=2)
    x, y = pair
    hist = sep_history(S, x, y)
    S.care = skeleton_care(S)
    rem = enum(p, TRA, "REMOVE_EDGE_UNDIRECTED")
    S.tbl[STEPV, "conflict_resolution_strategy"] = strat or enum(p, STRAT, "KEEP_FIRST")
    pend = {}
    items = []
    if mode:
        rd = enum(p, TRA, "REMOVE_EDGE_DIRECTED")
        for z in range(k):
            if z in pair:
                continue
            for a in pair:
                g = bvar(T("sym", "pending removal %s->%s" % (S.nodes[a].args[0], S.nodes[z].args[0])))
                pend[a, z] = g
                items.append((g, rd, a, z))
            # a pending removal at the other end is no conflict
            items.append((bvar(T("sym", "pending removal %s->%s" % (S.nodes[z].args[0], S.nodes[x].args[0]))), rd, z, x))
    s = run_step(ctx, S, fi, [S.ids[n] for n in pair], {"unapplied_actions": pending(S, items)})
    rule = "C15.conflict" if mode else "C15.collider"
    if s.notes:
        return ctx.unk(rule, nm, s.notes[0], fi.loc)
    no_raise(ctx, rule, nm, s, S.care, fi.loc)
    try:
        pr = proposals(ctx, S, s)
    except Lost as e:
        return ctx.unk(rule, nm, str(e), fi.loc)
    got = table(pr)
    care = AND(S.care, s.state.alive)
    want = {}
    rest = {}
    for z in range(k):
        if z in pair:
            continue
        sep = or_all(AND(eq(act, rem), mem[z]) for act, mem in hist)
        col = AND(NOT(S.adj(x, y)), S.und(x, z), S.und(y, z), NOT(sep))
        conf = OR(pend.get((x, z), 0), pend.get((y, z), 0))
        if "FCI" in cls:
            want["UPDATE_EDGE_DIRECTED", x, z] = col
            want["UPDATE_EDGE_DIRECTED", y, z] = col
            continue
        ok = AND(col, NOT(conf)) if mode == "KEEP_FIRST" else col
        want["REMOVE_EDGE_DIRECTED", z, x] = ok
        want["REMOVE_EDGE_DIRECTED", z, y] = ok
        if mode == "KEEP_LAST":
            for a in pair:
                rest[a, z] = AND(col, pend[a, z])
                want["RESTORE_EDGE_DIRECTED", a, z] = rest[a, z]
    compare(ctx, rule, nm, S, got, want, care, fi.loc)
    if mode == "KEEP_LAST":
        # no restoration of a direction after it was removed by the same batch
        bad = 0
        seen = {}
        for g, a, u_, v_, r in pr:
            if a == "REMOVE_EDGE_DIRECTED":
                seen[u_, v_] = OR(seen.get((u_, v_), 0), g)
            elif a == "RESTORE_EDGE_DIRECTED":
                bad = OR(bad, AND(g, seen.get((u_, v_), 0)))
        q, wit = cmp_bool(bad, 0, care)
        ctx.add(rule, nm + ": removals come after restorations", VERDICT[q], "" if q == "eq" else "when " + wit, fi.loc)
