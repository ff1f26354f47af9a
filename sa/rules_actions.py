"""C05 effect of applied actions, C06 recorded actions and edge history, C11 graph update hooks."""
from .rules_graph import *

AM = "causy.graph_model.AbstractGraphModel"
TR = "causy.models.TestResult"
TRA = "causy.models.TestResultAction"
STEP = "causy.interfaces.PipelineStepInterface"
MODEL = T("sym", "model")
ALGO = T("sym", "algorithm")
VERDICT = {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}


def enum(prog, cls, name):
    ci = prog.cls(cls)
    fa = prog.find_attr(ci, name)
    if fa is None:
        raise AnalysisError("%s has no member %s" % (cls, name))
    i = Interp(prog)
    return i.cls_attr(State(), T("cls", cls), name)


def actions(prog):
    return [n for n in prog.cls(TRA).attr_order if not n.startswith("_")]


def sym_action(name, kind, uv=(U, V), data=MD, et=ET):
    a = T("sym", name)
    return a, {(a, "u"): uv[0], (a, "v"): uv[1], (a, "action"): kind, (a, "data"): data, (a, "edge_type"): et}


def model_interp(prog, attrs=None, stop=None, mode="alias", hooks=True):
    i = interp(prog, mode, stop)
    i.types[MODEL] = AM
    i.types[ALGO] = "causy.models.Algorithm"
    tbl = {(MODEL, "graph"): SELF, (MODEL, "algorithm"): ALGO}
    if not hooks:
        tbl[(ALGO, "pre_graph_update_hooks")] = NONE
        tbl[(ALGO, "post_graph_update_hooks")] = NONE
    tbl.update(attrs or {})
    for (o, a) in tbl:
        if o.op == "sym" and a == "action":
            i.types[o] = TR

    def oa(st, o, a):
        ob = i.obj(st, o)
        if ob is not None and a in ob.fields:
            return None
        if (o, a) in tbl:
            return tbl[(o, a)]
        return on_attr(st, o, a)

    i.on_attr = oa
    return i


def live(x, y):
    return AND(H(N_, x), H(N_, y), H(E_, x), H(T("idx", E_, x), y), NOT(truth(pre_field(E_, x, y, "deleted"))))


def keep(x, y):
    return (pre_pres(E_, x, y), {f: pre_field(E_, x, y, f) for f in FIELDS})


def with_(x, y, **k):
    p, d = keep(x, y)
    d.update(k)
    return (p, d)


def edge_type_value(prog, qual):
    i = Interp(prog)
    st = State()
    return i.freeze(i.instantiate(qual, [], {}, st, None), st)


def action_table(prog):
    """kind -> (applies, {direction: expected}, directions whose history gets the action, care)"""
    uv, vu = (u, v), (v, u)
    both = AND(live(u, v), live(v, u))
    one = live(u, v)
    none = NOT(OR(live(u, v), live(v, u)))
    directed = edge_type_value(prog, "causy.edge_types.DirectedEdge")
    P, D = (lambda x, y: pre_pres(E_, x, y)), (lambda x, y: pre_pres(D_, x, y))

    def restored(x, y):
        d = {f: vite(P(x, y), pre_field(E_, x, y, f), pre_field(D_, x, y, f)) for f in ("edge_type", "metadata")}
        d["deleted"] = FALSE
        return (OR(P(x, y), D(x, y)), d)

    nodes = AND(H(N_, u), H(N_, v))
    rest2 = AND(nodes, OR(P(u, v), P(v, u), D(u, v), D(v, u)))
    rest1 = AND(nodes, OR(P(u, v), D(u, v)))
    return {
        "DO_NOTHING": (0, {uv: keep(u, v), vu: keep(v, u)}, (), 1),
        "UPDATE_EDGE": (both, {uv: with_(u, v, metadata=MD), vu: with_(v, u, metadata=MD)}, (uv, vu), 1),
        "UPDATE_EDGE_DIRECTED": (one, {uv: with_(u, v, metadata=MD), vu: keep(v, u)}, (uv,), 1),
        "UPDATE_EDGE_TYPE": (both, {uv: with_(u, v, edge_type=ET), vu: with_(v, u, edge_type=ET)}, (uv, vu), 1),
        "UPDATE_EDGE_TYPE_DIRECTED": (one, {uv: with_(u, v, edge_type=ET), vu: keep(v, u)}, (uv,), 1),
        "REMOVE_EDGE_UNDIRECTED": (both, {uv: with_(u, v, deleted=TRUE), vu: with_(v, u, deleted=TRUE)}, (uv, vu), 1),
        "REMOVE_EDGE_DIRECTED": (
            one,
            {uv: with_(u, v, deleted=TRUE), vu: with_(v, u, edge_type=vite(live(v, u), directed, pre_field(E_, v, u, "edge_type")))},
            (uv,),
            1,
        ),
        "RESTORE_EDGE": (none, {uv: restored(u, v), vu: restored(v, u)}, (uv, vu), OR(NOT(none), rest2)),
        "RESTORE_EDGE_DIRECTED": (NOT(one), {uv: restored(u, v), vu: keep(v, u)}, (uv,), OR(one, rest1)),
    }


ACTS = [T("sym", n) for n in ("act", "act1", "act2", "act3", "new1", "new2")]


def care_set():
    """the index invariant, and: actions, payloads and edge types are real values"""
    c = AND(invariant(), NOT(eq(MD, NONE)), NOT(eq(ET, NONE)))
    for a in ACTS:
        c = AND(c, NOT(eq(a, NONE)))
    return c


def run_actions(prog, items, dry, attrs, hooks=False, wrap=True):
    fi = prog.method(AM, "_take_action")
    i = model_interp(prog, attrs, hooks=hooks)
    st = State()

    def build(x):
        return i.new_list(st, [build(y) for y in x]) if isinstance(x, list) else x

    rn = [a for a in method_params(fi) if a != "self"]
    s = i.run(fi, args={rn[0]: build(items), "dry_run": dry}, self_val=MODEL, st=st)
    return fi, i, s


def history_added(i, st, x, y, act):
    """-> (guard under which act is appended exactly once, problem text or None)"""
    o = T("idx", H_, T("tup", x, y))
    ob = i.obj(st, o)
    hob = i.obj(st, H_)
    if hob is not None:
        for k, pr, val in hob.cells:
            # creating the list of a pair that has none is fine, replacing an existing one is not
            if k is T("tup", x, y):
                for g, leaf in cases_of(val):
                    if leaf is not o and AND(g, pr, H(H_, k), invariant()):
                        return None, "the history list of the pair is replaced when %s" % witness(AND(g, pr, H(H_, k)))
        if hob.q:
            return None, "imprecise"
    if ob is None:
        return 0, None
    g = 0
    for sg in ob.segs or ():
        b, gn, k, val = (sg.args if isinstance(sg, Term) else (sg.binders, sg.g, sg.kind, sg.v))
        gn = gn.n if hasattr(gn, "n") else gn
        if k == "elem" and val is act and not b:
            if AND(g, gn):
                return None, "the action is recorded twice when %s" % witness(AND(g, gn))
            g = OR(g, gn)
        elif val.op == "orig" or (k != "elem" and contains(val, o)):
            continue
        else:
            return None, "the history receives %s" % show(val)[:120]
    return g, None


def C05(ctx):
    p = ctx.prog
    fi = p.method(AM, "_take_action")
    tbl = action_table(p)
    kinds = actions(p)
    for k in kinds:
        if k not in tbl:
            ctx.unk("C05.kinds", k, "no specification for this action kind", p.cls(TRA).loc)
    for k in tbl:
        ctx.guard("C05.effect", k, c05_kind, ctx, fi, k, tbl[k], FALSE)
        ctx.guard("C05.dryrun", k, c05_kind, ctx, fi, k, tbl[k], TRUE)
    ctx.guard("C05.sequence", fi.qual, c05_sequence, ctx, fi)
    for k in tbl:
        ctx.guard("C05.sequence", k, followed, ctx, k, tbl[k], "C05.sequence")
    ctx.guard("C05.sequence", "five results", longer, ctx, "C05.sequence")


def check_state(ctx, rule, nm, i, st, dirs, care, loc):
    for (x, y), (pexp, fexp) in dirs.items():
        d = "u -> v" if x is u else "v -> u"
        a = pres(i, st, E_, x, y)
        q, wit = cmp_bool(a, pexp, care)
        ctx.add(rule, "%s: presence of %s" % (nm, d), VERDICT[q], "" if q == "eq" else wit, loc)
        both = AND(care, a, pexp)
        if both == 0:
            continue
        for f, val in fexp.items():
            q, wit = cmp_val(field(i, st, E_, x, y, f), val, both)
            ctx.add(rule, "%s: %s of %s" % (nm, f, d), VERDICT[q], "" if q == "eq" else wit, loc)


def no_raise(ctx, rule, nm, s, care, loc):
    bad = 0
    for r in s.raises:
        g = AND(r[0].alive, care)
        if g:
            c = s.interp.exc_class(r[1]) or show(r[1])[:60]
            # failures of user supplied code and external libraries are not the subject
            if str(c).startswith("ext"):
                continue
            ctx.add(rule, nm + ": completes", VIOLATED if imprecise_bdd(g) is None else UNDECIDED, "leaves with %s at %s when %s" % (str(c).split(".")[-1], r[2], witness(g)), r[2])
            bad = 1
    if not bad:
        ctx.hold(rule, nm + ": completes", loc=loc)


def c05_kind(ctx, fi, kind, spec, dry):
    p = ctx.prog
    ok, dirs, hist, care = spec
    act, attrs = sym_action("act", enum(p, TRA, kind))
    fi, i, s = run_actions(p, [[act]], dry, attrs)
    ctx.note_run(s)
    nm = "applying %s" % kind if dry is FALSE else "dry run of %s" % kind
    rule = "C05.effect" if dry is FALSE else "C05.dryrun"
    if s.notes:
        ctx.unk(rule, nm, s.notes[0], fi.loc)
        return
    care = AND(care, care_set())
    no_raise(ctx, rule, nm, s, care, fi.loc)
    same = {(u, v): keep(u, v), (v, u): keep(v, u)}
    alive = AND(care, s.state.alive)
    if dry is TRUE:
        check_state(ctx, rule, nm, i, s.state, same, alive, fi.loc)
    else:
        check_state(ctx, rule, nm + " (applicable)", i, s.state, dirs, AND(alive, ok), fi.loc)
        check_state(ctx, rule, nm + " (not applicable)", i, s.state, same, AND(alive, NOT(ok)), fi.loc)


def c05_sequence(ctx, fi):
    """several results: plain result, None, list of results; every one is applied, in order"""
    p = ctx.prog
    a1, t1 = sym_action("act1", enum(p, TRA, "REMOVE_EDGE_DIRECTED"), (U, V))
    a2, t2 = sym_action("act2", enum(p, TRA, "DO_NOTHING"), (U, V))
    a3, t3 = sym_action("act3", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), (V, U))
    fi, i, s = run_actions(p, [a1, NONE, [a2, a3]], FALSE, {**t1, **t2, **t3})
    nm = "result, no result, list of two results"
    if s.notes:
        ctx.unk("C05.sequence", nm, s.notes[0], fi.loc)
        return
    care = AND(care_set(), s.state.alive)
    no_raise(ctx, "C05.sequence", nm, s, care_set(), fi.loc)
    directed = edge_type_value(p, "causy.edge_types.DirectedEdge")
    l1, l2 = live(u, v), live(v, u)
    dirs = {
        (u, v): with_(u, v, deleted=vite(l1, TRUE, pre_field(E_, u, v, "deleted"))),
        (v, u): with_(v, u, metadata=vite(l2, MD, pre_field(E_, v, u, "metadata")), edge_type=vite(AND(l1, l2), directed, pre_field(E_, v, u, "edge_type"))),
    }
    check_state(ctx, "C05.sequence", nm, i, s.state, dirs, care, fi.loc)
    # last one wins: the same edge updated twice
    m1, m2 = T("sym", "data1"), T("sym", "data2")
    a1, t1 = sym_action("act1", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), (U, V), data=m1)
    a2, t2 = sym_action("act2", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), (U, V), data=m2)
    for shape, items in (("two results", [a1, a2]), ("one list of two results", [[a1, a2]])):
        fi, i, s = run_actions(p, items, FALSE, {**t1, **t2})
        care = AND(care_set(), s.state.alive, NOT(eq(m1, NONE)), NOT(eq(m2, NONE)))
        dirs = {(u, v): with_(u, v, metadata=vite(l1, m2, pre_field(E_, u, v, "metadata")))}
        check_state(ctx, "C05.sequence", "successive updates as " + shape, i, s.state, dirs, care, fi.loc)


def followed(ctx, kind, spec, rule):
    """a result of each kind, applicable or not, and an update after it"""
    p = ctx.prog
    ok, dirs, hist, care = spec
    m2 = T("sym", "data2")
    a1, t1 = sym_action("act1", enum(p, TRA, kind), (U, V))
    a2, t2 = sym_action("act2", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), (V, U), data=m2)
    for shape, items in (("two results", [a1, a2]), ("one list", [[a1, a2]])):
        fi, i, s = run_actions(p, items, FALSE, {**t1, **t2})
        ctx.note_run(s)
        nm = "%s followed by an update, as %s" % (kind, shape)
        if s.notes:
            ctx.unk(rule, nm, s.notes[0], fi.loc)
            continue
        pr, fields = dirs[(v, u)]
        pr0, f0 = keep(v, u)
        there = OR(AND(ok, pr), AND(NOT(ok), pr0))
        gone = OR(AND(ok, truth(fields["deleted"])), AND(NOT(ok), truth(f0["deleted"])))
        after = AND(H(N_, u), H(N_, v), there, NOT(gone))
        c = AND(care, care_set(), s.state.alive, NOT(eq(m2, NONE)))
        if rule == "C06.sequence":
            returned_lists(ctx, rule, nm, i, s, [(ok, a1), (after, a2)], [(1, a1), (1, a2)], c, fi.loc)
        else:
            want = {f: vite(ok, fields[f], f0[f]) for f in fields}
            want["metadata"] = vite(after, m2, want["metadata"])
            check_state(ctx, rule, nm, i, s.state, {(v, u): (there, want)}, c, fi.loc)


def longer(ctx, rule):
    """five results of one kind, in every split into batches: all of them are applied in order and recorded"""
    p = ctx.prog
    ends = [(U, V), (V, U), (U, V), (U, V), (V, U)]
    d = [T("sym", "data%d" % k) for k in range(5)]
    acts, attrs = [], {}
    for k in range(5):
        a, t = sym_action("action%d" % k, enum(p, TRA, "UPDATE_EDGE_DIRECTED"), ends[k], data=d[k])
        acts.append(a)
        attrs.update(t)
    l1, l2 = live(u, v), live(v, u)
    for shape in ([5], [1, 1, 1, 1, 1], [2, 3], [4, 1], [0, 3, 0, 2]):
        items, k = [], 0
        for n in shape:
            items.append(acts[k : k + n])
            k += n
        if shape == [1, 1, 1, 1, 1]:
            items = list(acts)
        fi, i, s = run_actions(p, items, FALSE, attrs)
        ctx.note_run(s)
        nm = "five results in batches of %s" % ", ".join(map(str, shape))
        if s.notes:
            ctx.unk(rule, nm, s.notes[0], fi.loc)
            continue
        c = AND(care_set(), s.state.alive, *[NOT(eq(x, NONE)) for x in d + acts])
        no_raise(ctx, rule, nm, s, c, fi.loc)
        if rule == "C06.sequence":
            returned_lists(ctx, rule, nm, i, s, [(l1 if e[0] is U else l2, a) for a, e in zip(acts, ends)], [(1, a) for a in acts], c, fi.loc)
        else:
            dirs = {(u, v): with_(u, v, metadata=vite(l1, d[3], pre_field(E_, u, v, "metadata"))), (v, u): with_(v, u, metadata=vite(l2, d[4], pre_field(E_, v, u, "metadata")))}
            check_state(ctx, rule, nm, i, s.state, dirs, c, fi.loc)


# ---------------------------------------------------------------------------------------------- C06
def C06(ctx):
    p = ctx.prog
    fi = p.method(AM, "_take_action")
    tbl = action_table(p)
    for k in tbl:
        ctx.guard("C06.record", k, c06_kind, ctx, fi, k, tbl[k], FALSE)
        ctx.guard("C06.record", k + " (dry run)", c06_kind, ctx, fi, k, tbl[k], TRUE)
    ctx.guard("C06.sequence", fi.qual, c06_sequence, ctx, fi)
    for k in tbl:
        ctx.guard("C06.sequence", k, followed, ctx, k, tbl[k], "C06.sequence")
    ctx.guard("C06.sequence", "five results", longer, ctx, "C06.sequence")
    ctx.guard("C06.history", "edge history queries", c06_history, ctx)


def returned_lists(ctx, rule, nm, i, s, want_taken, want_all, care, loc):
    r = s.frz()
    for g, leaf in cases_of(r):
        c = AND(g, care)
        if c == 0:
            continue
        if leaf.op != "tup" or len(leaf.args) != 2:
            ctx.add(rule, nm + ": result", UNDECIDED if imprecise_term(leaf) is not None else VIOLATED, "returns %s" % show(leaf)[:120], loc)
            continue
        for what, got, want in (("actions taken", leaf.args[0], want_taken), ("proposed actions", leaf.args[1], want_all)):
            exp = T("list", *[T("seg", (), G(gg), "elem", a) for gg, a in want if AND(gg, c)])
            q, wit = cmp_val(canon(got), exp, c)
            ctx.add(rule, "%s: %s" % (nm, what), VERDICT[q], "" if q == "eq" else wit, loc)


def c06_kind(ctx, fi, kind, spec, dry):
    p = ctx.prog
    ok, dirs, hist, care = spec
    act, attrs = sym_action("act", enum(p, TRA, kind))
    fi, i, s = run_actions(p, [[act]], dry, attrs)
    ctx.note_run(s)
    nm = "%s%s" % (kind, "" if dry is FALSE else " (dry run)")
    if s.notes:
        ctx.unk("C06.record", nm, s.notes[0], fi.loc)
        return
    care = AND(care, care_set(), s.state.alive)
    returned_lists(ctx, "C06.record", nm, i, s, [(ok if dry is FALSE else 1, act)], [(1, act)], care, fi.loc)
    for x, y in ((u, v), (v, u)):
        g, prob = history_added(i, s.state, x, y, act)
        d = "history of (%s, %s)" % ("u" if x is u else "v", "v" if x is u else "u")
        if prob:
            ctx.add("C06.history", nm + ": " + d, UNDECIDED if "imprecise" in prob else VIOLATED, prob, fi.loc)
            continue
        want = ok if dry is FALSE and (x, y) in hist else 0
        q, wit = cmp_bool(g, want, AND(care, H(H_, T("tup", x, y)), H(H_, T("tup", y, x))))
        ctx.add("C06.history", nm + ": " + d, VERDICT[q], "" if q == "eq" else ("recorded or missed wrongly when " + wit), fi.loc)


def c06_sequence(ctx, fi):
    p = ctx.prog
    a1, t1 = sym_action("act1", enum(p, TRA, "REMOVE_EDGE_DIRECTED"), (U, V))
    a2, t2 = sym_action("act2", enum(p, TRA, "DO_NOTHING"), (U, V))
    a3, t3 = sym_action("act3", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), (V, U))
    for dry in (FALSE, TRUE):
        fi, i, s = run_actions(p, [a1, NONE, [a2, a3]], dry, {**t1, **t2, **t3})
        nm = "result, no result, list of two results" + ("" if dry is FALSE else " (dry run)")
        taken = [(live(u, v), a1), (live(v, u), a3)] if dry is FALSE else [(1, a1), (1, a2), (1, a3)]
        returned_lists(ctx, "C06.sequence", nm, i, s, taken, [(1, a1), (1, a2), (1, a3)], AND(care_set(), s.state.alive), fi.loc)
    # one applied action per kind of result list position
    fi, i, s = run_actions(p, [], FALSE, {})
    returned_lists(ctx, "C06.sequence", "no results", i, s, [], [], AND(care_set(), s.state.alive), fi.loc)


def c06_history(ctx):
    p = ctx.prog
    res = T("sym", "result")
    fi = p.method(GM, "add_edge_history")
    i = interp(p)
    ps = [x for x in method_params(fi) if x != "self"]
    s = i.run(fi, args={ps[0]: U, ps[1]: V, ps[2]: res}, self_val=SELF)
    ctx.note_run(s)
    g, prob = history_added(i, s.state, u, v, res)
    k = H(H_, T("tup", u, v))
    if prob:
        ctx.add("C06.history", fi.qual, UNDECIDED if "imprecise" in prob else VIOLATED, prob, fi.loc)
    else:
        q, wit = cmp_bool(g, 1, AND(k, H(N_, u), H(N_, v)))
        ctx.add("C06.history", fi.qual, VERDICT[q], "" if q == "eq" else "not appended when " + wit, fi.loc)
    g2, prob2 = history_added(i, s.state, v, u, res)
    ctx.require(prob2 is not None or g2 == 0, "C06.history", fi.qual + ": only the asked direction", "also recorded for the opposite direction", fi.loc)
    fi = graph_method(p, "retrieve_edge_history")
    for nm, act in (("all", NONE), ("filtered", T("sym", "wanted"))):
        for a, b, an in ((U, V, "nodes"), (u, v, "ids")):
            s = query_interp(p).run(fi, args={"u": a, "v": b, "action": act}, self_val=SELF)
            r = query_interp(p).run(p.func("vspec.graph.retrieve_edge_history"), args={"self": SELF, "u": u, "v": v, "action": act})
            ctx.note_run(s)
            known = H(H_, T("tup", u, v))
            compare_runs(ctx, "C06.history", "%s (%s, %s)" % (fi.qual, nm, an), fi, s, r, AND(known if act is NONE else 1, NOT(eq(T("sym", "wanted"), NONE))))


# ---------------------------------------------------------------------------------------------- C11
def C11(ctx):
    ctx.guard("C11.hooks", "graph update hooks", c11_hooks, ctx)
    for k, spec in action_table(ctx.prog).items():
        ctx.guard("C11.edgehooks", k, c11_edge_hooks, ctx, k, spec)


def c11_hooks(ctx):
    p = ctx.prog
    fi = p.method(AM, "_take_action")
    h1, h2, q1, q2 = (T("sym", n) for n in ("prehook1", "prehook2", "posthook1", "posthook2"))
    HOOK = "causy.interfaces.GraphUpdateHook"
    out = {}

    def go(results, pre, post, dry, attrs):
        i = model_interp(p, attrs)
        st = State()
        for h in (h1, h2, q1, q2):
            i.types[h] = HOOK
        build = lambda x: i.new_list(st, [build(y) for y in x]) if isinstance(x, list) else x
        prel, postl = build(pre), build(post)
        oa = i.on_attr
        i.on_attr = lambda st_, o, a: prel if (o is ALGO and a == "pre_graph_update_hooks") else postl if (o is ALGO and a == "post_graph_update_hooks") else oa(st_, o, a)
        rn = [a for a in method_params(fi) if a != "self"]
        rewritten = {}

        def on_execute(it, recv, args, kwargs, st_, node):
            return rewritten.get(recv)

        i.mcall_handlers["execute"] = on_execute
        i._rewritten = rewritten
        i._build = build
        i._st = st
        return i, st, build(results), rn, rewritten

    # pre hooks: the batch is replaced by what the hooks return, chained in order
    act, t = sym_action("act", enum(p, TRA, "UPDATE_EDGE_DIRECTED"))
    new1, t1 = sym_action("new1", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), data=T("sym", "data1"))
    new2, t2 = sym_action("new2", enum(p, TRA, "UPDATE_EDGE_DIRECTED"), data=T("sym", "data2"))
    i, st, res, rn, rw = go([[act]], [h1, h2], [q1, q2], FALSE, {**t, **t1, **t2})
    rw[h1] = i._build([new1])
    rw[h2] = i._build([new1, new2])
    rw[q1] = NONE
    rw[q2] = NONE
    s = i.run(fi, args={rn[0]: res, "dry_run": FALSE}, self_val=MODEL, st=st)
    ctx.note_run(s)
    if s.notes:
        ctx.unk("C11.hooks", fi.qual, s.notes[0], fi.loc)
        return
    care = AND(care_set(), s.state.alive, NOT(eq(T("sym", "data1"), NONE)), NOT(eq(T("sym", "data2"), NONE)))
    ok = live(u, v)
    returned_lists(ctx, "C11.pre", "results returned by the hooks are the ones applied", i, s, [(ok, new1), (ok, new2)], [(1, new1), (1, new2)], care, fi.loc)
    check_state(ctx, "C11.pre", "applied actions", i, s.state, {(u, v): with_(u, v, metadata=vite(ok, T("sym", "data2"), pre_field(E_, u, v, "metadata")))}, care, fi.loc)
    calls = [e for e in s.events if e.kind == "mcall" and e.data[1] == "execute"]
    seq = [(e.data[0], e.data[2], e.guard) for e in calls]
    L = lambda *a: T("list", *[T("seg", (), G(g), "elem", x) for g, x in a])
    want = [(h1, L((1, act))), (h2, L((1, new1))), (q1, L((ok, new1), (ok, new2))), (q2, L((ok, new1), (ok, new2)))]
    if [x[0] for x in seq] != [x[0] for x in want]:
        ctx.bad("C11.order", "hooks run once each, pre hooks in order before post hooks in order", "calls: %s" % ", ".join(show(x[0]) for x in seq), fi.loc)
    else:
        for (h, args, g), (_, exp) in zip(seq, want):
            q, wit = cmp_bool(g, 1, care)
            ctx.add("C11.order", "%s runs once" % show(h), VERDICT[q], wit if q != "eq" else "", fi.loc)
            if len(args) != 2 or args[0] is not SELF:
                ctx.bad("C11.order", "%s arguments" % show(h), "called with %s" % (", ".join(show(a)[:80] for a in args)), fi.loc)
                continue
            q, wit = cmp_val(canon(args[1]), exp, care)
            ctx.add("C11.order", "%s receives the right actions" % show(h), VERDICT[q], "" if q == "eq" else wit, fi.loc)
    # per batch: hooks see every result (single results are wrapped into a list of their own)
    a1, ta = sym_action("act1", enum(p, TRA, "DO_NOTHING"))
    a2, tb = sym_action("act2", enum(p, TRA, "DO_NOTHING"))
    i, st, res, rn, rw = go([a1, NONE, [a2]], [h1], [q1], FALSE, {**ta, **tb})
    seen = []

    def passthrough(it, recv, args, kwargs, st_, node):
        return args[-1] if recv is h1 else NONE

    i.mcall_handlers["execute"] = passthrough
    s = i.run(fi, args={rn[0]: res, "dry_run": FALSE}, self_val=MODEL, st=st)
    calls = [(e.data[0], e.data[2][1] if len(e.data[2]) > 1 else None) for e in s.events if e.kind == "mcall" and e.data[1] == "execute"]
    pre = [c[1] for c in calls if c[0] is h1]
    exp = [L((1, a1)), L((1, a2))]
    ctx.require([canon(x) if x is not None else x for x in pre] == exp, "C11.batches", "each result batch reaches the pre hooks once", "pre hooks saw %s" % [show(x)[:80] for x in pre if x is not None], fi.loc)
    post = [c[1] for c in calls if c[0] is q1]
    ctx.require([canon(x) if x is not None else x for x in post] == [T("list"), T("list")], "C11.batches", "post hooks run per batch with the applied actions only", "post hooks saw %s" % [show(x)[:80] for x in post if x is not None], fi.loc)
    # hook lists that are None or empty leave the results unchanged
    for lab, lst in (("None", NONE), ("empty", [])):
        i, st, res, rn, rw = go([[a1]], lst, lst, FALSE, ta)
        s = i.run(fi, args={rn[0]: res, "dry_run": FALSE}, self_val=MODEL, st=st)
        returned_lists(ctx, "C11.none", "hook lists %s" % lab, i, s, [], [(1, a1)], AND(care_set(), s.state.alive), fi.loc)


EDGE_HOOKS = {"UPDATE_EDGE": "update", "UPDATE_EDGE_DIRECTED": "update", "REMOVE_EDGE_UNDIRECTED": "remove", "REMOVE_EDGE_DIRECTED": "remove", "UPDATE_EDGE_TYPE": "type_change", "UPDATE_EDGE_TYPE_DIRECTED": "type_change"}


def c11_edge_hooks(ctx, kind, spec):
    """the hooks of the edge type: before and after each applied change, whatever they do"""
    p = ctx.prog
    names = [m for m in p.cls("causy.interfaces.EdgeTypeInterface").methods if m.endswith("_hook")]
    ok, dirs, hist, care = spec
    act, attrs = sym_action("act", enum(p, TRA, kind))
    fi = p.method(AM, "_take_action")
    for lab, exc in (("", None), (", hooks fail with GraphError", "causy.graph_utils.GraphError"), (", hooks fail with ValueError", "builtins.ValueError"), (", hooks fail with another error", "builtins.Exception"), (", dry run", None)):
        if exc is not None and exc.startswith("causy.") and exc not in p.classes:
            exc = next((q for q in p.classes if q.endswith(".GraphError")), None)
            if exc is None:
                continue
        i = model_interp(p, attrs, hooks=False)
        st = State()
        oa = i.on_attr
        i.on_attr = lambda s_, o, a: T("attr", o, a) if a in names else oa(s_, o, a)
        marks = []

        def called(it, recv, args, kwargs, s_, node, name):
            marks.append((name, recv, tuple(it.freeze(a, s_) for a in args), dict(kwargs), s_.alive, len(it.events), {d: {f: field(it, s_, E_, d[0], d[1], f) for f in ("edge_type", "metadata", "deleted")} for d in ((u, v), (v, u))}))
            if exc is not None:
                it.do_raise_if(s_, 1, T("exc", exc, ()), node)
            return NONE

        for n in names:
            i.mcall_handlers[n] = lambda it, recv, args, kwargs, s_, node, n=n: called(it, recv, args, kwargs, s_, node, n)
        rn = [a for a in method_params(fi) if a != "self"]
        s = i.run(fi, args={rn[0]: i.new_list(st, [i.new_list(st, [act])]), "dry_run": B(int(lab == ", dry run"))}, self_val=MODEL, st=st)
        ctx.note_run(s)
        nm = kind + lab
        if s.notes:
            ctx.unk("C11.edgehooks", nm, s.notes[0], fi.loc)
            continue
        c = AND(care, care_set())
        no_raise(ctx, "C11.edgehooks", nm, s, c, fi.loc)
        c = AND(c, s.state.alive) if exc is None else c
        if lab == ", dry run":
            for n in names:
                g = 0
                for m in marks:
                    g = OR(g, m[4]) if m[0] == n else g
                q, wit = cmp_bool(g, 0, c)
                ctx.add("C11.edgehooks", "%s: %s is not called" % (nm, n), VERDICT[q], "" if q == "eq" else "called when " + wit, fi.loc)
            continue
        what = EDGE_HOOKS.get(kind)
        want = {} if what is None else {"pre_edge_%s_hook" % what: 0, "post_edge_%s_hook" % what: 1}
        for n in names:
            ms = [m for m in marks if m[0] == n]
            g, twice = 0, 0
            for m in ms:
                twice = OR(twice, AND(g, m[4]))
                g = OR(g, m[4])
            q, wit = cmp_bool(g, ok if n in want else 0, c)
            if n in want or q != "eq" or ms:
                ctx.add("C11.edgehooks", "%s: %s is called exactly for applied results" % (nm, n), VERDICT[q], "" if q == "eq" else "differs when " + wit, fi.loc)
            if n not in want:
                continue
            q, wit = cmp_bool(twice, 0, c)
            ctx.add("C11.edgehooks", "%s: %s is called once" % (nm, n), VERDICT[q], "" if q == "eq" else "twice when " + wit, fi.loc)
            for m in ms:
                cc = AND(c, m[4])
                if not cc:
                    continue
                if len(m[2]) != 2 or m[3]:
                    ctx.add("C11.edgehooks", "%s: arguments of %s" % (nm, n), UNDECIDED, "called with %s" % ", ".join(show(a)[:60] for a in m[2]), fi.loc)
                else:
                    for a, b in zip(m[2], (SELF, act)):
                        q, wit = cmp_val(a, b, cc)
                        ctx.add("C11.edgehooks", "%s: arguments of %s" % (nm, n), VERDICT[q], "" if q == "eq" else wit, fi.loc)
                exp = (lambda d, f: dirs[d][1][f]) if want[n] else (lambda d, f: pre_field(E_, d[0], d[1], f))
                for d in ((u, v), (v, u)):
                    for f in ("edge_type", "metadata", "deleted"):
                        if kind == "REMOVE_EDGE_DIRECTED" and want[n] and d == (v, u) and f == "edge_type":
                            continue
                        q, wit = cmp_val(m[6][d][f], exp(d, f), AND(cc, pre_pres(E_, d[0], d[1])))
                        ctx.add("C11.edgehooks", "%s: %s sees the edge %s the change: %s of %s" % (nm, n, "after" if want[n] else "before", f, "u -> v" if d[0] is u else "v -> u"), VERDICT[q], "" if q == "eq" else wit, fi.loc)
                q, wit = cmp_val(m[1], exp((u, v), "edge_type"), cc)
                ctx.add("C11.edgehooks", "%s: %s is that of the type of the edge" % (nm, n), VERDICT[q], "" if q == "eq" else wit, fi.loc)
        a = AND(care, care_set(), s.state.alive)
        check_state(ctx, "C11.edgehooks", nm, i, s.state, dirs, AND(a, ok), fi.loc)
        check_state(ctx, "C11.edgehooks", nm + " (not applied)", i, s.state, {(u, v): keep(u, v), (v, u): keep(v, u)}, AND(a, NOT(ok)), fi.loc)
        returned_lists(ctx, "C11.edgehooks", nm, i, s, [(ok, act)], [(1, act)], AND(care, care_set(), s.state.alive), fi.loc)
