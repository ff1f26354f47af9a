"""C08 execution of one pipeline step, C09 execution of the whole pipeline, C10 logic steps."""
from .rules_actions import *

LOGIC = "causy.interfaces.LogicStepInterface"
EXITC = "causy.interfaces.ExitConditionInterface"
GENI = "causy.interfaces.GeneratorInterface"
POOL = T("sym", "pool")
S1, S2, L1 = T("sym", "step1"), T("sym", "step2"), T("sym", "logic1")
DATA = [T("sym", "data%d" % k) for k in range(1, 9)]
RES = [T("sym", "res%d" % k) for k in range(1, 9)]
COMBO = [(T("sym", "c%da" % k), T("sym", "c%db" % k)) for k in range(1, 9)]


def res_care():
    """both directions are live: application of an action in every other state is the subject of C05"""
    c = AND(live(u, v), live(v, u), H(R_, u), H(R_, v), H(D_, u), H(D_, v), H(T("idx", R_, u), v), H(T("idx", R_, v), u), H(H_, T("tup", u, v)), H(H_, T("tup", v, u)))
    for x in RES + DATA + ACTS + [MD, ET, POOL]:
        c = AND(c, NOT(eq(x, NONE)))
    return c


# the combinations of the first step; the second step has the fourth one. A step with many: 1, 2, 3, 5, 6, 7, 8
FEW, MANY = [0, 1, 2], [0, 1, 2, 4, 5, 6, 7]

# the second result proposes nothing, all others update the edge
SKIP = RES[1]


def took(rs, dry=False):
    return [r for r in rs if dry or r is not SKIP]


class StepRun:
    """abstract run of the model with scripted combinations and scripted results"""

    def __init__(self, prog, steps=(S1,), shape="plain", flags=None, attrs=None, results=None, stop=None, nested=None, which=FEW):
        self.prog = prog
        flags = {"parallel": FALSE, "apply_synchronous": FALSE, "needs_unapplied_actions": FALSE, "chunked": FALSE, **(flags or {})}
        tbl = {}
        acts = {}
        for k, r in enumerate(RES):
            _, t = sym_action("res%d" % (k + 1), enum(prog, TRA, "DO_NOTHING" if r is SKIP else "UPDATE_EDGE_DIRECTED"), (U, V), data=DATA[k])
            tbl.update(t)
        for s in (S1, S2):
            g = T("sym", "generator_of_" + s.args[0])
            tbl[(s, "generator")] = g
            tbl[(g, "chunked")] = flags["chunked"]
            for f in ("parallel", "apply_synchronous", "needs_unapplied_actions"):
                tbl[(s, f)] = flags[f]
            tbl[(s, "name")] = T("sym", "name_of_" + s.args[0])
        tbl[(MODEL, "pool")] = POOL if flags.get("pool", True) else NONE
        tbl.update(attrs or {})
        self.i = i = model_interp(prog, tbl, stop=stop, hooks=False)
        for r in RES:
            i.types[r] = TR
        for s in (S1, S2):
            i.types[s] = STEP
            i.types[T("sym", "generator_of_" + s.args[0])] = GENI
        i.types[L1] = LOGIC
        self.st = State()
        self.log = []
        self.results = results
        self.which = which
        self.shape = shape
        i.mcall_handlers["generate"] = self.on_generate
        i.mcall_handlers["process"] = self.on_process
        i.mcall_handlers["imap_unordered"] = self.on_map
        i.mcall_handlers["imap"] = self.on_map
        i.mcall_handlers["map"] = self.on_map
        i.ext_handlers["torch.multiprocessing.Pool"] = lambda it, args, kw, st, node: POOL

    def build(self, x, st):
        return self.i.new_list(st, [self.build(y, st) for y in x]) if isinstance(x, list) else x

    def on_generate(self, it, recv, args, kwargs, st, node):
        cs = [list(COMBO[k]) for k in self.which]
        # the generator of the second step yields other combinations
        if recv is T("sym", "generator_of_step2"):
            cs = [list(COMBO[3])]
        if self.shape == "chunked":
            n = 2 if len(cs) < 4 else 3
            cs = [cs[k : k + n] for k in range(0, len(cs), n)]
        return self.build(cs, st)

    def on_process(self, it, recv, args, kwargs, st, node):
        nodes = it.freeze(args[0] if args else kwargs["nodes"], st)
        k = None
        for n, c in enumerate(COMBO):
            if nodes is T("list", *[T("seg", (), G(1), "elem", x) for x in c]) or nodes is T("tup", *c):
                k = n
        seen = field(it, st, E_, u, v, "metadata")
        un = args[2] if len(args) > 2 else kwargs.get("unapplied_actions", NONE)
        it.event(st, "seen", recv, nodes, seen, it.freeze(un, st) if un is not None else NONE, node=node)
        if k is None:
            return None
        out = RES[k] if self.results is None else self.results[k]
        return self.build(out, st)

    def on_map(self, it, recv, args, kwargs, st, node):
        if recv is not POOL:
            return None
        out = it.new_list(st)
        for b, g, x in it.domain(args[1], st):
            if b:
                return None
            it.list_append(st, out, it.call(args[0], [x], {}, st, node))
        return out

    def run(self, fi, args):
        self.s = self.i.run(fi, args=args, self_val=MODEL, st=self.st, alive=res_care())
        return self.s


def seg_list(*xs):
    return T("list", *[T("seg", (), G(x[0]), "elem", x[1]) if isinstance(x, tuple) else T("seg", (), G(1), "elem", x) for x in xs])


def C08(ctx):
    p = ctx.prog
    fi = p.method(AM, "execute_pipeline_step")
    B2 = (FALSE, TRUE)
    for par in B2:
        for chunked in B2:
            if par is TRUE and chunked is TRUE:
                continue
            for sync in B2:
                for need in B2:
                    for apply in (TRUE, FALSE):
                        fl = {"parallel": par, "chunked": chunked, "apply_synchronous": sync, "needs_unapplied_actions": need}
                        nm = "+".join([k for k, x in fl.items() if x is TRUE] or ["default"]) + ("" if apply is TRUE else ", not applied")
                        ctx.guard("C08.run", nm, c08_one, ctx, fi, nm, fl, apply)
                        ctx.guard("C08.run", nm + ", seven combinations", c08_one, ctx, fi, nm + ", seven combinations", fl, apply, MANY)
    for shape, results in (("no result, list of results, result", [NONE, [RES[1], RES[3]], RES[2], NONE]),):
        for par in B2:
            for chunked in B2:
                if par is TRUE and chunked is TRUE:
                    continue
                fl = {"parallel": par, "chunked": chunked}
                nm = shape + (" (parallel)" if par is TRUE else " (chunked)" if chunked is TRUE else "")
                ctx.guard("C08.results", nm, c08_results, ctx, fi, nm, fl, results)
    ctx.guard("C08.pool", "missing pool", c08_pool, ctx, fi)
    ctx.guard("C08.pool", "pool initialisation", c08_init, ctx)


def c08_one(ctx, fi, nm, fl, apply, which=FEW):
    p = ctx.prog
    rs = [RES[k] for k in which]
    R = StepRun(p, shape="chunked" if fl["chunked"] is TRUE else "plain", flags=fl, which=which)
    s = R.run(fi, {"test_fn": S1, "apply_to_graph": apply})
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C08.run", nm, s.notes[0], fi.loc)
    care = res_care()
    no_raise(ctx, "C08.run", nm, s, care, fi.loc)
    ok = live(u, v)
    orig = pre_field(E_, u, v, "metadata")
    dry = apply is FALSE
    # every combination is processed exactly once, in order
    calls = [e for e in s.events if e.kind == "seen"]
    got = [e.data[1] for e in calls]
    want = [seg_list(*COMBO[k]) for k in which]
    tup = [T("tup", *COMBO[k]) for k in which]
    if got != want and got != tup:
        ctx.bad("C08.once", nm + ": every combination is processed exactly once, in order", "processed %s" % ", ".join(show(g)[:60] for g in got), calls[0].loc if calls else fi.loc)
        return
    ctx.hold("C08.once", nm + ": every combination is processed exactly once, in order", loc=fi.loc)
    sync = fl["apply_synchronous"] is TRUE and fl["parallel"] is FALSE and fl["chunked"] is FALSE
    need = fl["needs_unapplied_actions"] is TRUE and fl["parallel"] is FALSE and fl["chunked"] is FALSE
    for k, e in enumerate(calls):
        q, wit = cmp_bool(e.guard, 1, care)
        ctx.add("C08.once", "%s: combination %d always processed" % (nm, k + 1), VERDICT[q], wit if q != "eq" else "", e.loc)
        if fl["parallel"] is FALSE and fl["chunked"] is FALSE:
            done = [DATA[j] for j in which[:k] if RES[j] is not SKIP]
            exp = done[-1] if sync and done and not dry else orig
            q, wit = cmp_val(e.data[2], exp, AND(care, pre_pres(E_, u, v)))
            ctx.add("C08.visibility", "%s: combination %d sees %s" % (nm, k + 1, "all earlier results applied" if sync else "the graph as before the step"), VERDICT[q], wit if q != "eq" else "", e.loc)
        if need:
            exp = [seg_list(*(rs[:k] if not sync else []))] + ([NONE] if sync or not k else [])
            best = None
            for x in exp:
                q, wit = cmp_val(canon(e.data[3]), x, care)
                if best is None or q == "eq":
                    best = (q, wit)
            ctx.add("C08.unapplied", "%s: combination %d is given the results not yet applied" % (nm, k + 1), VERDICT[best[0]], best[1] if best[0] != "eq" else "", e.loc)
    alive = AND(care, s.state.alive)
    exp = orig if dry else DATA[which[-1]]
    check_state(ctx, "C08.applied", nm, R.i, s.state, {(u, v): with_(u, v, metadata=exp), (v, u): keep(v, u)}, alive, fi.loc)
    taken = [(1, r) for r in took(rs, dry)]
    returned_lists(ctx, "C08.returned", nm, R.i, s, taken, [(1, r) for r in rs], alive, fi.loc)


def c08_results(ctx, fi, nm, fl, results):
    R = StepRun(ctx.prog, shape="chunked" if fl["chunked"] is TRUE else "plain", flags=fl, results=results)
    s = R.run(fi, {"test_fn": S1, "apply_to_graph": TRUE})
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C08.results", nm, s.notes[0], fi.loc)
    care = res_care()
    no_raise(ctx, "C08.results", nm, s, care, fi.loc)
    order = [RES[1], RES[3], RES[2]]
    ok = live(u, v)
    returned_lists(ctx, "C08.results", nm, R.i, s, [(1, r) for r in took(order)], [(1, r) for r in order], AND(care, s.state.alive), fi.loc)


def c08_pool(ctx, fi):
    R = StepRun(ctx.prog, flags={"parallel": TRUE, "pool": False})
    s = R.run(fi, {"test_fn": S1, "apply_to_graph": TRUE})
    ctx.note_run(s)
    if s.notes:
        return ctx.unk("C08.pool", "parallel step without a pool", s.notes[0], fi.loc)
    calls = [e for e in s.events if e.kind == "seen"]
    bad = [r for r in s.raises if AND(r[0].alive, res_care()) and not str(s.interp.exc_class(r[1])).startswith("ext")]
    if bad:
        return ctx.bad("C08.pool", "parallel step without a pool", "leaves with %s" % s.interp.exc_class(bad[0][1]), bad[0][2])
    if len(calls) == 3:
        ctx.hold("C08.pool", "parallel step without a pool creates one", loc=fi.loc)
    else:
        ctx.unk("C08.pool", "parallel step without a pool", "processed %d combinations" % len(calls), fi.loc)


def c08_init(ctx):
    """a pool exists exactly when a step asks for parallel execution"""
    p = ctx.prog
    fi = p.method(AM, "__init__")
    for flags, want in (((FALSE, FALSE), False), ((TRUE, FALSE), True), ((FALSE, TRUE), True)):
        i = model_interp(p, {(S1, "parallel"): flags[0], (S2, "parallel"): flags[1]})
        i.types[S1] = i.types[S2] = STEP
        i.ext_handlers["torch.multiprocessing.Pool"] = lambda it, args, kw, st, node: POOL
        st = State()
        steps = i.new_list(st, [S1, S2])
        oa = i.on_attr
        i.on_attr = lambda st_, o, a: steps if (o is ALGO and a == "pipeline_steps") else oa(st_, o, a)
        s = i.run(fi, args={"algorithm": ALGO, "graph": NONE}, self_val=MODEL, st=st)
        ctx.note_run(s)
        nm = "steps %sparallel" % ("" if want else "not ")
        val = observe(i, s.state, "m.pool", {"m": MODEL})
        got = {x for g, x in cases_of(val)}
        if not want:
            q = "eq" if got == {NONE} else "diff" if got == {POOL} else "unk"
        else:
            q = "eq" if got == {POOL} else "diff" if got == {NONE} else "unk"
        ctx.add("C08.pool", "%s (%s)" % (nm, ",".join(show(f) for f in flags)), VERDICT[q], "" if q == "eq" else "pool is %s" % show(val)[:80], fi.loc)


# ---------------------------------------------------------------------------------------------- C09
AH = "causy.models.ActionHistoryStep"


def hist_rec(name, actions, proposed):
    return {"name": name, "actions": actions, "all_proposed_actions": proposed}


def C09(ctx):
    ctx.guard("C09.run", "pipeline", c09_run, ctx)
    ctx.guard("C09.run", "pipeline", c09_run, ctx, "nothing proposed", [NONE] * 8)
    ctx.guard("C09.run", "pipeline", c09_run, ctx, "nothing applied", [SKIP] * 8)


def c09_run(ctx, variant="", results=None):
    p = ctx.prog
    fi = p.method(AM, "execute_pipeline_steps")
    hist = T("attr", GR, "action_history")
    LH = T("sym", "history_of_logic1")
    for order in ((S1, L1, S2), (L1, S1), (S2, S1), (S1,), (L1,), (S1, S2, L1, S1, S2)):
        nm = " then ".join("logic step" if x is L1 else "step" for x in order) + (" (order %s)" % ",".join(x.args[0] for x in order))
        if variant:
            nm += ", " + variant
        R = StepRun(p, steps=order, stop=lambda f: f.name == "purge_soft_deleted_edges", results=results)
        i = R.i
        seen = []
        i.mcall_handlers["execute"] = lambda it, recv, args, kw, st, node: (it.event(st, "logic", recv, tuple(it.freeze(a, st) for a in args) + tuple(kw.values()), node=node), LH)[1]
        steps = i.new_list(R.st, list(order))
        oa = i.on_attr
        i.on_attr = lambda st_, o, a: steps if (o is MODEL and a == "pipeline_steps") else oa(st_, o, a)
        s = R.run(fi, {})
        ctx.note_run(s)
        if s.notes:
            ctx.unk("C09.run", nm, s.notes[0], fi.loc)
            continue
        care = res_care()
        no_raise(ctx, "C09.run", nm, s, care, fi.loc)
        lazy = [q for c, q in i.gens.values() if not c]
        ctx.require(not lazy, "C09.run", nm + ": the whole pipeline is driven", "the generator %s is never consumed" % (lazy[:1] or [""])[0], fi.loc)
        sc = [e for e in s.events if e.kind == "shortcircuit"]
        if sc:
            ctx.add("C09.run", nm + ": the whole pipeline is driven", VIOLATED if imprecise_term(sc[0].data[0]) is None else UNDECIDED, "execution stops early when %s" % show(sc[0].data[0])[:100], sc[0].loc)
        # order of work: steps in order, a purge after each
        seq = []
        for e in s.events:
            if e.kind == "seen":
                if not seq or seq[-1] != e.data[0]:
                    seq.append(e.data[0])
            elif e.kind == "logic":
                seq.append(e.data[0])
                if list(e.data[1]) != [GR, MODEL]:
                    ctx.bad("C09.order", nm + ": logic step receives the graph and the model", "called with %s" % ", ".join(show(a)[:60] for a in e.data[1]), e.loc)
            elif e.kind == "call" and e.data[0].endswith(".purge_soft_deleted_edges"):
                if AND(e.guard, care) == care and (not seq or seq[-1] != "purge"):
                    seq.append("purge")
        want = []
        for x in order:
            want += [x, "purge"]
        if seq and seq[0] == "purge":
            seq = seq[1:]
        sh = lambda q: ", ".join(x if isinstance(x, str) else show(x) for x in q)
        ctx.require([x for x in seq if x != "purge"] == list(order), "C09.order", nm + ": steps run once each, in order", "ran %s" % sh(seq), fi.loc)
        ctx.require([x for x in seq if x != "purge"] != list(order) or seq == want, "C09.purge", nm + ": soft deleted edges are purged after every step", "ran %s" % sh(seq), fi.loc)
        # history
        ob = i.obj(s.state, hist)
        segs = []
        for sg in (ob.segs if ob is not None else ()):
            b, g, k, val = sg.args if isinstance(sg, Term) else (sg.binders, sg.g, sg.kind, sg.v)
            g = g.n if hasattr(g, "n") else g
            if k == "elem" and not b:
                segs.append((g, val))
        if len(segs) != len(order):
            ctx.bad("C09.history", nm + ": one history entry per step, in order", "%d entries: %s" % (len(segs), "; ".join(show(i.freeze(x[1], s.state))[:80] for x in segs)), fi.loc)
            continue
        ok = live(u, v)
        for x, (g, val) in zip(order, segs):
            what = "%s: history entry of %s" % (nm, x.args[0])
            q, wit = cmp_bool(g, 1, care)
            if q != "eq":
                ctx.add("C09.history", what, VERDICT[q], "missing when " + wit, fi.loc)
                continue
            if x is L1:
                ctx.add("C09.history", what, HOLDS if i.freeze(val, s.state) is LH else UNDECIDED if imprecise_term(val) is not None else VIOLATED, "" if val is LH else "is %s" % show(i.freeze(val, s.state))[:100], fi.loc)
                continue
            rs = RES[:3] if x is S1 else RES[3:4]
            if results is not None:
                rs = [r for r in results[: len(rs)] if r is not NONE]
            check_entry(ctx, "C09.history", what, i, s.state, val, T("sym", "name_of_" + x.args[0]), [(1, r) for r in took(rs)], [(1, r) for r in rs], None, AND(care, s.state.alive), fi.loc)
        r = s.frz()
        ctx.add("C09.history", nm + ": the history is returned", HOLDS if s.ret is hist else UNDECIDED, "", fi.loc)


def check_entry(ctx, rule, what, i, st, val, name, taken, proposed, steps, care, loc):
    for f, want in (("name", name), ("actions", taken), ("all_proposed_actions", proposed)):
        if want is None:
            continue
        got = canon(i.freeze(i.get_attr(st, val, f, None), st))
        exp = want if isinstance(want, Term) else seg_list(*want)
        if isinstance(want, list) and not want and all(x in (NONE,) for _, x in cases_of(got)):
            continue
        q, wit = cmp_val(got, exp, care)
        ctx.add(rule, "%s: %s" % (what, f), VERDICT[q], "" if q == "eq" else wit, loc)


# ---------------------------------------------------------------------------------------------- C10
def C10(ctx):
    p = ctx.prog
    ctx.guard("C10.loop", "loop", c10_loop, ctx)
    ctx.guard("C10.together", "apply together", c10_together, ctx)
    ctx.guard("C10.exit", "exit condition", c10_exit, ctx)


def logic_run(ctx, cls, iters=None):
    p = ctx.prog
    fi = p.method(cls, "execute")
    LS = T("sym", "logic_step")
    EX = T("sym", "exit_condition")
    R = StepRun(p, steps=(S1, S2))
    i = R.i
    i.types[LS] = cls
    i.types[EX] = EXITC
    steps = i.new_list(R.st, [S1, S2])
    tbl = {(LS, "pipeline_steps"): steps, (LS, "exit_condition"): EX, (LS, "name"): T("sym", "name_of_logic_step")}
    oa = i.on_attr
    i.on_attr = lambda st_, o, a: tbl.get((o, a)) or oa(st_, o, a)

    def on_check(it, recv, args, kw, st, node):
        names = ["graph", "graph_model_instance_", "actions_taken", "iteration"]
        d = dict(zip(names, args))
        d.update(kw)
        it.event(st, "check", *[it.freeze(d.get(n, T("missing")), st) for n in names], node=node)
        n = it.freeze(d["iteration"], st)
        if n.op != "const":
            return None
        return TRUE if cval(n) >= iters else FALSE

    if iters is not None:
        i.mcall_handlers["check"] = on_check
    s = i.run(fi, args={"graph": GR, "graph_model_instance_": MODEL}, self_val=LS, st=R.st, alive=res_care())
    ctx.note_run(s)
    return fi, R, i, s, LS


def sub_entries(i, st, ret):
    steps = i.get_attr(st, ret, "steps", None)
    out = []
    ob = i.obj(st, steps) if steps.op == "ref" else None
    if ob is None:
        return None
    for sg in ob.segs:
        b, g, k, val = sg.args if isinstance(sg, Term) else (sg.binders, sg.g, sg.kind, sg.v)
        if b or k != "elem":
            return None
        out.append(val)
    return out


def c10_loop(ctx):
    ok = live(u, v)
    care = res_care()
    order = RES[:4]
    for n in (0, 1, 2, 3, 6):
        fi, R, i, s, LS = logic_run(ctx, "causy.common_pipeline_steps.logic.Loop", n)
        nm = "loop ending after %d iterations" % n
        if s.notes:
            ctx.unk("C10.loop", nm, s.notes[0], fi.loc)
            continue
        no_raise(ctx, "C10.loop", nm, s, care, fi.loc)
        calls = [e.data[0] for e in s.events if e.kind == "seen"]
        want = ([S1] * 3 + [S2]) * n
        ctx.require(calls == want, "C10.loop", nm + ": all steps run once per iteration, in order", "ran %s" % ", ".join(show(x) for x in calls), fi.loc)
        chk = [e for e in s.events if e.kind == "check"]
        its = [e.data[3] for e in chk]
        ctx.require(its == [const(k) for k in range(n + 1)], "C10.loop", nm + ": the exit condition is asked once before every iteration", "asked with iteration %s" % ", ".join(show(x) for x in its), fi.loc)
        # position of the checks among the steps
        pos = [("c" if e.kind == "check" else "s") for e in s.events if e.kind in ("check", "seen")]
        ctx.require("".join(pos) == "c" + "ssssc" * n, "C10.loop", nm + ": the condition is asked between iterations", "".join(pos), fi.loc)
        for k, e in enumerate(chk):
            ctx.require(e.data[0] is GR and e.data[1] is MODEL, "C10.loop", "%s: check %d receives graph and model" % (nm, k), "got %s, %s" % (show(e.data[0])[:60], show(e.data[1])[:60]), e.loc)
            if k:
                q, wit = cmp_val(canon(e.data[2]), seg_list(*took(order)), care)
                ctx.add("C10.loop", "%s: check %d receives the actions taken in the last iteration" % (nm, k), VERDICT[q], wit if q != "eq" else "", e.loc)
        ents = sub_entries(i, s.state, s.ret)
        if ents is None:
            ctx.unk("C10.history", nm, "sub steps not resolved", fi.loc)
            continue
        if len(ents) != 2 * n:
            ctx.bad("C10.history", nm + ": one sub entry per executed step", "%d entries" % len(ents), fi.loc)
            continue
        for k, val in enumerate(ents):
            x = (S1, S2)[k % 2]
            rs = RES[:3] if x is S1 else RES[3:4]
            check_entry(ctx, "C10.history", "%s: entry %d" % (nm, k), i, s.state, val, T("sym", "name_of_" + x.args[0]), [(1, r) for r in took(rs)], [(1, r) for r in rs], None, AND(care, s.state.alive), fi.loc)
        check_entry(ctx, "C10.history", nm + ": own entry", i, s.state, s.ret, T("sym", "name_of_logic_step"), None, None, None, AND(care, s.state.alive), fi.loc)


def c10_together(ctx):
    ok = live(u, v)
    care = res_care()
    fi, R, i, s, LS = logic_run(ctx, "causy.common_pipeline_steps.logic.ApplyActionsTogether")
    nm = "steps whose actions are applied together"
    if s.notes:
        return ctx.unk("C10.together", nm, s.notes[0], fi.loc)
    no_raise(ctx, "C10.together", nm, s, care, fi.loc)
    calls = [e for e in s.events if e.kind == "seen"]
    ctx.require([e.data[0] for e in calls] == [S1] * 3 + [S2], "C10.together", nm + ": every step runs once, in order", "ran %s" % ", ".join(show(e.data[0]) for e in calls), fi.loc)
    orig = pre_field(E_, u, v, "metadata")
    for k, e in enumerate(calls):
        q, wit = cmp_val(e.data[2], orig, AND(care, pre_pres(E_, u, v)))
        ctx.add("C10.together", "%s: combination %d sees the unchanged graph" % (nm, k + 1), VERDICT[q], wit if q != "eq" else "", e.loc)
    check_state(ctx, "C10.together", nm + ": all actions applied at the end, in order", i, s.state, {(u, v): with_(u, v, metadata=DATA[3]), (v, u): keep(v, u)}, AND(care, s.state.alive), fi.loc)
    o = i.obj(s.state, T("idx", H_, T("tup", u, v)))
    hs = []
    for sg in (o.segs if o is not None else ()):
        b, g, k, val = sg.args if isinstance(sg, Term) else (sg.binders, sg.g, sg.kind, sg.v)
        if k == "elem" and not b:
            hs.append((g.n if hasattr(g, "n") else g, val))
    q, wit = cmp_val(canon(seg_list(*[h for h in hs if AND(h[0], care)])), seg_list(*took(RES[:4])), AND(care, s.state.alive, H(H_, T("tup", u, v))))
    ctx.add("C10.together", nm + ": every action is applied exactly once", VERDICT[q], wit if q != "eq" else "", fi.loc)
    ents = sub_entries(i, s.state, s.ret)
    if ents is None or len(ents) != 2:
        return ctx.add("C10.history", nm + ": one sub entry per step", UNDECIDED if ents is None else VIOLATED, "", fi.loc)
    for k, val in enumerate(ents):
        x = (S1, S2)[k]
        rs = RES[:3] if x is S1 else RES[3:4]
        check_entry(ctx, "C10.history", "%s: entry %d" % (nm, k), i, s.state, val, T("sym", "name_of_" + x.args[0]), None, [(1, r) for r in rs], None, AND(care, s.state.alive), fi.loc)
    check_entry(ctx, "C10.history", nm + ": own entry", i, s.state, s.ret, T("sym", "name_of_logic_step"), None, None, None, AND(care, s.state.alive), fi.loc)


def c10_exit(ctx):
    p = ctx.prog
    cls = "causy.common_pipeline_steps.exit_conditions.ExitOnNoActions"
    fi = p.method(cls, "check")
    names = [a for a in method_params(fi) if a != "self"]
    for n in (0, 1, 2, 7):
        for k, acts in (("no action", []), ("one action", [RES[0]]), ("three actions", RES[:3])):
            i = model_interp(p)
            st = State()
            s = i.run(fi, args={names[0]: GR, names[1]: MODEL, names[2]: i.new_list(st, acts) if n else NONE, names[3]: const(n)}, self_val=T("sym", "exit"), st=st)
            ctx.note_run(s)
            nm = "iteration %d after %s" % (n, k)
            no_raise(ctx, "C10.exit", nm, s, care_set(), fi.loc)
            q, wit = cmp_bool(truth(s.frz()), 1 if n and not acts else 0, s.state.alive)
            ctx.add("C10.exit", nm, VERDICT[q], "" if q == "eq" else "answers %s" % show(s.frz())[:60], fi.loc)
