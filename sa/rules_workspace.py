"""C23 stored results of experiments, C24 workspace commands, C25 re-execution of experiments, C26 the HTTP API."""
from .rules_variables import *

WC, SV, SE = "causy.workspaces.cli.", "causy.ui.server.", "causy.serialization."
WSM = "causy.workspaces.models."
DIG = [T("sym", "time%d" % n) for n in range(8)]
WORD = [T("sym", "word%d" % n) for n in range(2)]
WSTEXT, WSFILE = T("sym", "workspace_text"), "workspace.yml"


def intof(d):
    return T("call", "int", (d,))


def fname(*parts):
    out = []
    for x in parts:
        out.append(const(x) if isinstance(x, str) else x)
    return T("fstr", *out) if len(out) > 1 or out[0].op != "const" else out[0]


class Scene:
    """a workspace with experiments and a directory with files"""

    def __init__(self, p, experiments, files=(), rank=None, variables=None, stored="fresh", opened_fails=False):
        self.p = p
        i = self.i = var_interp(p)
        st = self.st = State()
        for d in DIG:
            i.strclass[d] = "digits"
            i.types[d] = "builtins.str"
        for w in WORD:
            i.strclass[w] = "word"
            i.types[w] = "builtins.str"
        for n, d in enumerate(rank or DIG):
            i.rank[d] = n
        self.pipes = {n: (T("sym", "type_of_" + n), const("reference of " + n)) for n in ("pipe1", "pipe2")}
        self.loaders = {n: const("reference of " + n) for n in ("data1", "data2")}
        ref = lambda t, r: Inst("causy.models.AlgorithmReference", type=t, reference=r)
        self.experiments = experiments
        exps = {n: Inst(WSM + "Experiment", pipeline=const(e[0]), dataloader=const(e[1]), variables=e[2]) for n, e in experiments.items()}
        self.ws = build(i, st, Inst(WSM + "Workspace", name=const("workspace"), author=const("author"), pipelines={n: ref(*x) for n, x in self.pipes.items()}, dataloaders={n: Inst("causy.data_loader.DataLoaderReference", type=T("sym", "type_of_" + n), reference=x, options=T("sym", "options_of_" + n)) for n, x in self.loaders.items()}, experiments=exps))
        self.files = list(files)
        self.opened, self.removed, self.written, self.saved, self.other = [], [], [], [], []
        self.docs = {}
        self.algs = {}
        self.models = {}
        self.setup()

    def setup(self):
        i, st = self.i, self.st
        stop = {SE + "load_algorithm_by_reference", "causy.data_loader.load_data_loader", "causy.graph_model.graph_model_factory", "causy.graph_utils.hash_dictionary", WC + "write_to_workspace", WC + "_create_pipeline", WC + "_create_experiment", WC + "_create_data_loader"}
        i.stop = lambda fi: fi.qual in stop
        i.gbind[("causy.ui.server", "WORKSPACE")] = self.ws
        i.ext_handlers["os.listdir"] = lambda it, args, kw, s, n: it.new_list(s, self.files)
        i.ext_handlers["glob.glob"] = self.glob
        i.ext_handlers["os.remove"] = i.ext_handlers["os.unlink"] = self.remove
        i.ext_handlers["builtins.open"] = self.open
        i.ext_handlers["json.load"] = i.ext_handlers["json.loads"] = self.load
        i.ext_handlers["pydantic_yaml.parse_yaml_raw_as"] = lambda it, args, kw, s, n: self.ws
        i.ext_handlers["os.path.exists"] = i.ext_handlers["os.path.isfile"] = lambda it, args, kw, s, n: TRUE if any(x.op == "const" and cval(x) == WSFILE for x in subterms(it.freeze(args[0], s))) else None
        i.ext_handlers["os.path.join"] = lambda it, args, kw, s, n: T("call", "os.path.join", tuple(it.freeze(a, s) for a in args))
        i.ext_handlers["os.getcwd"] = lambda it, args, kw, s, n: T("sym", "cwd")
        i.mcall_handlers["read"] = lambda it, recv, args, kw, s, n: T("call", "read", (recv.args[0] if recv.op == "enter" else recv,)) if self.is_file(recv) else None
        i.mcall_handlers["write"] = self.write
        i.ext_handlers["json.dump"] = lambda it, args, kw, s, n: self.write(it, args[1], [T("call", "json.dumps", (it.freeze(args[0], s),), tuple(sorted((k, it.freeze(v, s)) for k, v in kw.items())))], {}, s, n)
        i.mcall_handlers["validate_python"] = self.validate
        i.mcall_handlers["execute_pipeline_step_with_progress"] = lambda it, recv, args, kw, s, n: it.new_list(s, [build(it, s, {"step": T("sym", "s%d" % k), "previous_duration": T("sym", "d%d" % k)}) for k in range(2)])
        i.call_handlers[SE + "load_algorithm_by_reference"] = self.algorithm
        i.call_handlers["causy.data_loader.load_data_loader"] = self.loader
        i.call_handlers["causy.graph_model.graph_model_factory"] = self.factory
        i.call_handlers[WC + "write_to_workspace"] = lambda it, fi, args, s, node: self.wrote(it, args, s)

    def wrote(self, it, args, s):
        self.written.append((s.alive, args[0]))
        return NONE

    def is_file(self, t):
        if t.op == "enter":
            t = t.args[0]
        return t.op == "call" and t.args[0] == "file"

    def open(self, it, args, kw, s, node):
        f = it.freeze(args[0] if args else kw["file"], s)
        mode = it.freeze(args[1] if len(args) > 1 else kw.get("mode", const("r")), s)
        self.opened.append((s.alive, f, mode, node))
        return T("call", "file", (f, mode))

    def write(self, it, recv, args, kw, s, node):
        if not self.is_file(recv):
            return None
        t = recv.args[0] if recv.op == "enter" else recv
        self.saved.append((s.alive, t.args[1][0], it.freeze(args[0], s)))
        return NONE

    def remove(self, it, args, kw, s, node):
        self.removed.append((s.alive, it.freeze(args[0], s), node))
        return NONE

    def glob(self, it, args, kw, s, node):
        import fnmatch

        p = it.enc(it.freeze(args[0], s))
        if p is None:
            return None
        return it.new_list(s, [f for f in self.files if fnmatch.fnmatchcase(it.enc(f), p)])

    def load(self, it, args, kw, s, node):
        t = it.freeze(args[0], s)
        if t.op == "call" and t.args[0] == "read":
            t = t.args[1][0]
        if t.op == "enter":
            t = t.args[0]
        if not self.is_file(t):
            return None
        f = t.args[1][0]
        if f not in self.docs:
            n = len(self.docs)
            h = lambda k: T("sym", "%s_in_%s" % (k, show(f)))
            self.docs[f] = {k: h(k) for k in ("algorithm_hash", "data_loader_hash", "variables_hash")}
            self.docs[f].update({"created_at": h("created_at"), "variables": h("variables")})
        d = dict(self.docs[f])
        d.update({"algorithm": {"reference": T("sym", "stored_reference"), "type": T("sym", "stored_type")}, "nodes": {}, "edges": [], "action_history": []})
        return build(it, s, d)

    def validate(self, it, recv, args, kw, s, node):
        if not (recv.op == "call" and recv.args[0] == "pydantic.TypeAdapter" and recv.args[1][0].op == "cls") or args[0].op != "ref":
            return None
        o = it.obj(s, args[0])
        if o.kind != "dict" or not all(is_const(k) and pr == 1 for k, pr, v in o.cells):
            return None
        return it.instantiate(recv.args[1][0].args[0], [], {cval(k): v for k, pr, v in o.cells}, s, node)

    def algorithm(self, it, fi, args, s, node):
        for n, (t, r) in self.pipes.items():
            if args[0] is t and args[1] is r:
                if n not in self.algs:
                    vs = [Inst(VR + "FloatVariable", name=const("x"), value=T("sym", "default_x_of_" + n), choices=NONE), Inst(VR + "FloatVariable", name=const("y"), value=T("sym", "default_y_of_" + n), choices=NONE)]
                    for v in vs:
                        it.types[v.fields["value"]] = "builtins.float"
                    self.algs[n] = build(it, s, Inst("causy.models.Algorithm", name=const(n), pipeline_steps=[], edge_types=[], extensions=NONE, variables=vs, pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
                return self.algs[n]
        self.other.append("loads the algorithm %s %s" % (show(args[0])[:60], show(args[1])[:60]))
        return None

    def loader(self, it, fi, args, s, node):
        fields = dict(args[0].args[1]) if args[0].op == "rec" else {}
        for n, x in self.loaders.items():
            if fields.get("reference") is x and fields.get("type") is T("sym", "type_of_" + n) and fields.get("options") is T("sym", "options_of_" + n):
                return T("sym", "loader_" + n)
        return None

    def factory(self, it, fi, args, s, node):
        n = next((n for n, a in self.algs.items() if it.freeze(a, s) is args[0]), None)
        if n is None:
            return None
        given = args[1] if len(args) > 1 else NONE
        vals = {"x": T("sym", "default_x_of_" + n), "y": T("sym", "default_y_of_" + n)}
        if given is not NONE:
            d = self.dict_of(given)
            if d is None:
                return None
            vals.update(d)
        key = (n, tuple(sorted(vals.items(), key=lambda x: x[0])))
        k = "model_%s_%d" % (n, len(self.models)) if key not in self.models else self.models[key].args[0]
        m = self.models.setdefault(key, T("sym", k))
        it.ext_handlers["stub." + k] = lambda it_, a, kw, s_, n_: m
        return T("ext", "stub." + k)

    @staticmethod
    def dict_of(t):
        if t.op == "dict" and t.args[0] is NONE and not t.args[2] and all(is_const(c[0]) and getattr(c[1], "n", c[1]) == 1 for c in t.args[1]):
            return {cval(c[0]): c[2] for c in t.args[1]}
        return None

    def guard_of(self, lst, f):
        g = 0
        for x in lst:
            if x[1] is f:
                g = OR(g, x[0])
        return g

    def run(self, fi, **args):
        self.s = self.i.run(fi, args=args, st=self.st)
        return self.s

    def settled(self, g):
        """no external failures, and the workspace file can be read"""
        for a in atoms_of(g):
            if a.op == "exc":
                g = cofactor(g, a, 0)
            elif a.op == "eq" and any(x.op == "call" and x.args[0] == "read" for x in a.args) and NONE in a.args:
                g = cofactor(g, a, 0)
        return g

    def raises(self):
        return [(self.settled(r[0].alive), r[1], r[2]) for r in self.s.raises if self.settled(r[0].alive)]


GIVEN = T("sym", "given_x")
EXPS = {"exp": ("pipe1", "data1", {"x": GIVEN}), "exp_b": ("pipe2", "data2", {})}
RES = lambda name, d: fname(name + "_", d, ".json")
FOREIGN = {
    "results of an experiment whose name starts with the name": fname("exp_b_", DIG[5], ".json"),
    "results of an experiment whose name ends with the name": fname("other_exp_", DIG[5], ".json"),
    "results of an experiment whose name continues the name": fname("expx_", DIG[5], ".json"),
    "a note": fname("exp_", WORD[0], ".json"),
    "a numbered note": fname("exp_", WORD[0], "_", DIG[5], ".json"),
    "a file of another type": fname("exp_", DIG[5], ".txt"),
    "a copy of a result": fname("exp_", DIG[1], ".json.bak"),
    "a file with the time of a result": fname("exp_", DIG[1], ".bak"),
    "a file with the time of a result and no extension": fname("exp_", DIG[0]),
    "a result of another experiment with the same time": fname("exp_b_", DIG[0], ".json"),
    "a file without extension": fname("exp_", DIG[5]),
    "a copy": fname("exp_", DIG[5], ".json.bak"),
    "the workspace": const("workspace.yml"),
    "a file of the same name": const("exp.json"),
}


def scenes():
    """directories: every numeric order of three results, and other files next to two results"""
    for order in permutations(range(3)):
        yield "results in order %s" % "".join(str(x) for x in order), [RES("exp", DIG[n]) for n in order], [DIG[2], DIG[1], DIG[0]]
    yield "no results", [], []
    yield "one result", [RES("exp", DIG[0])], [DIG[0]]
    for what, f in FOREIGN.items():
        yield "next to " + what, [RES("exp", DIG[0]), f, RES("exp", DIG[1])], [DIG[1], DIG[0]]
        yield "behind " + what, [f, RES("exp", DIG[1]), RES("exp", DIG[0])], [DIG[1], DIG[0]]


def first_note(ctx, sc, rule, nm, fi):
    ctx.note_run(sc.s)
    if sc.s.notes:
        ctx.unk(rule, nm, sc.s.notes[0], fi.loc)
        return True
    return False


def status_of(sc, r):
    """status code of an HTTPException"""
    t = sc.i.freeze(r, sc.s.state)
    if t.op == "call" and t.args[0].endswith("HTTPException"):
        a = list(t.args[1])
        kw = dict(t.args[2]) if len(t.args) > 2 else {}
        c = a[0] if a else kw.get("status_code")
        return cval(c) if c is not None and is_const(c) else None
    if t.op == "exc" and str(t.args[0]).endswith("HTTPException") and len(t.args) > 1:
        return cval(t.args[1]) if is_const(t.args[1]) else None
    return None


# ---------------------------------------------------------------------------------------------- C23
def C23(ctx):
    p = ctx.prog
    for nm, files, want in scenes():
        ctx.guard("C23.versions", nm, c23_versions, ctx, nm, files, want)
        ctx.guard("C23.latest", nm, c23_latest, ctx, nm, files, want)
        ctx.guard("C23.version", nm, c23_version, ctx, nm, files, want)
        for cmd in ("clear_experiment", "remove_experiment"):
            ctx.guard("C23.clear", nm, c23_clear, ctx, nm, files, want, cmd)
    ctx.guard("C23.save", "execute", c23_save, ctx)


def c23_versions(ctx, nm, files, want):
    fi = ctx.prog.func(SV + "get_experiments")
    sc = Scene(ctx.prog, EXPS, files)
    s = sc.run(fi)
    nm = "listed versions, " + nm
    if first_note(ctx, sc, "C23.versions", nm, fi):
        return
    if sc.raises():
        return ctx.bad("C23.versions", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    for k, (e, vs) in enumerate((("exp", want), ("exp_b", [d for d in DIG if RES("exp_b", d) in files]))):
        if k and nm.endswith("a numbered note"):
            continue
        got = observe(sc.i, s.state, "[x.version for x in r[%d].versions]" % k, {"r": s.ret})
        items, why = concrete(got, s.state.alive)
        if items is None:
            ctx.unk("C23.versions", nm, why, fi.loc)
            continue
        ok = items == [intof(d) for d in vs]
        ctx.add("C23.versions", "%s: the versions of %s are exactly its results, newest first" % (nm, e), HOLDS if ok else VIOLATED if all(sc.i.num_rank(x) is not None for x in items) else UNDECIDED, "" if ok else "lists %s" % [show(x) for x in items], fi.loc)
        q, wit = cmp_val(observe(sc.i, s.state, "r[%d].name" % k, {"r": s.ret}), const(e), s.state.alive)
        ctx.add("C23.versions", "%s: %s is listed under its name" % (nm, e), VERDICT[q], wit if q != "eq" else "", fi.loc)


def result_files(sc):
    return [(sc.settled(a), f, m, n) for a, f, m, n in sc.opened if sc.settled(a) and not (f.op == "call" or f == const(WSFILE))]


def c23_latest(ctx, nm, files, want):
    fi = ctx.prog.func(SV + "get_latest_experiment")
    sc = Scene(ctx.prog, EXPS, files)
    s = sc.run(fi, **{fi.node.args.args[0].arg: const("exp")})
    nm = "latest result, " + nm
    if first_note(ctx, sc, "C23.latest", nm, fi):
        return
    fs = result_files(sc)
    if not want:
        st = [status_of(sc, r[1]) for r in sc.raises()]
        ok = not fs and sc.settled(s.state.alive) == 0 and st and all(x == 400 for x in st)
        return ctx.add("C23.latest", nm + ": there is none", HOLDS if ok else VIOLATED if None not in st else UNDECIDED, "" if ok else "opens %s, answers %s" % ([show(f[1]) for f in fs], st), fi.loc)
    if sc.raises():
        return ctx.bad("C23.latest", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    exp = RES("exp", want[0])
    ok = fs and all(f[1] is exp for f in fs)
    ctx.add("C23.latest", nm + ": the newest result is read", HOLDS if ok else VIOLATED if all(sc.i.enc(f[1]) is not None for f in fs) else UNDECIDED, "" if ok else "opens %s" % [show(f[1]) for f in fs], fi.loc)
    answer(ctx, "C23.latest", nm, sc, fi, exp, want[0])


def answer(ctx, rule, nm, sc, fi, f, d):
    s = sc.s
    q, wit = cmp_val(observe(sc.i, s.state, "r.version", {"r": s.ret}), intof(d), sc.settled(s.state.alive))
    ctx.add(rule, nm + ": the answer has its version", VERDICT[q], wit if q != "eq" else "", fi.loc)
    if f in sc.docs:
        for k in ("algorithm_hash", "data_loader_hash", "variables_hash", "variables"):
            q, wit = cmp_val(observe(sc.i, s.state, "r." + k, {"r": s.ret}), sc.docs[f][k], sc.settled(s.state.alive))
            ctx.add(rule, nm + ": the answer has its " + k, VERDICT[q], wit if q != "eq" else "", fi.loc)


def c23_version(ctx, nm, files, want):
    fi = ctx.prog.func(SV + "get_experiment")
    for v in DIG[:3] + [DIG[5]]:
        sc = Scene(ctx.prog, EXPS, files)
        ps = [a.arg for a in fi.node.args.args]
        s = sc.run(fi, **{ps[0]: const("exp"), ps[1]: intof(v)})
        n2 = "version %s, %s" % (v.args[0], nm)
        if first_note(ctx, sc, "C23.version", n2, fi):
            continue
        fs = result_files(sc)
        if v not in want:
            st = [status_of(sc, r[1]) for r in sc.raises()]
            ok = not fs and sc.settled(s.state.alive) == 0 and st and all(x == 400 for x in st)
            ctx.add("C23.version", n2 + ": does not exist", HOLDS if ok else VIOLATED if None not in st else UNDECIDED, "" if ok else "opens %s, answers %s" % ([show(f[1]) for f in fs], st), fi.loc)
            continue
        if sc.raises():
            ctx.bad("C23.version", n2, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
            continue
        exp = RES("exp", v)
        ok = fs and all(f[1] is exp for f in fs)
        ctx.add("C23.version", n2 + ": that result is read", HOLDS if ok else VIOLATED if all(sc.i.enc(f[1]) is not None for f in fs) else UNDECIDED, "" if ok else "opens %s" % [show(f[1]) for f in fs], fi.loc)
        answer(ctx, "C23.version", n2, sc, fi, exp, v)


def c23_clear(ctx, nm, files, want, cmd):
    fi = ctx.prog.func(WC + cmd)
    sc = Scene(ctx.prog, EXPS, files)
    s = sc.run(fi, **{fi.node.args.args[0].arg: const("exp")})
    nm = "%s, %s" % (cmd, nm)
    if first_note(ctx, sc, "C23.clear", nm, fi):
        return
    if sc.raises():
        return ctx.bad("C23.clear", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    got = [f for a, f, n in sc.removed if sc.settled(a)]
    exp = {RES("exp", d) for d in want}
    ok = set(got) == exp and len(got) == len(exp) and all(sc.settled(a) == 1 for a, f, n in sc.removed if sc.settled(a))
    ctx.add("C23.clear", nm + ": exactly the results of the experiment are deleted", HOLDS if ok else VIOLATED if all(sc.i.enc(f) is not None for f in got) else UNDECIDED, "" if ok else "deletes %s" % [show(f) for f in got], fi.loc)


def saved_results(sc):
    """(guard, file, Result record) of each written result"""
    out = []
    for a, f, t in sc.saved:
        recs = [x for x in subterms(t) if x.op == "rec" and x.args[0] == "causy.models.Result"]
        out.append((sc.settled(a), f, recs[0] if recs else None, t))
    return [x for x in out if x[0]]


def c23_save(ctx):
    fi = ctx.prog.func(WC + "execute")
    ps = [a.arg for a in fi.node.args.args]
    for e in ("exp", "exp_b"):
        sc = Scene(ctx.prog, EXPS, [])
        sc.i.types[GIVEN] = "builtins.float"
        s = sc.run(fi, **{ps[0]: const(e), ps[1]: FALSE})
        nm = "execute %s" % e
        if first_note(ctx, sc, "C23.save", nm, fi):
            continue
        if sc.raises():
            ctx.bad("C23.save", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
            continue
        rs = saved_results(sc)
        if len(rs) != 1 or rs[0][2] is None:
            ctx.add("C23.save", nm + ": one result is stored", VIOLATED if not rs or len(rs) > 1 else UNDECIDED, "writes %d" % len(rs), fi.loc)
            continue
        g, f, r, t = rs[0]
        fields = dict(r.args[1]) if isinstance(r.args[1], (tuple, list)) else {}
        created = fields.get("created_at")
        ctx.add("C23.save", nm + ": one result is stored", HOLDS if g == 1 else VIOLATED, "only when %s" % show(B(g))[:100] if g != 1 else "", fi.loc)
        stamp = [x for x in subterms(f) if x.op == "call" and x.args[0] == "int"]
        shape = f.op == "fstr" and len(f.args) == 3 and f.args[0] == const(e + "_") and f.args[2] == const(".json") and stamp and f.args[1] is stamp[0]
        tcall = stamp[0].args[1][0] if stamp else None
        whole = tcall is not None and (tcall.op == "call" and tcall.args[0].endswith("timestamp") or tcall.op == "mcall" and tcall.args[1] == "timestamp")
        ctx.add("C23.save", nm + ": under its name and the second it was created", HOLDS if shape and whole else VIOLATED if not imprecise_term(f) else UNDECIDED, "" if shape and whole else show(f)[:120], fi.loc)
        ok = t.op == "call" and t.args[0] == "json.dumps"
        ctx.add("C23.save", nm + ": as JSON", HOLDS if ok else UNDECIDED, "" if ok else show(t)[:80], fi.loc)


# ---------------------------------------------------------------------------------------------- C25
def C25(ctx):
    for mode in ("all", "all, forced", "one", "unknown"):
        for stored in ("stored", "new"):
            ctx.guard("C25.rerun", mode, c25_run, ctx, mode, stored)
    ctx.guard("C25.rerun", "experiment without variables", c25_run, ctx, "all", "stored", True)
    ctx.guard("C25.fingerprint", "fingerprints", c25_fingerprints, ctx)


def c25_run(ctx, mode, stored, null=False):
    fi = ctx.prog.func(WC + "execute")
    ps = [a.arg for a in fi.node.args.args]
    files = [RES("exp", DIG[0]), RES("exp_b", DIG[2]), RES("exp", DIG[1]), RES("exp_b", DIG[3])] if stored == "stored" else [RES("other", DIG[0])]
    exps = dict(EXPS)
    if null:
        exps["exp_b"] = ("pipe2", "data2", NONE)
    sc = Scene(ctx.prog, exps, files)
    sc.i.types[GIVEN] = "builtins.float"
    name = {"one": const("exp"), "unknown": const("missing")}.get(mode, NONE)
    s = sc.run(fi, **{ps[0]: name, ps[1]: TRUE if mode.endswith("forced") else FALSE})
    nm = "execute %s (%s%s)" % (mode, stored, ", no variables" if null else "")
    if first_note(ctx, sc, "C25.rerun", nm, fi):
        return
    if sc.raises():
        return ctx.bad("C25.rerun", nm + ": completes", "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    rs = saved_results(sc)
    for e, pipe, data, newest in (("exp", "pipe1", "data1", DIG[1]), ("exp_b", "pipe2", "data2", DIG[3])):
        vals = {"x": T("sym", "default_x_of_" + pipe), "y": T("sym", "default_y_of_" + pipe)}
        if e == "exp":
            vals["x"] = GIVEN
        model = next((m for k, m in sc.models.items() if k == (pipe, tuple(sorted(vals.items(), key=lambda x: x[0])))), None)
        loader = T("sym", "loader_" + data)
        lh = T("mcall", loader, "hash", (), ())
        ah = T("mcall", T("attr", model, "algorithm"), "hash", (), ()) if model is not None else None
        vh = T("call", "causy.graph_utils.hash_dictionary", (sc.i.freeze(build(sc.i, s.state, vals), s.state),))
        mine = [r for r in rs if r[1].op == "fstr" and r[1].args[0] == const(e + "_")]
        g = OR(0, *[r[0] for r in mine])
        if mode == "unknown" or mode == "one" and e != "exp":
            want = 0
        elif stored == "new" or mode in ("one", "all, forced"):
            want = 1
        else:
            d = sc.docs.get(RES(e, newest))
            if d is None or ah is None:
                ctx.bad("C25.rerun", "%s: %s compared with its newest result" % (nm, e), "the newest result is not read" if d is None else "no model of the experiment is built", fi.loc)
                continue
            want = OR(eq(d["algorithm_hash"], NONE), eq(d["data_loader_hash"], NONE), NOT(eq(d["variables_hash"], vh)), NOT(eq(d["algorithm_hash"], ah)), NOT(eq(d["data_loader_hash"], lh)))
        q, wit = cmp_bool(g, want, 1)
        ctx.add("C25.rerun", "%s: %s is executed exactly when it has to be" % (nm, e), VERDICT[q], wit if q != "eq" else "", fi.loc)
        for r in mine:
            if r[2] is None or model is None:
                ctx.unk("C25.record", "%s: %s" % (nm, e), "no result record" if r[2] is None else "no model of the experiment", fi.loc)
                continue
            fields = dict(r[2].args[1])
            pr = sc.pipes[pipe]
            for k, w in (("algorithm_hash", ah), ("data_loader_hash", lh), ("variables_hash", vh), ("variables", sc.i.freeze(build(sc.i, s.state, vals), s.state)), ("nodes", T("attr", T("attr", model, "graph"), "nodes")), ("edges", T("mcall", T("attr", model, "graph"), "retrieve_edges", (), ())), ("action_history", None), ("algorithm", None)):
                got = fields.get(k)
                c = "%s: the result of %s has its %s" % (nm, e, k)
                if got is None:
                    ctx.bad("C25.record", c, "missing", fi.loc)
                    continue
                if k == "algorithm":
                    ok = got.op == "rec" and dict(got.args[1]).get("reference") is pr[1] and dict(got.args[1]).get("type") is pr[0]
                    q, wit = ("eq", "") if ok else ("diff", show(got)[:80])
                elif k == "action_history":
                    gm = T("attr", model, "graph")
                    ok = got in (T("attr", T("attr", gm, "graph"), "action_history"), T("attr", gm, "action_history"))
                    q, wit = ("eq", "") if ok else ("diff" if not imprecise_term(got) else "unknown", show(got)[:80])
                else:
                    q, wit = cmp_val(got, w, r[0])
                ctx.add("C25.record", c, VERDICT[q], wit if q != "eq" else "", fi.loc)
            order = [(ev.data[1], ev.data[2]) for ev in s.events if ev.kind in ("mcall", "mutcall") and ev.data[0] is model and ev.data[1] in ("create_graph_from_data", "create_all_possible_edges", "execute_pipeline_step_with_progress", "execute_pipeline_steps")]
            ok = [x[0] for x in order][:2] == ["create_graph_from_data", "create_all_possible_edges"] and len(order) == 3 and order[2][0].startswith("execute") and order[0][1] == (loader,)
            ctx.add("C25.record", "%s: the result of %s is computed from its data on all edges by its pipeline" % (nm, e), HOLDS if ok else VIOLATED, "" if ok else str([x[0] for x in order]), fi.loc)


# ---------------------------------------------------------------------------------------------- C24
def C24(ctx):
    for kind in ("pipeline", "data_loader"):
        for used in ("first", "second", "both", "unused", "unknown", "no experiments"):
            ctx.guard("C24.remove", "%s %s" % (kind, used), c24_remove, ctx, kind, used)
    for e in ("exp", "exp_b", "missing"):
        ctx.guard("C24.experiment", e, c24_remove_experiment, ctx, e)
    for kind in KINDS:
        for choices in (False, True):
            if kind != "Bool" or not choices:
                ctx.guard("C24.update", kind, c24_update, ctx, kind, choices)
    ctx.guard("C24.update", "unknown", c24_update_unknown, ctx)
    ctx.guard("C24.store", "write_to_workspace", c24_store, ctx)


def workspace_view(sc, st, what):
    """names and values of one part of the workspace"""
    return observe(sc.i, st, "[(k, v) for k, v in w.%s.items()]" % what, {"w": sc.ws})


def entries(sc, st, what):
    """names still present, or None"""
    items, why = concrete(observe(sc.i, st, "[k for k in w.%s]" % what, {"w": sc.ws}), sc.settled(st.alive))
    return [cval(x) if is_const(x) else x for x in items] if items is not None else None


def c24_remove(ctx, kind, used):
    attr = {"pipeline": "pipelines", "data_loader": "dataloaders"}[kind]
    fi = ctx.prog.func(WC + "remove_" + kind)
    pre = {"pipeline": "pipe", "data_loader": "data"}[kind]
    a, b = pre + "1", pre + "2"
    uses = {"first": (a, b), "second": (b, a), "both": (a, a), "unused": (b, b), "unknown": (b, b)}.get(used)
    exps = {}
    if uses:
        for n, u in zip(("exp", "exp_b"), uses):
            # the other kind of thing has the name that is removed: it must not matter
            exps[n] = (u, "data2", {}) if kind == "pipeline" else ("pipe2", u, {})
    sc = Scene(ctx.prog, exps, [])
    name = a if used != "unknown" else "missing"
    s = sc.run(fi, **{fi.node.args.args[0].arg: const(name)})
    nm = "remove a %s (%s)" % (kind.replace("_", " "), used)
    if first_note(ctx, sc, "C24.remove", nm, fi):
        return
    if sc.raises():
        return ctx.bad("C24.remove", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    left = entries(sc, s.state, attr)
    w = OR(0, *[sc.settled(x[0]) for x in sc.written])
    ok_to = used in ("unused", "no experiments")
    want = [b] if ok_to else [a, b]
    if left is None:
        return ctx.unk("C24.remove", nm, "entries not known", fi.loc)
    ctx.add("C24.remove", nm + (": exactly it is removed" if ok_to else ": refused, nothing changes"), HOLDS if left == want else VIOLATED, "" if left == want else "left are %s" % left, fi.loc)
    if ok_to:
        q, wit = cmp_bool(w, 1, 1)
        ctx.add("C24.remove", nm + ": the workspace is written", VERDICT[q], wit if q != "eq" else "", fi.loc)
        last = written_entries(sc, attr)
        ctx.add("C24.remove", nm + ": the workspace that is written lacks it", HOLDS if last == [b] else VIOLATED if last is not None else UNDECIDED, "" if last == [b] else "written are %s" % last, fi.loc)
    for o, n in (("experiments", list(exps)), ({"pipelines": "dataloaders", "dataloaders": "pipelines"}[attr], ["data1", "data2"] if kind == "pipeline" else ["pipe1", "pipe2"])):
        got = entries(sc, s.state, o)
        ctx.add("C24.remove", nm + ": the %s stay" % o, HOLDS if got == n else VIOLATED if got is not None else UNDECIDED, "" if got == n else "left are %s" % got, fi.loc)


def written_entries(sc, attr):
    if not sc.written:
        return None
    t = sc.written[-1][1]
    if t.op != "rec":
        return None
    d = sc.dict_of(dict(t.args[1]).get(attr, NONE))
    return sorted(d) if d is not None else None


def c24_remove_experiment(ctx, e):
    fi = ctx.prog.func(WC + "remove_experiment")
    sc = Scene(ctx.prog, EXPS, [RES("exp", DIG[0]), RES("exp_b", DIG[1])])
    s = sc.run(fi, **{fi.node.args.args[0].arg: const(e)})
    nm = "remove the experiment %s" % e
    if first_note(ctx, sc, "C24.experiment", nm, fi):
        return
    if sc.raises():
        return ctx.bad("C24.experiment", nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    want = [x for x in EXPS if x != e]
    got = entries(sc, s.state, "experiments")
    ctx.add("C24.experiment", nm + ": exactly it is removed", HOLDS if got == want else VIOLATED if got is not None else UNDECIDED, "" if got == want else "left are %s" % got, fi.loc)
    if e in EXPS:
        last = written_entries(sc, "experiments")
        ctx.add("C24.experiment", nm + ": the workspace that is written lacks it", HOLDS if last == want else VIOLATED if last is not None else UNDECIDED, "" if last == want else "written are %s" % last, fi.loc)
    for o, n in (("pipelines", ["pipe1", "pipe2"]), ("dataloaders", ["data1", "data2"])):
        got = entries(sc, s.state, o)
        ctx.add("C24.experiment", nm + ": the %s stay" % o, HOLDS if got == n else VIOLATED if got is not None else UNDECIDED, "" if got == n else "left are %s" % got, fi.loc)


def update_scene(ctx, kind, choices):
    sc = Scene(ctx.prog, {"exp": ("pipe1", "data1", {"x": GIVEN, "z": T("sym", "kept")}), "exp_b": ("pipe1", "data2", {"x": T("sym", "other")})}, [])
    i, st = sc.i, sc.st
    ch = [T("sym", "choice0"), T("sym", "choice1")]
    for x in ch + [GIVEN, T("sym", "default_x")]:
        i.types[x] = KINDS[kind]
    x = Inst(VR + kind + "Variable", name=const("x"), value=T("sym", "default_x"), choices=ch if choices else NONE)
    z = Inst(VR + "StringVariable", name=const("z"), value=T("sym", "default_z"), choices=NONE)
    sc.algs["pipe1"] = build(i, st, Inst("causy.models.Algorithm", name=const("pipe1"), pipeline_steps=[], edge_types=[], extensions=NONE, variables=[z, x], pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
    return sc, ch


def c24_update(ctx, kind, choices):
    fi = ctx.prog.func(WC + "update_experiment_variable")
    ps = [a.arg for a in fi.node.args.args]
    TEXT_ = T("sym", "text")
    texts = [(TEXT_, None)]
    if kind == "Bool":
        texts = [(const("true"), TRUE), (const("false"), FALSE), (const("True"), TRUE), (const("False"), FALSE), (const("maybe"), None)]
    for text, val in texts:
        sc, ch = update_scene(ctx, kind, choices)
        i = sc.i
        i.types[TEXT_] = "builtins.str"
        s = sc.run(fi, **{ps[0]: const("exp"), ps[1]: const("x"), ps[2]: text})
        nm = "update a %s variable%s%s" % (TYPE_NAMES[kind], " with choices" if choices else "", " to " + cval(text) if is_const(text) else "")
        if first_note(ctx, sc, "C24.update", nm, fi):
            continue
        fails = {a: 1 for r in s.raises for a in atoms_of(r[0].alive)}
        bad = [r for r in s.raises if AND(r[0].alive, nofile(r[0].alive))]
        if bad:
            ctx.bad("C24.update", nm + ": invalid values are reported", "fails with %s" % show(bad[0][1])[:80], bad[0][2])
            continue
        want = val if val is not None or kind == "Bool" else TEXT_ if kind == "String" else T("call", KINDS[kind][9:], (TEXT_,))
        got = observe(i, s.state, "w.experiments['exp'].variables['x']", {"w": sc.ws})
        w = OR(0, *[AND(x[0], nofile(x[0])) for x in sc.written])
        alive = AND(s.state.alive, nofile(s.state.alive))
        if kind == "Bool" and val is None:
            q, wit = cmp_bool(w, 0, 1)
            ctx.add("C24.update", nm + ": refused", VERDICT[q], wit if q != "eq" else "", fi.loc)
            q, wit = cmp_val(got, GIVEN, alive)
            ctx.add("C24.update", nm + ": the value stays", VERDICT[q], wit if q != "eq" else "", fi.loc)
            continue
        conv = 0
        for a in set(atoms_of(w)) | set(atoms_of(s.state.alive)):
            if a.op == "exc" and any(x is want for x in a.args if isinstance(x, Term)):
                conv = OR(conv, bvar(a))
        valid = NOT(conv)
        if choices:
            valid = AND(valid, OR(*[eq(want, c) for c in ch]))
        q, wit = cmp_bool(w, AND(valid, nofile(valid)), nofile(OR(w, valid)))
        ctx.add("C24.update", nm + ": the workspace is written exactly for valid values", VERDICT[q], wit if q != "eq" else "", fi.loc)
        q, wit = cmp_val(got, want, AND(alive, valid))
        ctx.add("C24.update", nm + ": the experiment has the new value", VERDICT[q], wit if q != "eq" else "", fi.loc)
        if AND(alive, NOT(valid)):
            q, wit = cmp_val(got, GIVEN, AND(alive, NOT(valid)))
            ctx.add("C24.update", nm + ": an invalid value changes nothing", VERDICT[q], wit if q != "eq" else "", fi.loc)
        n = entries(sc, s.state, "experiments")
        ctx.add("C24.update", nm + ": the experiments stay", HOLDS if n == ["exp", "exp_b"] else VIOLATED if n is not None else UNDECIDED, "" if n == ["exp", "exp_b"] else "left are %s" % n, fi.loc)
        for expr, w2, what in (("w.experiments['exp'].variables['z']", T("sym", "kept"), "other variables stay"), ("w.experiments['exp_b'].variables['x']", T("sym", "other"), "other experiments stay"), ("len(w.experiments['exp'].variables)", const(2), "no variable is added"), ("w.experiments['exp'].dataloader", const("data1"), "the data loader stays"), ("w.experiments['exp'].pipeline", const("pipe1"), "the pipeline stays")):
            q, wit = cmp_val(observe(i, s.state, expr, {"w": sc.ws}), w2, alive)
            ctx.add("C24.update", nm + ": " + what, VERDICT[q], wit if q != "eq" else "", fi.loc)


def nofile(g):
    """assume that the workspace file can be read"""
    r = 1
    for a in atoms_of(g):
        if a.op == "eq" and any(x.op == "call" and x.args[0] == "read" for x in a.args) and NONE in a.args:
            r = AND(r, NOT(bvar(a)))
    return r


def c24_update_unknown(ctx):
    fi = ctx.prog.func(WC + "update_experiment_variable")
    ps = [a.arg for a in fi.node.args.args]
    for e, v in (("missing", "x"), ("exp", "missing")):
        sc, ch = update_scene(ctx, "Float", False)
        s = sc.run(fi, **{ps[0]: const(e), ps[1]: const(v), ps[2]: T("sym", "text")})
        nm = "update the variable %s of %s" % (v, e)
        if first_note(ctx, sc, "C24.update", nm, fi):
            continue
        ok = not sc.written and not sc.raises()
        ctx.add("C24.update", nm + ": refused", HOLDS if ok else VIOLATED, "" if ok else "the workspace is written or the command fails", fi.loc)
        q, wit = cmp_val(observe(sc.i, s.state, "w.experiments['exp'].variables['x']", {"w": sc.ws}), GIVEN, sc.settled(s.state.alive))
        ctx.add("C24.update", nm + ": nothing changes", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c24_store(ctx):
    """what is written is the whole workspace, and it is read from the same file"""
    p = ctx.prog
    fi = p.func(WC + "write_to_workspace")
    sc = Scene(p, EXPS, [])
    sc.i.stop = lambda f: False
    s = sc.run(fi, **{fi.node.args.args[0].arg: sc.ws})
    nm = "write_to_workspace"
    if first_note(ctx, sc, "C24.store", nm, fi):
        return
    if len(sc.saved) != 1:
        return ctx.add("C24.store", nm + ": the workspace is written once", VIOLATED if not sc.saved else UNDECIDED, "%d writes" % len(sc.saved), fi.loc)
    g, f, t = sc.saved[0]
    whole = any(x is sc.i.freeze(sc.ws, s.state) for x in subterms(t)) and not any(x.op == "mcall" and x.args[1].startswith("model_dump") and {"include", "exclude"} & set(dict(x.args[3])) for x in subterms(t))
    ctx.add("C24.store", nm + ": everything is written", HOLDS if whole and g == 1 else UNDECIDED if imprecise_term(t) else VIOLATED, "" if whole else show(t)[:120], fi.loc)
    mode = [m for a, x, m, n in sc.opened if x is f]
    ctx.add("C24.store", nm + ": the old content is replaced", HOLDS if mode == [const("w")] else VIOLATED, "" if mode == [const("w")] else "mode %s" % [show(x) for x in mode], fi.loc)
    sc2 = Scene(p, EXPS, [])
    f2 = p.func(WC + "info")
    sc2.run(f2)
    rd = {x for a, x, m, n in sc2.opened}
    ctx.add("C24.store", nm + ": it is read from the file it was written to", HOLDS if rd == {f} else VIOLATED if rd and not any(imprecise_term(x) for x in rd) else UNDECIDED, "" if rd == {f} else "reads %s, writes %s" % ([show(x) for x in rd], show(f)), fi.loc)


# ---------------------------------------------------------------------------------------------- fingerprints (C25)
def c25_fingerprints(ctx):
    """the fingerprints cover everything that matters and do not depend on the order of keys or on the process"""
    p = ctx.prog
    i = var_interp(p)
    fi = p.func("causy.graph_utils.hash_dictionary")
    d = T("sym", "d")
    s = i.run(fi, args={fi.node.args.args[0].arg: d})
    ctx.note_run(s)
    digest_of(ctx, "a dictionary", s, fi, d, True)
    fi = p.func("causy.models.Algorithm.hash")
    i = var_interp(p)
    i.stop = lambda f: f.qual == "causy.graph_utils.hash_dictionary"
    st = State()
    a = build(i, st, Inst("causy.models.Algorithm", name=T("sym", "name"), pipeline_steps=T("sym", "pipeline_steps"), edge_types=T("sym", "edge_types"), extensions=T("sym", "extensions"), variables=T("sym", "variables"), pre_graph_update_hooks=T("sym", "pre"), post_graph_update_hooks=T("sym", "post")))
    s = i.run(fi, args={"self": a}, st=st)
    ctx.note_run(s)
    t = i.freeze(s.ret, s.state)
    covers(ctx, "an algorithm", i, t, [T("sym", x) for x in ("name", "pipeline_steps", "edge_types", "extensions", "variables")], fi)
    for c, n in (("causy.data_loader.JSONDataLoader", "a JSON file"), ("causy.data_loader.JSONLDataLoader", "a JSONL file"), ("causy.data_loader.DynamicDataLoader", "a dynamic data loader")):
        i = var_interp(p)
        i.stop = lambda f: f.qual == "causy.graph_utils.hash_dictionary"
        ci = p.classes.get(c)
        if ci is None:
            ctx.unk("C25.fingerprint", n, "class not found", "causy/data_loader.py")
            continue
        st = State()
        ref, opt, inner = T("sym", "reference"), T("sym", "options"), T("sym", "inner")
        fields = {"reference": ref, "options": opt}
        if "Dynamic" in c:
            fields["data_loader"] = inner
        o = build(i, st, Inst(c, **fields))
        fi = p.find_method(ci, "hash")
        s = i.run(fi, args={"self": o}, st=st)
        ctx.note_run(s)
        t = i.freeze(s.ret, s.state)
        covers(ctx, n, i, t, [opt], fi)
        if "Dynamic" in c:
            ok = any(x.op == "mcall" and x.args[0] is inner and x.args[1] == "hash" for x in subterms(t))
        else:
            opens = [x for x in subterms(t) if x.op == "call" and x.args[0] in ("builtins.open", "open") and ref in list(subterms(x.args[1][0]))]
            whole = [x for x in subterms(t) if x.op == "call" and x.args[0].split(".")[-1] in ("file_digest", "sha256", "sha512", "md5", "sha1", "blake2b") or x.op == "mcall" and x.args[1] in ("read", "update")]
            ok = bool(opens) and bool(whole)
            part = [x for x in subterms(t) if x.op == "mcall" and x.args[1] in ("read", "readline") and (x.args[2] or x.args[1] == "readline")]
            if part:
                ctx.bad("C25.fingerprint", "%s: all of its content counts" % n, "only %s is read" % show(part[0])[:80], fi.loc)
                continue
        ctx.add("C25.fingerprint", "%s: its content counts" % n, HOLDS if ok else UNDECIDED if imprecise_term(t) else VIOLATED, "" if ok else show(t)[:120], fi.loc)


def covers(ctx, n, i, t, parts, fi):
    sub = set(subterms(t))
    for x in sub:
        if x.op == "mcall" and x.args[1].startswith("model_dump") and {"include", "exclude", "exclude_unset"} & set(dict(x.args[3])):
            return ctx.bad("C25.fingerprint", "%s: everything counts" % n, "only part of it: %s" % show(x)[:100], fi.loc)
        if x.op in ("call",) and x.args[0] in ("hash", "builtins.hash", "id", "builtins.id"):
            return ctx.bad("C25.fingerprint", "%s: the same in every process" % n, show(x)[:100], fi.loc)
    for x in parts:
        ctx.add("C25.fingerprint", "%s: its %s count" % (n, x.args[0]), HOLDS if x in sub else UNDECIDED if imprecise_term(t) else VIOLATED, "" if x in sub else show(t)[:120], fi.loc)


def digest_of(ctx, n, s, fi, d, ordered):
    t = s.ret
    sub = list(subterms(t))
    js = [x for x in sub if x.op == "call" and x.args[0] in ("json.dumps",)]
    for x in sub:
        if x.op == "call" and x.args[0] in ("hash", "builtins.hash", "id", "builtins.id"):
            return ctx.bad("C25.fingerprint", "%s: the same in every process" % n, show(x)[:100], fi.loc)
        if x.op == "slice":
            return ctx.bad("C25.fingerprint", "%s: the whole digest counts" % n, show(x)[:100], fi.loc)
    if not js:
        return ctx.unk("C25.fingerprint", n, "not a digest of a JSON document: %s" % show(t)[:80], fi.loc)
    x = js[0]
    kw = dict(x.args[2]) if len(x.args) > 2 else {}
    ok = x.args[1][0] is d
    ctx.add("C25.fingerprint", "%s: everything counts" % n, HOLDS if ok else VIOLATED if d not in list(subterms(x.args[1][0])) else UNDECIDED, "" if ok else show(x)[:100], fi.loc)
    srt = kw.get("sort_keys", FALSE)
    presorted = any(y.op == "sorted" or y.op == "call" and y.args[0] == "sorted" for y in subterms(x.args[1][0]))
    ok = srt is TRUE or presorted
    ctx.add("C25.fingerprint", "%s: the order of its keys does not count" % n, HOLDS if ok else VIOLATED, "" if ok else show(x)[:100], fi.loc)
    digest = any(y.op in ("call", "mcall") and str(y.args[0] if y.op == "call" else y.args[1]).split(".")[-1] in ("sha256", "sha1", "sha512", "md5", "blake2b", "blake2s", "sha3_256", "hexdigest") for y in sub)
    ctx.add("C25.fingerprint", "%s: a cryptographic digest" % n, HOLDS if digest else UNDECIDED, "" if digest else show(t)[:100], fi.loc)
