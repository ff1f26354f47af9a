"""C32 commands that create workspaces, pipelines, data loaders and experiments, and the standalone commands."""
from .rules_workspace import *
from .rules_algorithms import ALGM

CLI = "causy.cli."
TEXTS = [T("sym", "text%d" % n) for n in range(4)]
PATH_, CWD = T("sym", "chosen_path"), T("sym", "cwd")
R32 = "C32.created"
SLUG = lambda t: T("call", "slug", (t, const("_")))
DLR = "causy.data_loader.DataLoaderReference"
KNOWN = {"pipeline": {"PRECONFIGURED", "EJECT", "SKELETON"}, "loader": {"json", "jsonl", "dynamic"}}


class Dialog(Scene):
    """a workspace and the answers of a user: kind of pipeline, kind of data loader, which of the offered entries"""

    def __init__(self, p, kind=None, loader=None, pick=1, confirm=(), exists=True, declined=False, plain=False):
        self.kind, self.loader_kind, self.pick, self.answers, self.exists, self.declined, self.plain = kind, loader, pick, list(confirm), exists, declined, plain
        self.asked = {"text": 0, "prompt": 0, "confirm": 0}
        self.dumped = []
        self.unknown = []
        super().__init__(p, EXPS)
        i, st = self.i, self.st
        stop = {SE + "load_algorithm_by_reference", "causy.data_loader.load_data_loader", "causy.graph_model.graph_model_factory", "causy.graph_utils.hash_dictionary", WC + "write_to_workspace", SE + "load_algorithm_from_specification", SE + "serialize_algorithm", SE + "load_json", "causy.graph_utils.retrieve_edges"}
        i.stop = lambda fi: fi.qual in stop
        for t in TEXTS + [PATH_]:
            i.types[t] = i.types[SLUG(t)] = "builtins.str"
        assume_distinct(*TEXTS, *[SLUG(t) for t in TEXTS], PATH_, NONE, *[const(x) for x in ("pipe1", "pipe2", "data1", "data2", "exp", "exp_b", "")])
        e = i.ext_handlers
        e["questionary.Choice"] = lambda it, args, kw, s, n: kw.get("value", args[1] if len(args) > 1 else kw.get("title", args[0] if args else NONE))
        e["questionary.select"] = e["questionary.rawselect"] = e["questionary.autocomplete"] = self.select
        e["questionary.text"] = lambda it, args, kw, s, n: self.later(TEXTS[min(self.count("text"), 3)])
        e["questionary.path"] = lambda it, args, kw, s, n: self.later(PATH_)
        i.mcall_handlers["ask"] = i.mcall_handlers["unsafe_ask"] = lambda it, recv, args, kw, s, n: recv.args[1][0] if recv.op == "call" and recv.args[0] == "question" else None
        e["markdown.extensions.toc.slugify"] = lambda it, args, kw, s, n: T("call", "slug", tuple(it.freeze(a, s) for a in (args + list(kw.values()))[:2]))
        e["typer.prompt"] = lambda it, args, kw, s, n: T("sym", ("given_name", "given_author", "other")[min(self.count("prompt"), 2)])
        e["typer.confirm"] = self.confirm
        e["os.path.exists"] = e["os.path.isfile"] = lambda it, args, kw, s, n: (TRUE if self.exists else FALSE) if any(x.op == "const" and cval(x) == WSFILE for x in subterms(it.freeze(args[0], s))) else None
        e["os.path.basename"] = lambda it, args, kw, s, n: T("call", "os.path.basename", tuple(it.freeze(a, s) for a in args))
        for n in ("pydantic_yaml.to_yaml_str", "causy.workspaces.cli.to_yaml_str"):
            e[n] = lambda it, args, kw, s, nd: T("call", "yaml", tuple(it.freeze(a, s) for a in args), tuple(sorted((k, it.freeze(v, s)) for k, v in kw.items())))
        i.mcall_handlers["dump"] = self.dump
        self.stubs = {}
        cl = {}
        for n in ("PC", "Other"):
            o = build(i, st, Inst("causy.models.Algorithm", name=const(n), pipeline_steps=T("sym", "steps_of_" + n), edge_types=[], extensions=NONE, variables=T("sym", "variables_of_" + n), pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
            r = build(i, st, Inst("causy.models.Algorithm", name=const(n), pipeline_steps=T("sym", "resolved_steps_of_" + n), edge_types=[], extensions=NONE, variables=T("sym", "variables_of_" + n), pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
            self.stubs[n] = o
            m = T("sym", "model_" + n)
            i.types[m] = "causy.graph_model.AbstractGraphModel"
            cl[n] = T("ext", "stub.class_" + n)
            e["stub.class_" + n] = lambda it, args, kw, s, nd, m=m: m
            self.attrs[(m, "algorithm")], self.attrs[(m, "_original_algorithm")] = r, o
        d = build(i, st, cl)
        for m in ("causy.workspaces.cli", "causy.cli", "causy.serialization", "causy.causal_discovery", "causy.causal_discovery.constraint", "causy.causal_discovery.constraint.algorithms"):
            i.gbind[(m, "AVAILABLE_ALGORITHMS")] = d
        i.on_attr = lambda s, o, a: self.attrs.get((o, a))

    attrs = None

    def setup(self):
        self.attrs = {}
        super().setup()

    def count(self, k):
        self.asked[k] += 1
        return self.asked[k] - 1

    def later(self, t):
        return T("call", "question", (t,))

    def select(self, it, args, kw, s, node):
        c = kw.get("choices", args[1] if len(args) > 1 else NONE)
        items, why = concrete(observe(it, s, "[c for c in x]", {"x": c}), s.alive)
        if items is None:
            return None
        vals = {cval(x) for x in items if is_const(x)}
        if vals == KNOWN["pipeline"] and self.kind:
            return self.later(const(self.kind))
        if vals == KNOWN["loader"] and self.loader_kind:
            return self.later(const(self.loader_kind))
        if not items or vals & (KNOWN["pipeline"] | KNOWN["loader"]):
            self.unknown.append("offers %s" % [show(x) for x in items])
            return None
        return self.later(items[min(self.pick, len(items) - 1)])

    def confirm(self, it, args, kw, s, node):
        n = self.count("confirm")
        if self.exists:  # the first question is whether the workspace is overwritten
            if n == 0:
                if self.declined and kw.get("abort", args[2] if len(args) > 2 else FALSE) is TRUE:
                    it.do_raise(s, T("exc", "click.exceptions.Abort"), node)
                return FALSE if self.declined else TRUE
            n -= 1
        return TRUE if n < len(self.answers) and self.answers[n] else FALSE

    def dump(self, it, recv, args, kw, s, node):
        tpl = [x for x in subterms(recv) if x.op == "mcall" and x.args[1] == "get_template"]
        if not tpl:
            return None
        self.dumped.append((s.alive, it.freeze(args[0] if args else kw["fp"], s), recv))
        return NONE

    def algorithm(self, it, fi, args, s, node):
        if args[1] is const("PC") or args[1] is const("Other"):
            n = cval(args[1])
            if n not in self.algs:
                v = Inst(VR + "FloatVariable", name=const("x"), value=T("sym", "default_x_of_" + n), choices=NONE)
                it.types[v.fields["value"]] = "builtins.float"
                self.algs[n] = build(it, s, Inst("causy.models.Algorithm", name=const(n), pipeline_steps=[], edge_types=[], extensions=NONE, variables=[v], pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
            return self.algs[n]
        if self.plain:
            n = next((n for n, x in self.pipes.items() if x[1] is args[1]), None)
            if n and n not in self.algs:
                self.algs[n] = build(it, s, Inst("causy.models.Algorithm", name=const(n), pipeline_steps=[], edge_types=[], extensions=NONE, variables=[], pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
        return super().algorithm(it, fi, args, s, node)

    def last_workspace(self):
        """the record of the workspace that is written last, with its guard"""
        out = [(self.settled(a), t) for a, t in self.written]
        for a, f, t in self.saved:
            if any(x.op == "const" and cval(x) == WSFILE for x in subterms(f)):
                recs = [x for x in subterms(t) if x.op == "rec" and x.args[0] == WSM + "Workspace"]
                out.append((self.settled(a), recs[0] if recs else None))
        out = [x for x in out if x[0]]
        return out

    def parts(self, t, attr):
        d = dict(t.args[1]).get(attr, NONE) if t is not None and t.op == "rec" else NONE
        if d.op != "dict" or d.args[0] is not NONE or d.args[2] or any(getattr(c[1], "n", c[1]) != 1 for c in d.args[1]):
            return None
        return [(c[0], c[2]) for c in d.args[1]]


def C32(ctx):
    for k in ("PRECONFIGURED", "EJECT", "SKELETON"):
        for pick in (0, 1):
            ctx.guard(R32, "pipeline " + k, c32_add, ctx, "create_pipeline", k, None, pick)
    for k in ("json", "jsonl", "dynamic"):
        ctx.guard(R32, "data loader " + k, c32_add, ctx, "create_data_loader", None, k, 1)
    for pick in (0, 1):
        for plain in (False, True):
            ctx.guard(R32, "experiment", c32_experiment, ctx, pick, plain)
    for conf in ((0, 0), (1, 0), (0, 1), (1, 1, 0), (1, 1, 1)):
        for k in ("json", "jsonl", "dynamic") if conf[1] else ("json",):
            for exists in (False, True):
                ctx.guard("C32.init", "init %s" % (conf,), c32_init, ctx, conf, k, exists)
    ctx.guard("C32.init", "init declined", c32_declined, ctx)
    for alg in ("PC", "Other", "Missing"):
        ctx.guard("C32.eject", alg, c32_eject, ctx, alg)
    for how in ("pipeline", "algorithm", "both", "neither"):
        for out in (True, False):
            ctx.guard("C32.execute", how, c32_execute, ctx, how, out)


def stopped(ctx, sc, rule, nm, fi):
    if first_note(ctx, sc, rule, nm, fi):
        return True
    if sc.unknown:
        ctx.unk(rule, nm, sc.unknown[0], fi.loc)
        return True
    if sc.raises():
        ctx.bad(rule, nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
        return True
    return False


def pipeline_of(sc, kind, pick, text):
    n = ("PC", "Other")[pick]
    return {
        "PRECONFIGURED": ("NAME", const(n)),
        "EJECT": ("FILE", fname(SLUG(text), ".yml")),
        "SKELETON": ("PYTHON_MODULE", fname(SLUG(text), ".PIPELINE")),
    }[kind]


def check_fields(ctx, rule, nm, sc, rec, cls, want, loc):
    if rec.op != "rec" or rec.args[0] != cls:
        return ctx.add(rule, nm, UNDECIDED if imprecise_term(rec) or rec.op in ("ref", "cases") else VIOLATED, "is %s" % show(rec)[:100], loc)
    f = dict(rec.args[1])
    for k, w in want.items():
        got = f.get(k, NONE)
        if isinstance(w, tuple):
            enum, member, value = w
            ok = got is const(value) or is_const(got) and cval(got) == value or got.op == "enum" and got.args[:2] == (enum, member) or show(got).endswith("." + member)
            ctx.add(rule, "%s: its %s" % (nm, k), HOLDS if ok else UNDECIDED if imprecise_term(got) else VIOLATED, "" if ok else "is %s" % show(got)[:80], loc)
            continue
        q, wit = cmp_val(got, w, sc.settled(sc.s.state.alive))
        ctx.add(rule, "%s: its %s" % (nm, k), VERDICT[q], "" if q == "eq" else "is %s, not %s" % (show(got)[:60], show(w)[:60]), loc)


ALGREF = "causy.models.AlgorithmReference"
ART, DLT = "causy.models.AlgorithmReferenceType", "causy.data_loader.DataLoaderType"


def enum_value(p, enum, member):
    ci = p.classes[enum]
    for n in ci.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == member and isinstance(n.value, ast.Constant):
            return n.value.value
    return None


def artefact(ctx, rule, nm, sc, kind, text, n, fi):
    """the files a created pipeline or data loader refers to"""
    files = [(sc.settled(a), f, t) for a, f, t in sc.saved if sc.settled(a) and not any(x.op == "const" and cval(x) == WSFILE for x in subterms(f))]
    dumps = [(sc.settled(a), f, t) for a, f, t in sc.dumped if sc.settled(a)]
    if kind == "EJECT":
        want = fname(SLUG(text), ".yml")
        hit = [x for x in files if x[1] is want]
        ctx.add(rule, nm + ": the file it refers to is written", HOLDS if hit and hit[0][0] == 1 else VIOLATED if not any(imprecise_term(x[1]) for x in files) else UNDECIDED, "" if hit else "writes %s" % [show(x[1]) for x in files], fi.loc)
        if hit:
            o = sc.i.freeze(sc.stubs[n], sc.s.state)
            whole = any(x is o for x in subterms(hit[-1][2]))
            ctx.add(rule, nm + ": the file has the definition with its references to variables", HOLDS if whole else UNDECIDED if imprecise_term(hit[-1][2]) else VIOLATED, "" if whole else "has %s" % show(hit[-1][2])[:100], fi.loc)
    elif kind in ("SKELETON", "dynamic"):
        want = fname(SLUG(text), ".py")
        all_ = dumps + files
        hit = [x for x in all_ if x[1] is want]
        ctx.add(rule, nm + ": the module it refers to is written", HOLDS if hit and hit[0][0] == 1 else VIOLATED if not any(imprecise_term(x[1]) for x in all_) else UNDECIDED, "" if hit else "writes %s" % [show(x[1]) for x in all_], fi.loc)
        if hit:
            tpl = {"SKELETON": "pipeline.py.tpl", "dynamic": "dataloader.py.tpl"}[kind]
            got = [x.args[2] for x in subterms(hit[-1][2]) if x.op == "mcall" and x.args[1] == "get_template"]
            ok = got and got[0] and got[0][0] is const(tpl)
            ctx.add(rule, nm + ": from its template", HOLDS if ok else UNDECIDED, "" if ok else show(hit[-1][2])[:80], fi.loc)
    extra = [x for x in files + dumps if kind in ("PRECONFIGURED", "json", "jsonl")]
    if extra:
        ctx.add(rule, nm + ": no other file is written", UNDECIDED if any(imprecise_term(x[1]) for x in extra) else VIOLATED, "writes %s" % [show(x[1]) for x in extra], fi.loc)


def entry(ctx, rule, nm, sc, ws, attr, key, cls, want, fi, kept):
    got = sc.parts(ws, attr)
    if got is None:
        return ctx.unk(rule, nm, "%s of the written workspace not known" % attr, fi.loc)
    ks = [k for k, v in got]
    new = [key] if key is not None else []
    exp = [const(x) for x in kept] + new
    ok = set(ks) == set(exp)
    ctx.add(rule, nm + ": exactly the %s that were there%s" % (attr, ", and the new one under the slug of its name" if new else ""), HOLDS if ok else UNDECIDED if any(imprecise_term(k) for k in ks) else VIOLATED, "" if ok else "has %s" % [show(k) for k in ks], fi.loc)
    if key is not None and key in ks:
        check_fields(ctx, rule, nm, sc, dict(got)[key], cls, want, fi.loc)


def before(sc):
    return sc.i.freeze(sc.ws, sc.st)


def same_parts(ctx, rule, nm, sc, old, ws, attrs, fi):
    for a in attrs:
        x, y = dict(old.args[1])[a], dict(ws.args[1]).get(a, NONE)
        q, wit = cmp_val(y, x, sc.settled(sc.s.state.alive))
        ctx.add(rule, nm + ": the %s stay as they were" % a, VERDICT[q], wit if q != "eq" else "", fi.loc)


def written_once(ctx, rule, nm, sc, fi):
    ws = sc.last_workspace()
    if not ws:
        ctx.bad(rule, nm + ": the workspace is written", "it is not written", fi.loc)
        return None
    g, t = ws[-1]
    if t is None or t.op != "rec":
        ctx.unk(rule, nm, "what is written is not known", fi.loc)
        return None
    q, wit = cmp_bool(g, 1, sc.settled(sc.s.state.alive))
    ctx.add(rule, nm + ": the workspace is written", VERDICT[q], wit if q != "eq" else "", fi.loc)
    return t


def loader_of(kind, text):
    return PATH_ if kind != "dynamic" else SLUG(text)


def c32_add(ctx, cmd, kind, loader, pick):
    fi = ctx.prog.func(WC + cmd)
    sc = Dialog(ctx.prog, kind, loader, pick)
    old = before(sc)
    s = sc.run(fi)
    nm = "%s (%s%s)" % (cmd, kind or loader, ", algorithm %d" % pick if kind in ("PRECONFIGURED", "EJECT") else "")
    if stopped(ctx, sc, R32, nm, fi):
        return
    ws = written_once(ctx, R32, nm, sc, fi)
    if ws is None:
        return
    text = TEXTS[0]
    if kind:
        m, ref = pipeline_of(sc, kind, pick, text)
        entry(ctx, R32, nm, sc, ws, "pipelines", SLUG(text), ALGREF, {"reference": ref, "type": (ART, m, enum_value(ctx.prog, ART, m))}, fi, ["pipe1", "pipe2"])
        same_parts(ctx, R32, nm, sc, old, ws, ("name", "author", "dataloaders", "experiments"), fi)
    else:
        m = loader.upper()
        entry(ctx, R32, nm, sc, ws, "dataloaders", SLUG(text), DLR, {"reference": loader_of(loader, text), "type": (DLT, m, loader)}, fi, ["data1", "data2"])
        same_parts(ctx, R32, nm, sc, old, ws, ("name", "author", "pipelines", "experiments"), fi)
    artefact(ctx, R32, nm, sc, kind or loader, text, ("PC", "Other")[pick], fi)


def c32_experiment(ctx, pick, plain):
    fi = ctx.prog.func(WC + "create_experiment")
    sc = Dialog(ctx.prog, pick=pick, plain=plain)
    old = before(sc)
    s = sc.run(fi)
    nm = "create_experiment (pipeline and data loader %d%s)" % (pick + 1, ", no variables" if plain else "")
    if stopped(ctx, sc, R32, nm, fi):
        return
    ws = written_once(ctx, R32, nm, sc, fi)
    if ws is None:
        return
    n = "pipe%d" % (pick + 1)
    entry(ctx, R32, nm, sc, ws, "experiments", SLUG(TEXTS[0]), WSM + "Experiment", {"pipeline": const(n), "dataloader": const("data%d" % (pick + 1))}, fi, ["exp", "exp_b"])
    prefilled(ctx, R32, nm, sc, ws, SLUG(TEXTS[0]), {} if plain else {k: T("sym", "default_%s_of_%s" % (k, n)) for k in "xy"}, fi)
    same_parts(ctx, R32, nm, sc, old, ws, ("name", "author", "pipelines", "dataloaders"), fi)


def prefilled(ctx, rule, nm, sc, ws, key, want, fi):
    e = dict(sc.parts(ws, "experiments") or []).get(key)
    if e is None or e.op != "rec":
        return
    v = dict(e.args[1]).get("variables", NONE)
    d = sc.dict_of(v) if v is not NONE else {}
    ctx.add(rule, nm + ": it starts with the defaults of all variables", HOLDS if d == want else UNDECIDED if d is None else VIOLATED, "" if d == want else "starts with %s" % show(v)[:100], fi.loc)


def c32_init(ctx, conf, loader, exists):
    fi = ctx.prog.func(WC + "init")
    sc = Dialog(ctx.prog, "PRECONFIGURED", loader, 0, confirm=conf, exists=exists)
    s = sc.run(fi)
    nm = "init (%s" % ", ".join([w for w, c in zip(("pipeline", "%s data loader" % loader, "experiment"), conf) if c] or ["nothing configured"]) + (", over a workspace)" if exists else ")")
    if stopped(ctx, sc, "C32.init", nm, fi):
        return
    R = "C32.init"
    ws = written_once(ctx, R, nm, sc, fi)
    if ws is None:
        return
    f = dict(ws.args[1])
    for k in ("name", "author"):
        q, wit = cmp_val(f.get(k, NONE), T("sym", "given_" + k), sc.settled(s.state.alive))
        ctx.add(R, "%s: the %s is the given one" % (nm, k), VERDICT[q], wit if q != "eq" else "", fi.loc)
    n = 0
    pk = lk = None
    if conf[0]:
        pk = SLUG(TEXTS[n])
        n += 1
    entry(ctx, R, nm, sc, ws, "pipelines", pk, ALGREF, {"reference": const("PC"), "type": (ART, "NAME", enum_value(ctx.prog, ART, "NAME"))}, fi, [])
    if conf[1]:
        lk = SLUG(TEXTS[n])
        entry(ctx, R, nm, sc, ws, "dataloaders", lk, DLR, {"reference": loader_of(loader, TEXTS[n]), "type": (DLT, loader.upper(), loader)}, fi, [])
        artefact(ctx, R, nm, sc, loader, TEXTS[n], "PC", fi)
        n += 1
    else:
        entry(ctx, R, nm, sc, ws, "dataloaders", None, DLR, {}, fi, [])
    ek = SLUG(TEXTS[n]) if len(conf) > 2 and conf[2] else None
    entry(ctx, R, nm, sc, ws, "experiments", ek, WSM + "Experiment", {"pipeline": pk, "dataloader": lk} if ek is not None else {}, fi, [])
    if ek is not None:
        prefilled(ctx, R, nm, sc, ws, ek, {"x": T("sym", "default_x_of_PC")}, fi)
    if sc.saved and not sc.written:
        a, fl, t = sc.saved[-1]
        mode = [m for _, x, m, _ in sc.opened if x is fl]
        ok = fl.op == "call" and fl.args[0] == "os.path.join" and fl.args[1] == (CWD, const(WSFILE)) or fl is const(WSFILE)
        ctx.add(R, nm + ": it is written to the workspace file", HOLDS if ok and mode == [const("w")] else UNDECIDED, "" if ok else "to %s" % show(fl)[:80], fi.loc)


def c32_declined(ctx):
    fi = ctx.prog.func(WC + "init")
    sc = Dialog(ctx.prog, "PRECONFIGURED", "json", 0, confirm=(0, 0), exists=True, declined=True)
    s = sc.run(fi)
    nm = "init next to a workspace, overwriting declined"
    if first_note(ctx, sc, "C32.init", nm, fi):
        return
    w = OR(0, *[g for g, t in sc.last_workspace()])
    opened = OR(0, *[sc.settled(a) for a, f, m, n in sc.opened if m is const("w")])
    ctx.add("C32.init", nm + ": nothing is written", HOLDS if OR(w, opened) == 0 else VIOLATED, "" if OR(w, opened) == 0 else "the workspace is overwritten", fi.loc)


def c32_eject(ctx, alg):
    fi = ctx.prog.func(CLI + "eject")
    ps = [a.arg for a in fi.node.args.args]
    sc = Dialog(ctx.prog)
    out = T("sym", "output_file")
    sc.i.types[out] = "builtins.str"
    s = sc.run(fi, **{ps[0]: const(alg), ps[1]: out})
    nm = "eject %s" % alg
    R = "C32.eject"
    if first_note(ctx, sc, R, nm, fi):
        return
    if alg == "Missing":
        ok = sc.settled(s.state.alive) == 0 and not [1 for a, f, m, n in sc.opened if sc.settled(a)]
        return ctx.add(R, nm + ": fails and writes nothing", HOLDS if ok else VIOLATED, "" if ok else "it goes on", fi.loc)
    if sc.raises():
        return ctx.bad(R, nm, "fails with %s" % show(sc.raises()[0][1])[:80], sc.raises()[0][2])
    saved = [(sc.settled(a), f, t) for a, f, t in sc.saved if sc.settled(a)]
    if len(saved) != 1:
        return ctx.add(R, nm + ": one file is written", VIOLATED if not saved else UNDECIDED, "%d writes" % len(saved), fi.loc)
    g, f, t = saved[0]
    ctx.add(R, nm + ": to the given file", HOLDS if g == 1 and f is out else VIOLATED if not imprecise_term(f) else UNDECIDED, "" if f is out else "to %s" % show(f)[:80], fi.loc)
    m = T("sym", "model_" + alg)
    ser = [x for x in subterms(t) if x.op == "call" and x.args[0] == SE + "serialize_algorithm"]
    ok = bool(ser) and ser[0].args[1] and ser[0].args[1][0] is m
    ctx.add(R, nm + ": the definition of the named algorithm", HOLDS if ok else VIOLATED if not imprecise_term(t) and ser else UNDECIDED, "" if ok else "writes %s" % show(t)[:100], fi.loc)


def c32_execute(ctx, how, out):
    fi = ctx.prog.func(CLI + "execute")
    ps = [a.arg for a in fi.node.args.args]
    sc = Dialog(ctx.prog)
    i = sc.i
    R = "C32.execute"
    nm = "execute with %s%s" % ({"both": "pipeline and algorithm", "neither": "nothing"}.get(how, how), ", output file" if out else "")
    data, pl, of = T("sym", "data_file"), T("sym", "pipeline_file"), T("sym", "output_file")
    for t in (data, pl, of):
        i.types[t] = "builtins.str"
    given = {"data_file": data, "pipeline": pl if how in ("pipeline", "both") else NONE, "algorithm": const("Other") if how in ("algorithm", "both") else NONE, "output_file": of if out else NONE, "log_level": const("ERROR")}
    missing = [x for x in given if x not in ps]
    if missing:
        return ctx.unk(R, nm, "no parameter %s" % missing[0], fi.loc)
    doc, spec = T("sym", "document"), T("sym", "loaded_algorithm")
    m = T("sym", "model_of_pipeline") if how in ("pipeline", "both") else T("sym", "model_Other")
    calls = []
    i.call_handlers[SE + "load_json"] = lambda it, f_, args, s_, n_: doc if args[0] is pl else None
    i.call_handlers[SE + "load_algorithm_from_specification"] = lambda it, f_, args, s_, n_: spec if args[0] is doc else None

    def factory(it, f_, args, s_, n_):
        if args[0] is not spec:
            return None
        it.ext_handlers["stub.of_pipeline"] = lambda it_, a, kw, s2, n2: T("sym", "model_of_pipeline")
        return T("ext", "stub.of_pipeline")

    i.call_handlers["causy.graph_model.graph_model_factory"] = factory
    i.call_handlers["causy.graph_utils.retrieve_edges"] = lambda it, f_, args, s_, n_: it.new_list(s_, [])
    for k in ("PC", "Other"):
        i.types.pop(T("sym", "model_" + k), None)
    for k in ("create_graph_from_data", "create_all_possible_edges", "execute_pipeline_steps"):
        def on(it, recv, args, kw, s_, n_, k=k):
            calls.append((sc.settled(s_.alive), k, recv, [it.freeze(a, s_) for a in args] + [it.freeze(v, s_) for v in kw.values()]))
            return NONE

        i.mcall_handlers[k] = on
    g = T("sym", "graph_of_model")
    hist = T("sym", "action_history")
    sc.attrs[(m, "graph")] = g
    sc.attrs[(g, "graph")] = g
    sc.attrs[(g, "action_history")] = hist
    nodes, edges = T("sym", "nodes"), T("sym", "edges")
    sc.attrs[(g, "nodes")] = nodes
    i.mcall_handlers["retrieve_edges"] = lambda it, recv, args, kw, s_, n_: edges if recv is g else None
    s = sc.run(fi, **given)
    if first_note(ctx, sc, R, nm, fi):
        return
    care = NOT(OR(0, NOT(truth(pl)), NOT(truth(of)), NOT(truth(data))))
    alive = AND(sc.settled(s.state.alive), care)
    if how == "neither":
        ok = alive == 0 and not [1 for c in calls if AND(c[0], care)] and not [1 for a, f, t in sc.saved if AND(sc.settled(a), care)]
        return ctx.add(R, nm + ": rejected", HOLDS if ok else VIOLATED, "" if ok else "it goes on", fi.loc)
    bad = [r for r in sc.raises() if AND(r[0], care)]
    if bad:
        return ctx.bad(R, nm, "fails with %s" % show(bad[0][1])[:80], bad[0][2])
    seen = [c for c in calls if AND(c[0], care)]
    order = [c[1] for c in seen]
    ok = order == ["create_graph_from_data", "create_all_possible_edges", "execute_pipeline_steps"] and all(AND(NOT(c[0]), care) == 0 for c in seen)
    unk = any(c[2] is not m and imprecise_term(c[2]) for c in seen)
    ctx.add(R, nm + ": data, all edges, then the steps", HOLDS if ok else UNDECIDED if unk else VIOLATED, "" if ok else "calls %s" % order, fi.loc)
    right = all(c[2] is m for c in seen)
    ctx.add(R, nm + ": of the given %s" % how, HOLDS if right else UNDECIDED if any(imprecise_term(c[2]) for c in seen) else VIOLATED, "" if right else "of %s" % [show(c[2])[:60] for c in seen], fi.loc)
    fed = [c for c in seen if c[1] == "create_graph_from_data"]
    if fed and fed[0][3]:
        l = fed[0][3][0]
        ref = dict(l.args[1]).get("reference") if l.op == "rec" else None
        ok = l.op == "rec" and l.args[0] == "causy.data_loader.JSONDataLoader" and ref is data
        ctx.add(R, nm + ": on the JSON data of the given file", HOLDS if ok else UNDECIDED if l.op != "rec" or imprecise_term(l) else VIOLATED, "" if ok else "on %s" % show(l)[:80], fi.loc)
    saved = [(AND(sc.settled(a), care), f, t) for a, f, t in sc.saved if AND(sc.settled(a), care)]
    if not out:
        return ctx.add(R, nm + ": no file is written", HOLDS if not saved else VIOLATED, "", fi.loc)
    if len(saved) != 1:
        return ctx.add(R, nm + ": one file is written", VIOLATED if not saved else UNDECIDED, "%d writes" % len(saved), fi.loc)
    gd, f, t = saved[0]
    ok = f is of and AND(NOT(gd), care) == 0
    ctx.add(R, nm + ": the result is written to the given file", HOLDS if ok else UNDECIDED if imprecise_term(f) else VIOLATED, "" if ok else "to %s when %s" % (show(f)[:60], show(B(gd))[:80]), fi.loc)
    recs = [x for x in subterms(t) if x.op == "rec" and x.args[0] == "causy.models.Result"]
    if not recs:
        return ctx.unk(R, nm, "what is written is not known: %s" % show(t)[:80], fi.loc)
    r = dict(recs[0].args[1])
    for k, w in (("action_history", hist), ("nodes", nodes), ("edges", edges)):
        q, wit = cmp_val(r.get(k, NONE), w, alive)
        ctx.add(R, "%s: the result has the %s of the model" % (nm, k.replace("_", " ")), VERDICT[q], "" if q == "eq" else "has %s" % show(r.get(k, NONE))[:80], fi.loc)
    a = settled_value(r.get("algorithm", NONE), alive) or NONE
    d = dict(a.args[1]) if a.op == "rec" else sc.dict_of(a) or {}
    typ, ref = d.get("type", NONE), d.get("reference", NONE)
    member = "FILE" if how in ("pipeline", "both") else "NAME"
    want = pl if member == "FILE" else const("Other")
    if not d:
        return ctx.unk(R, nm, "reference %s" % show(a)[:80], fi.loc)
    ok = ref is want and (show(typ).endswith("." + member) or is_const(typ) and cval(typ) == enum_value(ctx.prog, ART, member))
    ctx.add(R, nm + ": the result refers to what was executed", HOLDS if ok else UNDECIDED if imprecise_term(ref) or imprecise_term(typ) else VIOLATED, "" if ok else "refers to %s %s" % (show(typ)[:60], show(ref)[:60]), fi.loc)
