"""C20 loading of algorithms from their definitions."""
import ast
import re

from .rules_loading import *

STEPI = "causy.interfaces.PipelineStepInterface"
LOGICI = "causy.interfaces.LogicStepInterface"
GENI = "causy.interfaces.GeneratorInterface"
EXITI = "causy.interfaces.ExitConditionInterface"
COMPI = "causy.interfaces.ComparisonSettingsInterface"
EXTI = "causy.interfaces.ExtensionInterface"
EDGEI = "causy.interfaces.EdgeTypeInterface"
GU = "causy.graph_utils."
NESTED = {"generator", "comparison_settings", "exit_condition", "pipeline_steps"}
PARAMETER = {"BoolParameter": "bool", "IntegerParameter": "int", "FloatParameter": "float", "StringParameter": "str"}


def concrete_classes(p, base):
    out = []
    for c in p.subclasses(base):
        ci = c if not isinstance(c, str) else p.classes[c]
        if ci.qual == base or ci.qual.endswith("Interface") or not ci.qual.startswith("causy."):
            continue
        if any(f is not None and f.is_abstract for f in (p.find_method(ci, n) for n in ("process", "execute", "generate", "check"))):
            continue
        out.append(ci)
    return sorted(out, key=lambda c: c.qual)


class Loader:
    """interpretation of the loading functions; a definition is a nested Python description"""

    def __init__(self, p):
        self.p = p
        i = self.i = var_interp(p)
        i.recursion = 12
        self.st = State()
        self.n = 0
        self.imported = []

        def imp(it, args, kw, s, n):
            x = it.freeze(args[0], s)
            if is_const(x):
                self.imported.append((s.alive, cval(x), n))
                if cval(x) in p.modules:
                    return T("module", cval(x))
            return None

        i.ext_handlers["importlib.import_module"] = imp
        i.mcall_handlers["validate_python"] = self.validate
        i.on_attr = self.attr

    def attr(self, st, o, a):
        """the instance dictionaries of enum members, classes and functions"""
        if a != "__dict__" or o.op not in ("enum", "cls", "func"):
            return None
        d = {}
        if o.op == "enum":
            d = {"_value_": o.args[2], "_name_": const(o.args[1]), "__objclass__": T("cls", o.args[0])}
        elif o.op == "cls" and o.args[0].startswith("builtins."):
            d = {"maketrans": T("func", "builtin")}
        elif o.op == "cls":
            d = {"_member_type_": T("cls", "builtins.str")}
        return build(self.i, st, d)

    def validate(self, it, recv, args, kw, s, n):
        """TypeAdapter(cls).validate_python(d): the model with the fields of d"""
        if not (recv.op == "call" and recv.args[0] == "pydantic.TypeAdapter" and recv.args[1][0].op == "cls") or args[0].op != "ref":
            return None
        o = it.obj(s, args[0])
        if o.kind != "dict" or not all(is_const(k) and pr == 1 for k, pr, v in o.cells):
            return None
        return it.instantiate(recv.args[1][0].args[0], [], {cval(k): v for k, pr, v in o.cells}, s, n)

    def sym(self, kind, hint):
        self.n += 1
        t = T("sym", "%s_%d" % (hint, self.n))
        self.i.types[t] = "builtins." + kind
        return t


def annotation(p, ci, f):
    for c in p.mro(ci):
        if not isinstance(c, str) and f in getattr(c, "attrs", {}):
            ann = c.attrs[f][0]
            return ast.unparse(ann) if ann is not None else ""
    return ""


def scalar_kind(p, ci, f):
    a = annotation(p, ci, f)
    for k, v in PARAMETER.items():
        if k in a:
            return v
    for v in ("bool", "int", "float", "str"):
        if re.search(r"\b%s\b" % v, a):
            return v
    return "str" if a else None


def definition(L, ci, values, nested=None):
    """(definition, expected fields) of an object of a class.

    values chooses the parameters: "symbolic", "false", "true", "reference", "none" or "absent";
    nested maps the names of structured parameters to such pairs"""
    p = L.p
    d, want = {"name": ci.qual}, {}
    for f in L.i.field_names(ci):
        if f == "name":
            continue
        if f in NESTED:
            x = (nested or {}).get(f)
            if isinstance(x, list):
                d[f] = [y[0] for y in x]
                want[f] = [y[1] for y in x]
            elif x is not None:
                d[f], want[f] = x
            continue
        k = scalar_kind(p, ci, f)
        if k is None or values == "absent":
            continue
        if values == "none":
            fa = p.find_attr(ci, f)
            if fa is not None and isinstance(fa[1], ast.Constant) and fa[1].value is None:
                d[f] = want[f] = NONE
            continue
        if values == "reference":
            if not any(x in annotation(p, ci, f) for x in PARAMETER):
                continue
            ref = "variable_" + f
            d[f] = {"name": ref, "type": "reference"}
            want[f] = (REFC, {"name": const(ref)})
            continue
        if k == "bool":
            v = TRUE if values == "true" else FALSE
        elif values == "false" and k in ("int", "float"):
            v = const(0)
        else:
            v = L.sym(k, f)
        d[f] = want[f] = v
    return d, (ci.qual, want)


def expect(ctx, L, st, rule, nm, got, want, loc, top="definition"):
    """compare a frozen value with the description of an object; unnamed fields have the default of the class"""
    got = settled_value(got, st.alive)
    if isinstance(want, Term):
        if got is None:
            return ctx.add(rule, nm + " has the value of the definition", VIOLATED, "missing", loc)
        q, wit = cmp_val(got, want, st.alive)
        return ctx.add(rule, nm + " has the value of the definition", VERDICT[q], "%s instead of %s" % (show(got)[:80], show(want)[:80]) if q != "eq" else "", loc)
    if got is None:
        return ctx.unk(rule, nm, "the value is conditional", loc)
    if isinstance(want, list):
        items, why = concrete(got, st.alive)
        if items is None and got.op == "list" and all(x.op != "seg" or not x.args[0] and x.args[2] == "elem" for x in got.args):
            gs = [AND(NOT(x.args[1].n), st.alive) for x in got.args if x.op == "seg"]
            bad = [g for g in gs if g and imprecise_bdd(g) is None]
            if len(got.args) <= len(want) and bad:
                return ctx.add(rule, nm + " has every entry of the definition", VIOLATED, "an entry is missing when %s" % witness(bad[0]), loc)
        if items is None:
            return ctx.add(rule, nm + " is a list", VIOLATED if imprecise_term(got) is None and got.op in ("const", "rec", "dict") else UNDECIDED, why, loc)
        ctx.require(len(items) == len(want), rule, nm + " has every entry of the definition", "%d instead of %d" % (len(items), len(want)), loc)
        for k, (a, b) in enumerate(zip(items, want)):
            expect(ctx, L, st, rule, "%s[%d]" % (nm, k), a, b, loc)
        return
    cls, fields = want
    if got.op != "rec":
        return ctx.add(rule, nm + " is an object", VIOLATED if imprecise_term(got) is None and got.op in ("const", "dict", "list") else UNDECIDED, show(got)[:120], loc)
    ctx.require(got.args[0] == cls, rule, nm + " has the class its definition names", "has the class %s" % got.args[0], loc)
    if got.args[0] != cls:
        return
    have = dict(got.args[1])
    ci = L.p.classes[cls]
    for f in L.i.field_names(ci):
        if f == "name" and f not in fields:
            continue
        if f in fields:
            if f not in have:
                ctx.add(rule, "%s.%s is set" % (nm, f), VIOLATED, "missing", loc)
            else:
                expect(ctx, L, st, rule, "%s.%s" % (nm, f), have[f], fields[f], loc)
            continue
        fa = L.p.find_attr(ci, f)
        if fa is None or fa[1] is None:
            continue
        dflt = L.i.freeze(L.i.class_attr_value(fa, st), st)
        g = settled_value(have[f], st.alive) if f in have else dflt
        if g is None:
            ctx.unk(rule, "%s.%s" % (nm, f), "the value is conditional", loc)
            continue
        q, wit = cmp_val(g, dflt, st.alive)
        ctx.add(rule, "%s.%s has its default" % (nm, f), VERDICT[q], "%s instead of %s" % (show(g)[:80], show(dflt)[:80]) if q != "eq" else "", loc)


def load(ctx, L, rule, nm, defs, wants, pre=""):
    """load a list of step definitions and compare"""
    fi = L.p.func(GU + "load_pipeline_steps_by_definition")
    i, st = L.i, L.st
    lst = build(i, st, defs)
    before = i.freeze(lst, st)
    s = i.run(fi, args={fi.node.args.args[0].arg: lst}, st=st)
    ctx.note_run(s)
    if undecidable(ctx, rule, nm, s, fi.loc):
        return
    q, wit = cmp_bool(raised(s), 0, 1)
    ctx.add(rule, nm + ": loads", VERDICT[q], "%s %s" % (show(s.raises[0][1])[:100] if s.raises else "", wit) if q != "eq" else "", s.raises[0][2] if s.raises and s.raises[0][2] else fi.loc)
    if q == "ne":
        return
    expect(ctx, L, s.state, rule, nm, i.freeze(s.ret, s.state), wants, fi.loc)
    for e in s.events:
        if e.kind == "setattr" and e.data[0].op == "cls" and AND(e.guard, s.state.alive):
            ctx.add(rule, nm + ": no class is changed", VIOLATED, "sets %s of %s" % (e.data[1], e.data[0].args[0]), fi.loc)
            break
    q, wit = cmp_val(i.freeze(lst, s.state), before, s.state.alive)
    ctx.add(rule, nm + ": the definition is left as it was", VERDICT[q], wit if q != "eq" else "", fi.loc)


def C20(ctx):
    p = ctx.prog
    steps, logic, gens, exits, comps, exts = (concrete_classes(p, b) for b in (STEPI, LOGICI, GENI, EXITI, COMPI, EXTI))
    for what, cs in (("pipeline step", steps), ("logic step", logic), ("generator", gens), ("exit condition", exits), ("comparison settings", comps), ("extension", exts)):
        if not cs:
            raise AnalysisError("no %s class found" % what)
        for ci in cs:
            ctx.guard("C20.name", ci.qual, c20_name, ctx, ci)
            ctx.guard("C20.dump", ci.qual, c20_dump, ctx, ci)
    for ci in steps:
        for v in ("symbolic", "false", "true", "reference", "none", "absent"):
            ctx.guard("C20.step", "%s, %s" % (ci.qual, v), c20_step, ctx, ci, v, comps[0])
    for g in gens:
        for v in ("symbolic", "false", "true", "reference", "none", "absent"):
            ctx.guard("C20.generator", "%s, %s" % (g.qual, v), c20_generator, ctx, g, v, steps, gens, comps[0])
    for l in logic:
        for v in ("symbolic", "reference", "none"):
            for k in (1, 2, 3):
                ctx.guard("C20.logic", "%s, %s, %d steps" % (l.qual, v, k), c20_logic, ctx, l, v, k, steps, exits, logic)
    ctx.guard("C20.sequence", "several steps", c20_sequence, ctx, steps)
    for ext in ("given", "none", "absent"):
        for var in ("given", "none", "absent"):
            ctx.guard("C20.algorithm", "algorithm, extensions %s, variables %s" % (ext, var), c20_algorithm, ctx, ext, var, steps, exts)
    ctx.guard("C20.serialize", "serialize_algorithm", c20_serialize, ctx)


def c20_name(ctx, ci):
    """the serialised name of an object is the path from which its class is loaded"""
    p = ctx.prog
    L = Loader(p)
    i, st = L.i, L.st
    fi = p.find_method(ci, "name")
    if fi is None or not fi.is_property:
        ctx.add("C20.name", "name of %s" % ci.qual, VIOLATED, "has no computed name", ci.loc)
        return
    decs = [ast.unparse(d) for d in fi.node.decorator_list]
    ctx.require(any(d.split("(")[0].endswith("computed_field") for d in decs), "C20.name", "the name of %s is serialised" % ci.qual, "decorators %s" % decs, fi.loc)
    obj = build(i, st, Inst(ci.qual))
    s = i.run(fi, args={}, self_val=obj, st=st)
    ctx.note_run(s)
    if undecidable(ctx, "C20.name", ci.qual, s, fi.loc):
        return
    q, wit = cmp_val(s.frz(), const(ci.qual), s.state.alive)
    ctx.add("C20.name", "the name of %s is the path of its class" % ci.qual, VERDICT[q], "is %s" % show(s.frz())[:100] if q != "eq" else "", fi.loc)


def c20_dump(ctx, ci):
    """no parameter is left out of the serialised form; values of structured parameters are dumped by their declared type"""
    p = ctx.prog
    i = Interp(p)
    declared = next((b for b in (GENI, EXITI, COMPI) if p.is_subclass(ci, b)), None)
    names = i.field_names(p.cls(declared)) if declared else None
    for c in p.mro(ci):
        if isinstance(c, str) or not hasattr(c, "attrs"):
            continue
        for f in c.attr_order:
            ann, val = c.attrs[f][0], c.attrs[f][1]
            if f.startswith("_") or ann is None:
                continue
            ok = not ("ClassVar" in ast.unparse(ann) or isinstance(val, ast.Call) and any(k.arg in ("exclude", "alias", "serialization_alias") and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in val.keywords))
            ctx.require(ok, "C20.dump", "%s.%s is serialised" % (ci.qual, f), "the field is excluded or renamed", c.loc)
            if names is not None:
                ctx.require(f in names, "C20.dump", "%s.%s is serialised where its declared type is %s" % (ci.qual, f, declared.split(".")[-1]), "only declared in %s" % c.qual, c.loc)


def comparison(L, comp, values="symbolic"):
    return definition(L, comp, values)


def c20_step(ctx, ci, values, comp):
    L = Loader(ctx.prog)
    d, w = definition(L, ci, values)
    load(ctx, L, "C20.step", "%s, parameters %s" % (ci.qual.split(".")[-1], values), [d], [w])


def wraps(p, g):
    """generators which take the values of another generator"""
    return "generator" in g.attrs


def c20_generator(ctx, g, values, steps, gens, comp):
    L = Loader(ctx.prog)
    p = ctx.prog
    step = next((c for c in steps if c.qual.endswith("PartialCorrelationTest")), steps[0])
    inner = {"comparison_settings": definition(L, comp, values)} if values != "absent" else {}
    if wraps(p, g):
        for h in gens:
            if wraps(p, h):
                continue
            L = Loader(p)
            d, w = definition(L, g, values, {**inner, "generator": definition(L, h, values, {"comparison_settings": definition(L, comp, "symbolic")})})
            sd, sw = definition(L, step, "absent", {"generator": (d, w)})
            load(ctx, L, "C20.generator", "%s of %s, parameters %s" % (g.qual.split(".")[-1], h.qual.split(".")[-1], values), [sd], [sw])
        return
    d, w = definition(L, g, values, inner)
    sd, sw = definition(L, step, "absent", {"generator": (d, w)})
    load(ctx, L, "C20.generator", "%s, parameters %s" % (g.qual.split(".")[-1], values), [sd], [sw])


def c20_logic(ctx, l, values, k, steps, exits, logic):
    L = Loader(ctx.prog)
    nm = "%s of %d steps, parameters %s" % (l.qual.split(".")[-1], k, values)
    inner = [definition(L, steps[(j * 3) % len(steps)], "false" if j else values if values != "none" else "symbolic") for j in range(k)]
    d, w = definition(L, l, values, {"pipeline_steps": inner, "exit_condition": definition(L, exits[0], "symbolic")})
    load(ctx, L, "C20.logic", nm, [d], [w])


def c20_sequence(ctx, steps):
    L = Loader(ctx.prog)
    ds = [definition(L, c, v) for c, v in zip([steps[0], steps[1], steps[0], steps[-1]], ("false", "symbolic", "true", "reference"))]
    load(ctx, L, "C20.sequence", "several steps", [d for d, _ in ds], [w for _, w in ds])
    L = Loader(ctx.prog)
    load(ctx, L, "C20.sequence", "no steps", [], [])


def c20_algorithm(ctx, ext, var, steps, exts):
    p = ctx.prog
    L = Loader(p)
    fi = p.func(SE + "load_algorithm_from_specification")
    i, st = L.i, L.st
    nm = "algorithm, extensions %s, variables %s" % (ext, var)
    ds = [definition(L, c, v) for c, v in zip([steps[1], steps[0], steps[1]], ("false", "symbolic", "reference"))]
    edges = [c for c in p.subclasses(EDGEI) if c.qual != EDGEI and c.qual.startswith("causy.edge_types.")]
    edges.sort(key=lambda c: c.qual)
    spec = {"name": T("sym", "name_of_algorithm"), "pipeline_steps": [d for d, _ in ds]}
    i.types[spec["name"]] = "builtins.str"
    want = {"name": spec["name"], "pipeline_steps": [w for _, w in ds]}
    spec["edge_types"], want["edge_types"] = [], []
    for c in edges:
        x = i.class_attr_value(p.find_attr(c, "name"), st)
        spec["edge_types"].append({"name": x, "IS_DIRECTED": i.class_attr_value(p.find_attr(c, "IS_DIRECTED"), st), "STR_REPRESENTATION": i.class_attr_value(p.find_attr(c, "STR_REPRESENTATION"), st)})
        want["edge_types"].append((c.qual, {"name": x}))
    want["extensions"], want["variables"] = [], []
    if ext == "none":
        spec["extensions"] = NONE
    elif ext == "given":
        e = next((c for c in exts if not i.field_names(c)), None)
        if e is not None:
            spec["extensions"] = [{"name": e.qual}]
            want["extensions"] = [(e.qual, {})]
    if var == "none":
        spec["variables"] = NONE
    elif var == "given":
        spec["variables"] = []
        for k in ("Float", "Integer", "String", "Bool"):
            v = L.sym(KINDS[k].split(".")[1], "value")
            n = "v" + k
            spec["variables"].append({"name": n, "type": TYPE_NAMES[k], "value": v, "choices": NONE})
            want["variables"].append((VR + k + "Variable", {"name": const(n), "value": v, "choices": NONE}))
    d = build(i, st, spec)
    before = i.freeze(d, st)
    s = i.run(fi, args={fi.node.args.args[0].arg: d}, st=st)
    ctx.note_run(s)
    if undecidable(ctx, "C20.algorithm", nm, s, fi.loc):
        return
    q, wit = cmp_bool(raised(s), 0, 1)
    ctx.add("C20.algorithm", nm + ": loads", VERDICT[q], "%s %s" % (show(s.raises[0][1])[:100] if s.raises else "", wit) if q != "eq" else "", fi.loc)
    if q == "ne":
        return
    expect(ctx, L, s.state, "C20.algorithm", nm, i.freeze(s.ret, s.state), ("causy.models.Algorithm", want), fi.loc)
    q, wit = cmp_val(i.freeze(d, s.state), before, s.state.alive)
    ctx.add("C20.algorithm", nm + ": the definition is left as it was", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c20_serialize(ctx):
    """the serialised form is the dump of the algorithm of the model"""
    p = ctx.prog
    fi = p.func(SE + "serialize_algorithm")
    ps = [a.arg for a in fi.node.args.args]
    for given in (False, True):
        i = var_interp(p)
        st = State()
        nm = "serialize_algorithm%s" % (" under another name" if given else "")
        alg = build(i, st, Inst("causy.models.Algorithm", name=const("algorithm"), pipeline_steps=T("sym", "steps"), edge_types=T("sym", "edge_types"), extensions=T("sym", "extensions"), variables=T("sym", "variables"), pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
        m = build(i, st, Inst("causy.graph_model.AbstractGraphModel", algorithm=alg))
        dumped = []

        def dump(it, recv, args, kw, s, n):
            if recv is not alg:
                return None
            dumped.append((it.freeze(recv, s), args, kw))
            return T("call", "dump", (it.freeze(recv, s),))

        i.mcall_handlers["model_dump"] = dump
        s = i.run(fi, args={ps[0]: m, ps[1]: const("other") if given else NONE}, st=st)
        ctx.note_run(s)
        if undecidable(ctx, "C20.serialize", nm, s, fi.loc):
            continue
        r = s.frz()
        ok = r.op == "call" and r.args[0] == "dump"
        if not ok:
            ctx.unk("C20.serialize", nm, "result is %s" % show(r)[:100], fi.loc)
            continue
        ctx.require(not dumped[0][1] and set(dumped[0][2]) <= {"mode"}, "C20.serialize", nm + ": dumps everything", "model_dump with options", fi.loc)
        f = dict(r.args[1][0].args[1])
        for k in ("pipeline_steps", "edge_types", "extensions", "variables"):
            q, wit = cmp_val(f[k], T("sym", {"pipeline_steps": "steps"}.get(k, k)), s.state.alive)
            ctx.add("C20.serialize", "%s: %s" % (nm, k), VERDICT[q], wit if q != "eq" else "", fi.loc)
        q, wit = cmp_val(f["name"], const("other" if given else "algorithm"), s.state.alive)
        ctx.add("C20.serialize", nm + ": name", VERDICT[q], wit if q != "eq" else "", fi.loc)
