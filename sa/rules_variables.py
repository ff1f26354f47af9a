"""C21 variables: validation, resolution, substitution into every step; C22 isolation of models built from one algorithm."""
from .rules_data import *

VR = "causy.variables."
REFC = VR + "VariableReference"
KINDS = {"String": "builtins.str", "Integer": "builtins.int", "Float": "builtins.float", "Bool": "builtins.bool"}
TYPE_NAMES = {"String": "string", "Integer": "integer", "Float": "float", "Bool": "bool"}
VALUE, CHOICES, VNAME = T("sym", "value"), T("sym", "choices"), T("sym", "variable_name")


class Inst:
    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields


def build(i, st, x):
    """abstract heap structure from a nested Python description"""
    if isinstance(x, Term):
        return x
    if isinstance(x, Inst):
        o = Obj("inst", x.cls)
        r = i.new(st, o)
        fields = {k: build(i, st, v) for k, v in x.fields.items()}
        o = i.obj(st, r).copy()
        o.fields.update(fields)
        st.heap[r] = o
        return r
    if isinstance(x, list):
        return i.new_list(st, [build(i, st, y) for y in x])
    if isinstance(x, dict):
        r = i.new(st, Obj("dict"))
        for k, v in x.items():
            i.set_item(st, r, k if isinstance(k, Term) else const(k), build(i, st, v), None)
        return r
    return const(x) if not isinstance(x, bool) else (TRUE if x else FALSE)


def var_interp(prog):
    i = Interp(prog)
    i.recursion = 8
    for x in list(VALS.values()) + KEEP + [T("sym", "default_of_" + n) for n in VALS]:
        i.types[x] = "builtins.float"
    return i


def undecidable(ctx, rule, nm, s, loc):
    if s.notes:
        ctx.unk(rule, nm, s.notes[0], loc)
        return True
    return False


def raised(s, care=1):
    r = 0
    for x in s.raises:
        r = OR(r, AND(x[0].alive, care))
    return r


def wrong_class(s, care, ok=("builtins.ValueError",)):
    for x in s.raises:
        if AND(x[0].alive, care) and str(s.interp.exc_class(x[1])) not in ok:
            return x
    return None


def C21(ctx):
    for kind in KINDS:
        for given in list(KINDS.values()):
            ctx.guard("C21.validate", kind, c21_validate, ctx, kind, given)
        ctx.guard("C21.deserialize", kind, c21_deserialize, ctx, kind)
    ctx.guard("C21.deserialize", "unknown types", c21_deserialize_bad, ctx)
    ctx.guard("C21.values", "validate_variable_values", c21_values, ctx)
    ctx.guard("C21.resolve", "resolve_variables", c21_resolve, ctx)
    ctx.guard("C21.substitute", "references in steps", c21_substitute, ctx)
    ctx.guard("C21.references", "references in definitions", c21_references, ctx)
    ctx.guard("C21.model", "graph_model_factory", c21_model, ctx)


def c21_validate(ctx, kind, given):
    p = ctx.prog
    cls = VR + kind + "Variable"
    ci = p.cls(cls)
    ok = given == KINDS[kind]
    short = given.split(".")[1]
    for what in ("validate_value", "is_valid_value", "is_valid", "constructor"):
        for ch in ("no choices", "choices"):
            if what == "constructor" and given != KINDS[kind]:
                continue
            i = var_interp(p)
            st = State()
            i.types[VALUE] = given
            choices = CHOICES if ch == "choices" else NONE
            nm = "%sVariable.%s of a %s, %s" % (kind, what, short, ch)
            if what == "constructor":
                fi = p.find_method(ci, "__init__")
                if fi is None:
                    ctx.unk("C21.validate", nm, "no constructor", ci.loc)
                    continue
                obj = i.new(st, Obj("inst", cls))
                # model construction sets the fields to the (converted) data
                s = i.run(fi, args={}, kwargs=None, self_val=obj, st=st) if False else run_init(i, fi, obj, {"name": VNAME, "value": VALUE, "choices": choices}, st)
            else:
                fi = p.method(cls, what)
                obj = build(i, st, Inst(cls, name=VNAME, value=VALUE, choices=choices))
                args = {} if what == "is_valid" else {fi.node.args.args[1].arg: VALUE}
                s = i.run(fi, args=args, self_val=obj, st=st)
            ctx.note_run(s)
            if undecidable(ctx, "C21.validate", nm, s, fi.loc):
                continue
            care = truth(CHOICES) if ch == "choices" else 1
            care = AND(care, NOT(eq(CHOICES, NONE)))
            bad = 0 if ok else 1
            if ch == "choices":
                bad = OR(bad, NOT(H(CHOICES, VALUE)))
            if what in ("validate_value", "constructor"):
                q, wit = cmp_bool(raised(s), bad, care)
                ctx.add("C21.validate", nm + ": rejected exactly when type or choices are violated", VERDICT[q], wit if q != "eq" else "", fi.loc)
                w = wrong_class(s, care)
                ctx.require(w is None, "C21.validate", nm + ": rejected with a ValueError", "leaves with %s" % (show(w[1])[:80] if w else ""), w[2] if w else fi.loc)
            else:
                q, wit = cmp_bool(raised(s), 0, care)
                ctx.add("C21.validate", nm + ": never fails", VERDICT[q], wit if q != "eq" else "", fi.loc)
                q, wit = cmp_bool(truth(s.frz()), NOT(bad), AND(care, s.state.alive))
                ctx.add("C21.validate", nm + ": true exactly for valid values", VERDICT[q], wit if q != "eq" else "", fi.loc)


def run_init(i, fi, obj, data, st):
    """run a constructor taking **data (or explicit parameters)"""
    if fi.node.args.kwarg is not None:
        d = build(i, st, {k: v for k, v in data.items() if k not in [a.arg for a in fi.node.args.args]})
        args = {k: v for k, v in data.items() if k in [a.arg for a in fi.node.args.args]}
        args[fi.node.args.kwarg.arg] = d
        return i.run(fi, args=args, self_val=obj, st=st)
    return i.run(fi, args=data, self_val=obj, st=st)


def c21_deserialize(ctx, kind):
    p = ctx.prog
    fi = p.func(VR + "deserialize_variable")
    cls = VR + kind + "Variable"
    nm = "deserialize_variable of a %s" % TYPE_NAMES[kind]
    i = var_interp(p)
    st = State()
    i.types[VALUE] = KINDS[kind]
    d = build(i, st, {"name": VNAME, "value": VALUE, "choices": NONE, "type": TYPE_NAMES[kind]})
    s = i.run(fi, args={fi.node.args.args[0].arg: d}, st=st)
    ctx.note_run(s)
    if undecidable(ctx, "C21.deserialize", nm, s, fi.loc):
        return
    q, wit = cmp_bool(raised(s), 0, 1)
    ctx.add("C21.deserialize", nm + ": accepted", VERDICT[q], wit if q != "eq" else "", fi.loc)
    if q != "eq":
        return
    got = i.typeof(s.ret, s.state)
    ctx.require(got == cls, "C21.deserialize", nm + ": gives a %sVariable" % kind, "gives %s" % got, fi.loc)
    for f, want in (("name", VNAME), ("value", VALUE), ("type", const(TYPE_NAMES[kind]))):
        q, wit = cmp_val(observe(i, s.state, "v." + f, {"v": s.ret}), want, s.state.alive)
        ctx.add("C21.deserialize", "%s: keeps its %s" % (nm, f), VERDICT[q], wit if q != "eq" else "", fi.loc)


def c21_deserialize_bad(ctx):
    p = ctx.prog
    fi = p.func(VR + "deserialize_variable")
    for nm, d in (("an unknown type", {"name": VNAME, "value": VALUE, "type": "no such type"}), ("no type", {"name": VNAME, "value": VALUE})):
        i = var_interp(p)
        st = State()
        s = i.run(fi, args={fi.node.args.args[0].arg: build(i, st, d)}, st=st)
        ctx.note_run(s)
        c = "deserialize_variable of %s is rejected with a ValueError" % nm
        if undecidable(ctx, "C21.deserialize", c, s, fi.loc):
            continue
        q, wit = cmp_bool(raised(s), 1, 1)
        w = wrong_class(s, 1)
        ctx.add("C21.deserialize", c, VIOLATED if w is not None else VERDICT[q], show(w[1])[:80] if w else wit if q != "eq" else "", w[2] if w else fi.loc)


def variables_of(i, st):
    """two declared variables of different kinds"""
    D1, D2 = T("sym", "default1"), T("sym", "default2")
    i.types[D1], i.types[D2] = "builtins.float", "builtins.int"
    return build(i, st, [Inst(VR + "FloatVariable", name=const("first"), value=D1, choices=NONE), Inst(VR + "IntegerVariable", name=const("second"), value=D2, choices=NONE)]), (D1, D2)


def c21_values(ctx):
    p = ctx.prog
    fi = p.func(VR + "validate_variable_values")
    V1, V2 = T("sym", "value1"), T("sym", "value2")
    cases = [
        ({}, {}, False, "no values"),
        ({"first": V1}, {V1: "builtins.float"}, False, "one valid value"),
        ({"second": V2}, {V2: "builtins.int"}, False, "a valid value for the second variable"),
        ({"first": V1, "second": V2}, {V1: "builtins.float", V2: "builtins.int"}, False, "two valid values"),
        ({"first": V1}, {V1: "builtins.str"}, True, "a value of the wrong type"),
        ({"first": V1, "second": V2}, {V1: "builtins.float", V2: "builtins.str"}, True, "a valid value, then one of the wrong type"),
        ({"second": V2, "first": V1}, {V1: "builtins.float", V2: "builtins.str"}, True, "a value of the wrong type, then a valid one"),
        ({"second": V2}, {V2: "builtins.bool"}, True, "a boolean for an integer"),
        ({"third": V1}, {V1: "builtins.float"}, True, "an unknown name"),
        ({"first": V1, "third": V2}, {V1: "builtins.float", V2: "builtins.int"}, True, "a valid value, then an unknown name"),
    ]
    for vals, types_, bad, what in cases:
        nm = "validate_variable_values with " + what
        i = var_interp(p)
        st = State()
        vs, _ = variables_of(i, st)
        i.types.update(types_)
        alg = build(i, st, Inst("causy.models.Algorithm", variables=vs))
        ps = [a.arg for a in fi.node.args.args]
        s = i.run(fi, args={ps[0]: alg, ps[1]: build(i, st, vals)}, st=st)
        ctx.note_run(s)
        if undecidable(ctx, "C21.values", nm, s, fi.loc):
            continue
        q, wit = cmp_bool(raised(s), 1 if bad else 0, 1)
        w = wrong_class(s, 1)
        if w is not None:
            q, wit = "diff", "leaves with %s" % show(w[1])[:80]
        ctx.add("C21.values", "%s: %s" % (nm, "rejected with a ValueError" if bad else "accepted"), VERDICT[q], wit if q != "eq" else "", fi.loc)
        if not bad and q == "eq":
            q, wit = cmp_bool(truth(s.frz()), 1, s.state.alive)
            ctx.add("C21.values", nm + ": answers true", VERDICT[q], wit if q != "eq" else "", fi.loc)


def c21_resolve(ctx):
    p = ctx.prog
    fi = p.func(VR + "resolve_variables")
    V1, V2, V3 = T("sym", "value1"), T("sym", "value2"), T("sym", "value3")
    ps = [a.arg for a in fi.node.args.args]
    for vals, what in (({}, "no values"), ({"first": V1}, "the first"), ({"second": V2}, "the second"), ({"first": V1, "second": V2}, "both"), ({"third": V3, "second": V2}, "an undeclared one"), ({"first": FALSE, "second": const(0)}, "values that are false or zero")):
        nm = "resolve_variables given " + what
        i = var_interp(p)
        st = State()
        vs, (D1, D2) = variables_of(i, st)
        s = i.run(fi, args={ps[0]: vs, ps[1]: build(i, st, vals)}, st=st)
        ctx.note_run(s)
        if undecidable(ctx, "C21.resolve", nm, s, fi.loc):
            continue
        q, wit = cmp_bool(raised(s), 0, 1)
        ctx.add("C21.resolve", nm + ": does not fail", VERDICT[q], wit if q != "eq" else "", fi.loc)
        for n, d in (("first", D1), ("second", D2)):
            want = vals.get(n, d)
            q, wit = cmp_bool(obs_bool(i, s.state, "k in r", {"k": const(n), "r": s.ret}), 1, s.state.alive)
            if q == "eq":
                q, wit = cmp_val(observe(i, s.state, "r[k]", {"k": const(n), "r": s.ret}), want, s.state.alive)
            ctx.add("C21.resolve", "%s: the %s has its %s" % (nm, n, "given value" if n in vals else "default"), VERDICT[q], wit if q != "eq" else "", fi.loc)
        q, wit = cmp_bool(obs_bool(i, s.state, "k in r", {"k": const("third"), "r": s.ret}), 0, s.state.alive)
        ctx.add("C21.resolve", nm + ": only declared variables", VERDICT[q], wit if q != "eq" else "", fi.loc)


# a step tree with references at every depth
VALS = {n: T("sym", "value_of_" + n) for n in ("alpha", "beta", "gamma", "delta", "eps")}


def ref(n):
    return Inst(REFC, name=const(n))


LOOP = "causy.common_pipeline_steps.logic.Loop"
EXITN = "causy.common_pipeline_steps.exit_conditions.ExitOnNoActions"
PEARSON = "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"
ALLC = "causy.generators.AllCombinationsGenerator"
CS = "causy.models.ComparisonSettings"
KEEP = [T("sym", "kept%d" % n) for n in range(6)]


def step_tree(p, variant, as_dict=False):
    R = (lambda n: {"name": const(n), "type": const("reference")}) if as_dict else ref
    gen = lambda a, b: Inst(ALLC, comparison_settings=Inst(CS, min=R(a), max=KEEP[0]), chunked=FALSE, every_nth=R(b), generator=NONE, shuffle_combinations=NONE)
    plain = lambda: Inst(PEARSON, generator=gen("alpha", "beta"), threshold=R("gamma"), chunk_size_parallel_processing=KEEP[1], parallel=FALSE, display_name=R("delta"), needs_unapplied_actions=FALSE, apply_synchronous=R("eps"))
    if variant == "step":
        return plain()
    if variant == "loop":
        return Inst(LOOP, pipeline_steps=[plain(), plain()], exit_condition=Inst(EXITN), display_name=R("delta"))
    return Inst(LOOP, pipeline_steps=[Inst(LOOP, pipeline_steps=[plain()], exit_condition=Inst(EXITN), display_name=KEEP[2])], exit_condition=Inst(EXITN), display_name=R("delta"))


def leaf_paths(variant, root="x"):
    """expression -> variable name it must be replaced by (or kept term)"""

    def plain(r):
        return {r + ".generator.comparison_settings.min": "alpha", r + ".generator.comparison_settings.max": KEEP[0], r + ".generator.every_nth": "beta", r + ".threshold": "gamma", r + ".chunk_size_parallel_processing": KEEP[1], r + ".display_name": "delta", r + ".apply_synchronous": "eps", r + ".parallel": FALSE}

    if variant == "step":
        return plain(root)
    if variant == "loop":
        return {root + ".display_name": "delta", **plain(root + ".pipeline_steps[0]"), **plain(root + ".pipeline_steps[1]")}
    return {root + ".display_name": "delta", root + ".pipeline_steps[0].display_name": KEEP[2], **plain(root + ".pipeline_steps[0].pipeline_steps[0]")}


def c21_substitute(ctx):
    p = ctx.prog
    for c in (LOOP, EXITN, PEARSON, ALLC, CS):
        p.cls(c)
    fi = p.func(VR + "resolve_variables_to_algorithm_for_pipeline_steps")
    ps = [a.arg for a in fi.node.args.args]
    for variant in ("step", "loop", "loop in a loop"):
        for missing in (None, "alpha", "beta", "gamma", "delta"):
            nm = "references in a %s" % variant
            i = var_interp(p)
            st = State()
            lst = build(i, st, [step_tree(p, "step"), step_tree(p, variant)])
            vals = {k: v for k, v in VALS.items() if k != missing}
            s = i.run(fi, args={ps[0]: lst, ps[1]: build(i, st, vals)}, st=st)
            ctx.note_run(s)
            if missing:
                c = "%s: a reference without a value (%s) is rejected with a ValueError" % (nm, missing)
                if undecidable(ctx, "C21.substitute", c, s, fi.loc):
                    continue
                q, wit = cmp_bool(raised(s), 1, 1)
                w = wrong_class(s, 1)
                ctx.add("C21.substitute", c, VIOLATED if w else VERDICT[q], show(w[1])[:80] if w else wit if q != "eq" else "", w[2] if w else fi.loc)
                continue
            if undecidable(ctx, "C21.substitute", nm, s, fi.loc):
                continue
            q, wit = cmp_bool(raised(s), 0, 1)
            ctx.add("C21.substitute", nm + ": does not fail", VERDICT[q], wit if q != "eq" else "", fi.loc)
            for k, path in ((0, "step"), (1, variant)):
                for expr, want in leaf_paths(path, "r[%d]" % k).items():
                    got = observe(i, s.state, expr, {"r": s.ret})
                    w = VALS[want] if isinstance(want, str) else want
                    q, wit = cmp_val(got, w, s.state.alive)
                    ctx.add("C21.substitute", "%s: %s %s" % (nm, expr[2:], "has the value of its variable" if isinstance(want, str) else "is kept"), VERDICT[q], wit if q != "eq" else "", fi.loc)


def c21_references(ctx):
    p = ctx.prog
    fi = p.func(VR + "deserialize_variable_references")
    for variant in ("step", "loop", "loop in a loop"):
        nm = "references in the definition of a %s" % variant
        i = var_interp(p)
        st = State()
        obj = build(i, st, step_tree(p, variant, as_dict=True))
        s = i.run(fi, args={fi.node.args.args[0].arg: obj}, st=st)
        ctx.note_run(s)
        if undecidable(ctx, "C21.references", nm, s, fi.loc):
            continue
        q, wit = cmp_bool(raised(s), 0, 1)
        ctx.add("C21.references", nm + ": does not fail", VERDICT[q], wit if q != "eq" else "", fi.loc)
        for expr, want in leaf_paths(variant, "r").items():
            if isinstance(want, str):
                ok = observe(i, s.state, "isinstance(%s, c)" % expr, {"r": s.ret, "c": T("cls", REFC)})
                q, wit = cmp_bool(truth(ok), 1, s.state.alive)
                if q == "eq":
                    q, wit = cmp_val(observe(i, s.state, expr + ".name", {"r": s.ret}), const(want), s.state.alive)
                ctx.add("C21.references", "%s: %s becomes a reference to its variable" % (nm, expr), VERDICT[q], wit if q != "eq" else "", fi.loc)
            else:
                q, wit = cmp_val(observe(i, s.state, expr, {"r": s.ret}), want, s.state.alive)
                ctx.add("C21.references", "%s: %s is kept" % (nm, expr), VERDICT[q], wit if q != "eq" else "", fi.loc)


def run_factory(p, variant, given, declared=True):
    fi = p.func("causy.graph_model.graph_model_factory")
    i = var_interp(p)
    st = State()
    decl = [Inst(VR + "FloatVariable", name=const(n), value=T("sym", "default_of_" + n), choices=NONE) for n in VALS] if declared else []
    alg = build(i, st, Inst("causy.models.Algorithm", name=const("algorithm"), pipeline_steps=[step_tree(p, variant)], edge_types=[], extensions=NONE, variables=decl if declared else NONE, pre_graph_update_hooks=NONE, post_graph_update_hooks=NONE))
    ps = [a.arg for a in fi.node.args.args]
    s = i.run(fi, args={ps[0]: alg, ps[1]: build(i, st, given) if given is not None else NONE}, st=st)
    return fi, i, s, alg


def c21_model(ctx):
    p = ctx.prog
    for variant in ("step", "loop"):
        for given in ("given", "defaults", "partly given", "empty"):
            nm = "model of a %s, variables %s" % (variant, given)
            vals = {"given": dict(VALS), "defaults": None, "partly given": {k: v for k, v in VALS.items() if k in ("alpha", "gamma")}, "empty": {}}[given]
            fi, i, s, alg = run_factory(p, variant, vals)
            ctx.note_run(s)
            if undecidable(ctx, "C21.model", nm, s, fi.loc):
                continue
            q, wit = cmp_bool(raised(s), 0, 1)
            ctx.add("C21.model", nm + ": can be built", VERDICT[q], wit if q != "eq" else "", fi.loc)
            st = s.state
            m = i.call(s.ret, [], {}, st, None)
            for expr, want in leaf_paths(variant, "m.algorithm.pipeline_steps[0]").items():
                w = (VALS[want] if vals and want in vals else T("sym", "default_of_" + want)) if isinstance(want, str) else want
                q, wit = cmp_val(observe(i, st, expr, {"m": m}), w, st.alive)
                ctx.add("C21.model", "%s: %s" % (nm, expr[2:]), VERDICT[q], wit if q != "eq" else "", fi.loc)
                q, wit = cmp_val(observe(i, st, expr.replace("m.algorithm.", "m."), {"m": m}), w, st.alive)
                ctx.add("C21.model", "%s: %s" % (nm, expr.replace("m.algorithm.", "")), VERDICT[q], wit if q != "eq" else "", fi.loc)
                if isinstance(want, str):
                    q, wit = cmp_val(observe(i, st, expr.replace("m.algorithm.", "m._original_algorithm.") + ".name", {"m": m}), const(want), st.alive)
                    ctx.add("C21.model", "%s: the original algorithm keeps the reference %s" % (nm, expr.replace("m.algorithm.", "")), VERDICT[q], wit if q != "eq" else "", fi.loc)
                    q, wit = cmp_val(observe(i, st, expr.replace("m.algorithm.", "a.") + ".name", {"a": alg}), const(want), st.alive)
                    ctx.add("C21.isolation", "%s: the algorithm handed in keeps the reference %s" % (nm, expr.replace("m.algorithm.", "")), VERDICT[q], wit if q != "eq" else "", fi.loc)
