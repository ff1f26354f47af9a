"""C07: steps, generators and exit conditions only read the graph."""
import re

from .rules_generators import *

STEPI = "causy.interfaces.PipelineStepInterface"
GENI = "causy.interfaces.GeneratorInterface"
EXITI = "causy.interfaces.ExitConditionInterface"
FRESH = {"clone", "copy", "deepcopy", "tolist", "keys", "values", "items", "model_dump"}
VIEWS = {"view", "reshape", "squeeze", "unsqueeze", "t", "transpose", "detach", "get", "setdefault", "numpy", "flatten", "contiguous", "double", "float"}
NONDET = re.compile(r"^(random\.|numpy\.random\.|torch\.(rand|randn|randint|randperm|normal|bernoulli|multinomial)|time\.|datetime\.datetime\.(now|utcnow)|os\.(environ|getenv|urandom|getpid)|uuid\.|secrets\.)")


def root(t):
    while True:
        if t.op in ("idx", "attr", "first", "last", "slice"):
            t = t.args[0]
        elif t.op == "mcall":
            r, n = (t.args[0], t.args[1]) if not isinstance(t.args[0], str) else (t.args[1], t.args[0])
            if n in VIEWS:
                t = r
                continue
            return t
        else:
            return t


def fresh(t):
    """the value was made during the run"""
    if t.op == "cases":
        return all(fresh(x) for _, x in cases_of(t))
    r = root(t)
    return r.op in ("ref", "call", "mcall", "poly", "list", "dict", "set", "tup", "rec", "copyof", "shallow", "const", "phi", "newobj") or r.op == "sym" and str(r.args[0]).startswith("tensor")


WHAT = {"setattr": "writes attribute", "setitem": "writes an item of", "delitem": "deletes an item of", "delattr": "deletes an attribute of", "mutcall": "changes", "augassign": "changes in place", "setglobal": "writes the module variable"}


def effects(S, s, before):
    """(verdict, text, location) of every effect on something that existed before the run"""
    out = []
    for e in s.events:
        if AND(e.guard, S.care) == 0:
            continue
        if e.kind in WHAT and e.kind != "setglobal":
            t = e.data[0]
            if fresh(t):
                continue
            keys = written_keys(s.interp, e)
            if keys is not None:
                for key in keys:
                    out.append((VIOLATED if imprecise_term(t) is None and imprecise_bdd(AND(e.guard, S.care)) is None else UNDECIDED, "writes %r of %s" % (key, show(t)[:80]), e))
                continue
            txt = "%s %s%s" % (WHAT[e.kind], show(t)[:80], "." + str(e.data[1]) if e.kind in ("setattr", "mutcall", "delattr") else "")
            out.append((VIOLATED if imprecise_term(t) is None and imprecise_bdd(AND(e.guard, S.care)) is None else UNDECIDED, txt, e))
        elif e.kind == "setglobal":
            out.append((VIOLATED, "writes the module variable %s" % e.data[0], e))
        elif e.kind == "mcall":
            n = e.data[1] if not isinstance(e.data[0], str) else e.data[0]
            o = e.data[0] if not isinstance(e.data[0], str) else e.data[1]
            if isinstance(n, str) and re.match(r"^[a-z0-9]+(_[a-z0-9]+)*_$", n) and isinstance(o, Term) and not fresh(o):
                out.append((VIOLATED, "changes %s in place with %s" % (show(o)[:80], n), e))
            elif isinstance(n, str) and MUTATOR.match(n) and o is S.g:
                out.append((VIOLATED, "calls %s of the graph" % n, e))
    for stt in [s.state] + [r[0] for r in s.raises]:
        for r, o in before.items():
            n = stt.heap.get(r)
            if n is not None and n is not o and not n.same(o):
                # ignore differences outside the care set
                if same_under(n, o, AND(S.care, stt.alive)):
                    continue
                out.append((VIOLATED, "changes %s" % NAMES.get(r, show(s.interp.freeze(r, stt))[:80]), None))
    return out


def written_keys(i, e):
    """constant keys written by d[key] = .. or d.update({key: ..}), None when they are not constant"""
    if e.kind == "setitem" and is_const(e.data[1]):
        return [cval(e.data[1])]
    if e.kind == "mutcall" and e.data[1] == "update":
        keys = []
        for a in e.data[2:]:
            for x in a if isinstance(a, tuple) else (a,):
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                    keys.append(x[0])
                elif isinstance(x, Term) and x.op == "dict":
                    for c in x.args:
                        for k in c if isinstance(c, tuple) else ():
                            if isinstance(k, tuple) and k and isinstance(k[0], Term):
                                if not is_const(k[0]):
                                    return None
                                keys.append(cval(k[0]))
        return keys or None
    return None


MUTATOR = re.compile(r"^_?(add|remove|delete|update|restore|purge|set|clear|discard|insert)(_|$)")


NAMES = {}


def same_under(n, o, care):
    if n.fields != o.fields or n.kind != o.kind or len(n.q) != len(o.q):
        return False
    if n.q != o.q:
        return False
    if n.segs != o.segs:
        return False
    a, b = {k: (p, v) for k, p, v in n.cells}, {k: (p, v) for k, p, v in o.cells}
    for k in set(a) | set(b):
        p, v = a.get(k, (0, None))
        q, w = b.get(k, (0, None))
        if AND(XOR(p, q), care):
            return False
        if v is not w and AND(p, care):
            return False
    return True


def snapshot(S):
    NAMES.clear()
    for f in ("nodes", "edges", "_reverse_edges", "_deleted_edges", "edge_history"):
        r = S.tbl.get((S.g, f))
        if r is not None:
            NAMES[r] = "graph." + f
    for x in range(S.k):
        NAMES[S.fw_in[x]] = "graph.edges[%s]" % S.nodes[x].args[0]
        NAMES[S.bw_in[x]] = "graph._reverse_edges[%s]" % S.nodes[x].args[0]
    return dict(S.st.heap)


def report(ctx, rule, nm, S, s, fi, before):
    eff = effects(S, s, before)
    if not eff:
        ctx.add(rule, nm, UNDECIDED if s.notes else HOLDS, s.notes[0] if s.notes else "", fi.loc)
        return
    best = {}
    for v, txt, e in eff:
        if best.get(txt) != VIOLATED:
            best[txt] = v
    for txt, v in sorted(best.items()):
        ctx.add(rule, "%s: %s" % (nm, txt), v, "", fi.loc)


def nondet(S, s):
    for e in s.events:
        if e.kind == "ext" and isinstance(e.data[0], str) and NONDET.match(e.data[0]) and AND(e.guard, S.care):
            return e.data[0]


def C07(ctx):
    p = ctx.prog
    n = 0
    for ci in sorted(p.subclasses(STEPI), key=lambda c: c.qual):
        fi = p.find_method(ci, "process")
        if fi is None or fi.is_abstract or not ci.qual.startswith("causy."):
            continue
        n += 1
        for m, k in ((2, 4), (3, 4), (4, 4)):
            nm = "%s.process with %d nodes" % (ci.name, m)
            ctx.guard("C07.step", nm, one_step, ctx, nm, ci, fi, m, k)
    if not n:
        ctx.unk("C07.step", "pipeline steps", "none found", "")
    for ci in sorted(p.subclasses(GENI), key=lambda c: c.qual):
        fi = p.find_method(ci, "generate")
        if fi is None or fi.is_abstract or not ci.qual.startswith("causy."):
            continue
        for ch in (True, False):
            for lo, hi in ((2, 3), (2, 0), (3, 9), (3, 2)):
                nm = "%s.generate, min %d, max %s%s" % (ci.name, lo, hi or "all", ", chunked" if ch else "")
                ctx.guard("C07.generator", nm, one_gen, ctx, nm, ci, ch, lo, hi)
    for ci in sorted(p.subclasses(EXITI), key=lambda c: c.qual):
        fi = p.find_method(ci, "check")
        if fi is None or fi.is_abstract or not ci.qual.startswith("causy."):
            continue
        nm = ci.name + ".check"
        ctx.guard("C07.exit", nm, one_exit, ctx, nm, ci, fi)


def one_step(ctx, nm, ci, fi, m, k):
    S = Small(ctx.prog, k, history=1)
    stats_like(S)
    S.i.types[STEPV] = ci.qual
    rd = enum(ctx.prog, TRA, "REMOVE_EDGE_DIRECTED")
    pend = pending(S, [(bvar(T("sym", "pending %d" % j)), rd, a, b) for j, (a, b) in enumerate(((0, 1), (0, 2), (1, 2)))])
    before = snapshot(S)
    NAMES[pend] = "the pending results"
    s = run_step(ctx, S, fi, [S.ids[x] for x in range(m)], {"unapplied_actions": pend})
    report(ctx, "C07.step", nm + ": leaves graph, step and pending results alone", S, s, fi, before)
    r = nondet(S, s)
    ctx.add("C07.step", nm + ": depends on its inputs only", VIOLATED if r else HOLDS, "calls %s" % r if r else "", fi.loc)


def stats_like(S):
    made = []

    def mk(name):
        def h(it, args, kw, st, node):
            t = T("sym", "tensor%d" % len(made))
            made.append(t)
            return t

        return h

    for n in ("torch.zeros", "torch.ones", "torch.eye"):
        S.i.ext_handlers[n] = mk(n)


def one_gen(ctx, nm, ci, ch, lo, hi):
    S = Small(ctx.prog, 4)
    inner = T("sym", "inner_generator")
    S.i.types[inner] = GENI
    S.i.mcall_handlers["generate"] = lambda it, recv, args, kw, st, node: it.new_list(st, [T("sym", "combination")])
    before = snapshot(S)
    fi, s = yields(ctx, S, ci.qual, {"min": lo, "max": hi}, {"chunked": ch, "shuffle_combinations": True, "chunk_size": 2, "generator": inner, "every_nth": 2})
    report(ctx, "C07.generator", nm + ": leaves graph and generator alone", S, s, fi, before)


def one_exit(ctx, nm, ci, fi):
    S = Small(ctx.prog, 3)
    acts = S.ls([T("sym", "taken%d" % j) for j in range(2)])
    before = snapshot(S)
    NAMES[acts] = "the actions taken"
    a = dict(zip([n for n in method_params(fi) if n != "self"], (S.g, T("sym", "model"), acts, T("sym", "iteration"))))
    s = S.i.run(fi, args=a, self_val=T("sym", "exit"), st=S.st, alive=S.care)
    ctx.note_run(s)
    report(ctx, "C07.exit", nm + ": leaves graph and actions alone", S, s, fi, before)
