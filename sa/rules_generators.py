"""C13: generators yield exactly the specified combinations."""
import random
from itertools import combinations

from .rules_steps import *
from . import numeric as N

GEN = "causy.generators."
GENV = T("sym", "generator")
CS = T("sym", "comparison_settings")
R = "C13.yields"


def yields(ctx, S, cls, settings, attrs):
    fi = ctx.prog.method(cls, "generate")
    S.i.types[GENV] = cls
    S.tbl[GENV, "comparison_settings"] = CS
    for k, v in settings.items():
        S.tbl[CS, k] = const(v)
    for k, v in attrs.items():
        S.tbl[GENV, k] = v if isinstance(v, Term) else const(v)
    names = method_params(fi)
    names = [n for n in names if n != "self"]
    s = S.i.run(fi, args={names[0]: S.g, names[1]: T("sym", "model")}, self_val=GENV, st=S.st, alive=S.care)
    ctx.note_run(s)
    return fi, s


def parts(i, st, v):
    """elements of a list or tuple value: [(guard, value)] or None when it is not one"""
    if v.op == "tup":
        return [(1, x) for x in v.args]
    segs = None
    if v.op == "list":
        segs = v.args
    ob = i.obj(st, v) if v.op == "ref" else None
    if ob is not None and ob.kind == "list":
        segs = ob.segs
    if segs is None:
        return None
    out = []
    for sg in segs:
        b, g, k, x = sg.args
        g = g.n
        if b:
            raise Lost("yielded %s" % show(i.freeze(v, st))[:160])
        if k == "splice":
            for gc, xx in cases_of(x):
                sub = parts(i, st, xx)
                if sub is None:
                    raise Lost("yielded %s" % show(i.freeze(v, st))[:160])
                out += [(AND(g, gc, g2), y) for g2, y in sub]
            continue
        for gc, xx in cases_of(x):
            if AND(g, gc):
                out.append((AND(g, gc), xx))
    return out


def combos(S, s, v, g=1):
    """one yielded value as guarded combinations: ('one'|'chunk', [(guard, combination)])"""
    i, st = S.i, s.state
    ids = {n: k for k, n in enumerate(S.ids)}
    ps = parts(i, st, v)
    if ps is None:
        raise Lost("yielded %s" % show(i.freeze(v, st))[:160])
    if ps and all(x in ids for _, x in ps):
        if any(gg != 1 for gg, _ in ps):
            raise Lost("yielded %s" % show(i.freeze(v, st))[:160])
        return "one", [(g, tuple(ids[x] for _, x in ps))]
    out = []
    for gg, x in ps:
        if x in ids:
            raise Lost("yielded %s" % show(i.freeze(v, st))[:160])
        k, sub = combos(S, s, x, AND(g, gg))
        if k != "one":
            raise Lost("nested chunks %s" % show(i.freeze(v, st))[:160])
        out += sub
    return "chunk", out


def collect(ctx, S, s, nm, fi, chunked, size=None):
    """[(guard, combination)] of all yields, or None"""
    st = s.state
    res = []
    bad = None
    for g, v in parts(S.i, st, s.ret) or []:
        if AND(g, S.care) == 0:
            continue
        kind, items = combos(S, s, v, g)
        if kind == "one" and chunked or kind == "chunk" and not chunked:
            bad = "%s yields %s when %s" % ("chunked" if chunked else "not chunked", show(S.i.freeze(v, st))[:120], show_w(AND(g, S.care)))
        if kind == "chunk" and size is not None and len(items) > size:
            over = AND(S.care, S.i.counts([gg for gg, _ in items], size + 1)[size + 1])
            if over:
                bad = "a chunk has more than %d combinations when %s" % (size, show_w(over))
        res += items
    ctx.add(R, nm + ": shape", VIOLATED if bad else HOLDS, bad or "", fi.loc)
    return None if bad else res


def show_w(g):
    q, w = cmp_bool(g, 0, 1)
    return w


def check(ctx, S, s, fi, nm, got, want, norm):
    """every wanted combination exactly once, nothing else"""
    care = AND(S.care, s.state.alive)
    tab = {}
    twice = {}
    for g, c in got:
        c = norm(c)
        twice[c] = OR(twice.get(c, 0), AND(tab.get(c, 0), g))
        tab[c] = OR(tab.get(c, 0), g)
    bad = 0
    for c in sorted(set(tab) | set(want), key=str):
        q, w = cmp_bool(tab.get(c, 0), want.get(c, 0), care)
        if q == "eq":
            q, w = cmp_bool(twice.get(c, 0), 0, care)
            if q == "eq":
                continue
            ctx.add(R, "%s: %s once" % (nm, label(S, c)), VERDICT[q], "yielded more than once when " + w, fi.loc)
        else:
            ctx.add(R, "%s: %s" % (nm, label(S, c)), VERDICT[q], ("yielded" if cmp_bool(AND(tab.get(c, 0), NOT(want.get(c, 0))), 0, care)[0] != "eq" else "not yielded") + " when " + w, fi.loc)
        bad += 1
    if not bad:
        ctx.hold(R, "%s: %d combinations" % (nm, len(want)), "", fi.loc)


def label(S, c):
    if c and isinstance(c[-1], tuple):
        c = c[:-1] + c[-1]
    return "(" + name_of(S, *c) + ")"


def sym_care(S):
    """an undirected graph: both directions of an edge are in the same state"""
    c = S.care
    for x in range(S.k):
        for y in range(x):
            (p, e), (q, f) = S.E[x, y], S.E[y, x]
            c = AND(c, NOT(XOR(p, q)), NOT(XOR(truth(T("attr", e, "deleted")), truth(T("attr", f, "deleted")))))
    return c


def run(ctx, nm, cls, k, settings, attrs, want, norm, care=None, chunked=False, size=None):
    S = Small(ctx.prog, k)
    if care:
        S.care = care(S)
    fi, s = yields(ctx, S, GEN + cls, settings, attrs)
    if s.notes:
        return ctx.unk(R, nm, s.notes[0], fi.loc)
    no_raise(ctx, R, nm, s, S.care, fi.loc)
    try:
        got = collect(ctx, S, s, nm, fi, chunked, size)
    except Lost as e:
        return ctx.unk(R, nm, str(e), fi.loc)
    if got is not None:
        check(ctx, S, s, fi, nm, got, want(S), norm)


def sizes(k, lo, hi):
    """sizes of combinations: from min up to max, where 0 means all nodes, never more than there are nodes"""
    return range(lo, min(hi or k, k) + 1)


def C13(ctx):
    for k in (1, 2, 3, 4):
        for lo in (1, 2, 3):
            for hi in (0, 1, 2, 3, 5):
                nm = "AllCombinationsGenerator, min %d, max %s, %d nodes" % (lo, hi or "all", k)
                ctx.guard(R, nm, run, ctx, nm, "AllCombinationsGenerator", k, {"min": lo, "max": hi}, {"chunked": False}, lambda S: {tuple(c): 1 for n in sizes(k, lo, hi) for c in combinations(range(k), n)}, lambda c: tuple(sorted(c)))
    for k in (2, 3, 4):
        for chunked, size in ((False, 100), (None, 100), (True, 1), (True, 2), (True, 5), (True, 100)):
            if k == 4 and size not in (2, 100):
                continue
            nm = "PairsWithEdgesInBetweenGenerator, %s, %d nodes" % ("chunks of %d" % size if chunked else "chunked=%s" % chunked, k)
            ctx.guard(R, nm, run, ctx, nm, "PairsWithEdgesInBetweenGenerator", k, {}, {"chunked": chunked, "chunk_size": size}, lambda S: {e: S.live(*e) for e in S.E}, lambda c: c, None, bool(chunked), size if chunked else None)
    for k in (2, 3, 4):
        for lo, hi in ((2, 2), (2, 3), (3, 3), (2, 0), (3, 0), (4, 0), (3, 2), (2, 9)):
            for chunked in (False, True):
                for shuffle in (False, True):
                    if shuffle and (lo, hi) not in ((2, 3), (3, 0)):
                        continue
                    nm = "PairsWithNeighboursGenerator, min %d, max %s, %schunked, %sshuffled, %d nodes" % (lo, hi or "all", "" if chunked else "not ", "" if shuffle else "not ", k)
                    ctx.guard(R, nm, run, ctx, nm, "PairsWithNeighboursGenerator", k, {"min": lo, "max": hi}, {"chunked": chunked, "shuffle_combinations": shuffle}, lambda S: spec_neighbours(S, k, lo, hi), lambda c: c[:2] + (tuple(sorted(c[2:])),), sym_care, chunked)
    ctx.guard(R, "PairsWithNeighboursGenerator, min 1", too_small, ctx)
    ctx.guard("C13.sample", "RandomSampleGenerator", sample, ctx)


def spec_neighbours(S, k, lo, hi):
    t = {}
    for n in sizes(k, lo, hi):
        for u, v in S.E:
            rest = [z for z in range(k) if z not in (u, v)]
            for zs in combinations(rest, n - 2):
                t[u, v, zs] = AND(S.live(u, v), *[S.live(u, z) for z in zs])
    return t


def too_small(ctx):
    nm = "PairsWithNeighboursGenerator, min 1"
    S = Small(ctx.prog, 3)
    fi, s = yields(ctx, S, GEN + "PairsWithNeighboursGenerator", {"min": 1, "max": 2}, {"chunked": False, "shuffle_combinations": False})
    if s.notes:
        return ctx.unk(R, nm, s.notes[0], fi.loc)
    r = or_all(AND(q[0].alive, 1) for q in s.raises)
    q, w = cmp_bool(r, 1, S.care)
    ctx.add(R, nm + " is rejected", VERDICT[q], "" if q == "eq" else "accepted", fi.loc)


def draw(rnd, ev, t):
    """one outcome of a call to the random module"""
    a = [ev(x) for x in t.args[1]]
    f = t.args[0].split(".")[-1]
    if f == "randrange":
        return rnd.randrange(*[int(x) for x in a])
    if f == "randint":
        return rnd.randint(*[int(x) for x in a])
    if f == "random":
        return rnd.random()
    if f == "uniform":
        return rnd.uniform(*a)
    raise N.Unknown("function %s" % t.args[0])


def sample(ctx):
    nm = "RandomSampleGenerator"
    RS = "C13.sample"
    S = Small(ctx.prog, 2)
    inner = T("sym", "inner_generator")
    items = [T("sym", "combination%d" % j) for j in range(3)]
    S.i.types[inner] = "causy.interfaces.GeneratorInterface"
    nth = T("sym", "every_nth")
    S.i.types[nth] = "builtins.int"
    asked = []

    def gen(it, recv, args, kw, st, node):
        asked.append((recv, args))
        return it.new_list(st, items)

    S.i.mcall_handlers["generate"] = gen
    fi, s = yields(ctx, S, GEN + "RandomSampleGenerator", {}, {"every_nth": nth, "generator": inner})
    if s.notes:
        return ctx.unk(RS, nm, s.notes[0], fi.loc)
    ok = asked and all(r is inner and a and a[0] is S.g for r, a in asked)
    ctx.add(RS, nm + ": draws from the wrapped generator on the same graph", HOLDS if ok else VIOLATED if asked else UNDECIDED, "", fi.loc)
    try:
        got = parts(S.i, s.state, s.ret)
    except Lost as e:
        return ctx.unk(RS, nm, str(e), fi.loc)
    if got is None:
        return ctx.unk(RS, nm, "yields", fi.loc)
    seq = [x for _, x in got]
    ctx.add(RS, nm + ": yields combinations of the wrapped generator in order, at most once", HOLDS if seq == [x for x in items if x in seq] else VIOLATED, "yields %s" % ", ".join(show(x)[:40] for x in seq) if seq != items else "", fi.loc)
    for n in (1, 2, 3, 10):
        for x in items:
            g = or_all(gg for gg, y in got if y is x)
            rnd = random.Random(n)
            hits = 0
            tot = 4000
            unk = None
            try:
                for _ in range(tot):
                    seen = {}

                    def leaf(t):
                        if t is nth:
                            return n
                        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("random."):
                            if t not in seen:
                                seen[t] = draw(rnd, ev, t)
                            return seen[t]

                    ev = N.Ev(leaf)
                    hits += ev.b(g)
            except N.Unknown as e:
                unk = str(e)
            f = hits / tot
            bad = None if unk or (f == 1 if n == 1 else abs(f - 1 / n) < 0.04) else "with every_nth=%d a combination is kept with probability %.2f" % (n, f)
            ctx.add(RS, "%s: %s, every_nth %d" % (nm, x.args[0], n), UNDECIDED if unk else VIOLATED if bad else HOLDS, unk or bad or "", fi.loc)
