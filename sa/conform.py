"""Conformance of a function to a reference model: same results, same exceptions, same observable calls."""
from .core import *
from .core import canon

VERDICT = {"eq": HOLDS, "diff": VIOLATED, "unk": UNDECIDED}


def strip_fields(t, names, memo=None):
    """drop fields of records that are not part of the observable contract (durations)"""
    m = {}
    for s in subterms(t):
        if s.op == "rec" and any(f in names for f, _ in s.args[1]):
            m[s] = None
    if not m:
        return t

    def go(x):
        if isinstance(x, Term):
            if x.op == "rec":
                return T("rec", x.args[0], tuple((f, go(v)) for f, v in x.args[1] if f not in names))
            if x.op == "cases":
                return mk_cases([(g, go(v)) for g, v in cases_of(x)])
            if x.op in ("list", "set", "tup", "seg", "dict", "mcall", "call", "idx", "attr", "bag"):
                return T(x.op, *[go(a) for a in x.args])
            return x
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x

    return go(t)


class Obs:
    """what is observed of a run"""

    def __init__(self, events=None, ret=True, raises=True, strip=(), ordered=True, ret_ordered=True, ev_args=None, vocab=None, allow_raise=()):
        self.events, self.ret, self.raises, self.strip, self.ordered, self.ret_ordered = events, ret, raises, strip, ordered, ret_ordered
        self.ev_args = ev_args
        self.vocab = vocab
        self.allow_raise = allow_raise


def ev_term(e, ob):
    if e.kind == "call":
        args = tuple(x for x in e.data[1])
        t = T("ev", "call", e.data[0], tuple(args))
    elif e.kind in ("mcall",):
        t = T("ev", "mcall", e.data[0], e.data[1], tuple(e.data[2]), tuple(e.data[3]))
    elif e.kind == "ext":
        t = T("ev", "ext", e.data[0], tuple(e.data[1]), tuple(e.data[2]))
    elif e.kind in ("open", "setattr", "setitem", "delitem", "mutcall", "print", "setglobal", "raise", "delattr", "augassign"):
        t = T("ev", e.kind, *[tuple(d) if isinstance(d, (tuple, list)) else d for d in e.data])
    else:
        t = T("ev", e.kind, *[tuple(d) if isinstance(d, (tuple, list)) else d for d in e.data])
    if ob.ev_args:
        t = ob.ev_args(t)
    return t


def ev_seq(s, ob):
    out = []
    for e in s.events:
        if not ob.events(e):
            continue
        t = ev_term(e, ob)
        if t is None:
            continue
        if ob.strip:
            t = strip_fields(t, ob.strip)
        sub = {x: T("sb", 0, i) for i, x in enumerate(e.loops)}
        g = subst_bdd(e.guard, sub, {}) if sub else e.guard
        t = canon(subst(t, sub) if sub else t, 1)
        out.append((len(e.loops), g, t, e))
    return out


def cmp_ev(a, b, care, vocab):
    """'eq'/'diff'/'unk' of two event terms"""
    if a is b:
        return "eq", ""
    if a.op != "ev" or b.op != "ev" or a.args[0] != b.args[0] or len(a.args) != len(b.args):
        return "diff", ""
    res, wit = "eq", ""
    for x, y in zip(a.args, b.args):
        xs, ys = (x if isinstance(x, tuple) else (x,)), (y if isinstance(y, tuple) else (y,))
        if len(xs) != len(ys):
            return "diff", "%s arguments, expected %s" % (len(xs), len(ys))
        for p, q in zip(xs, ys):
            if p is q or p == q:
                continue
            if isinstance(p, tuple) and isinstance(q, tuple) and p and q and p[0] == q[0] and isinstance(p[1], Term):
                p, q = p[1], q[1]
            if isinstance(p, Term) and isinstance(q, Term):
                r, w = cmp_val(p, q, care, vocab)
            else:
                r, w = "diff", "got %s, expected %s" % (p, q)
            if r == "diff":
                return r, w
            if r == "unk":
                res, wit = "unk", w
    return res, wit


def show_ev(t):
    k = t.args[0]
    sh = lambda x: show(x)[:90] if isinstance(x, Term) else "(%s)" % ", ".join(sh(y) for y in x) if isinstance(x, tuple) else str(x)
    if k == "call":
        return "%s%s" % (t.args[1].split(".")[-1], sh(t.args[2]))
    if k == "mcall":
        return "%s.%s%s" % (sh(t.args[1]), t.args[2], sh(t.args[3]))
    return "%s %s" % (k, " ".join(sh(x) for x in t.args[1:]))


def compare_events(ctx, rule, nm, s, r, ob, care, loc, degrade):
    a, b = ev_seq(s, ob), ev_seq(r, ob)
    a = [x for x in a if AND(x[1], care)]
    b = [x for x in b if AND(x[1], care)]

    def put(construct, q, text, e):
        at = e.loc if e is not None else loc
        if q == "diff" and degrade:
            q, text = "unk", "%s (%s)" % (text, degrade)
        ctx.add(rule, construct, VERDICT[q], "" if q == "eq" else text, at)

    if ob.ordered:
        # align greedily: every expected event in order, grouping equal adjacent events
        ia = 0
        ga, gb = merge_adjacent(a), merge_adjacent(b)
        n = max(len(ga), len(gb))
        if len(ga) != len(gb):
            # find the first mismatch for the report
            for k in range(n):
                x = ga[k] if k < len(ga) else None
                y = gb[k] if k < len(gb) else None
                if x is None or y is None or x[0] != y[0] or cmp_ev(x[2], y[2], AND(care, x[1], y[1]) or care, ob.vocab)[0] != "eq" or cmp_bool(x[1], y[1], care)[0] != "eq":
                    imp = any(imprecise_bdd(z[1]) is not None or imprecise_term(z[2]) is not None for z in ga)
                    txt = "%s%s" % ("performs %s when %s" % (show_ev(x[2]), witness(AND(x[1], care))) if x is not None else "stops", ", expected %s" % show_ev(y[2]) if y is not None else ", which is not expected")
                    put("%s: sequence of effects (%d, expected %d)" % (nm, len(ga), len(gb)), "unk" if imp else "diff", txt, x[3] if x is not None else None)
                    return
            return
        for x, y in zip(ga, gb):
            what = "%s: %s" % (nm, show_ev(y[2])[:160])
            if x[0] != y[0]:
                put(what, "diff", "performed in a different loop nesting: %s" % show_ev(x[2]), x[3])
                return
            q, wit = cmp_bool(x[1], y[1], care)
            if q != "eq":
                extra = AND(x[1], NOT(y[1]), care) != 0
                put(what, q, ("%s performed when %s" if extra else "%s not performed when %s") % (show_ev(x[2]), wit), x[3])
                if q == "diff":
                    return
                continue
            q, wit = cmp_ev(x[2], y[2], AND(care, x[1]), ob.vocab)
            put(what, q, "performs %s: %s" % (show_ev(x[2]), wit), x[3])
        if not gb:
            ctx.hold(rule, nm + ": no observable effect", loc=loc)
        return
    # unordered: match groups of equal events
    rest = list(merge_equal(a, care, ob))
    exp = list(merge_equal(b, care, ob))
    for y in exp:
        hit = None
        for x in rest:
            if x[0] == y[0] and cmp_ev(x[2], y[2], AND(care, y[1]), ob.vocab)[0] == "eq":
                hit = x
                break
        what = "%s: %s" % (nm, show_ev(y[2])[:160])
        if hit is None:
            imp = any(imprecise_bdd(z[1]) is not None or imprecise_term(z[2]) is not None for z in rest)
            put(what, "unk" if imp else "diff", "not performed when %s" % witness(AND(y[1], care)), None)
            continue
        rest.remove(hit)
        q, wit = cmp_bool(hit[1], y[1], care)
        extra = AND(hit[1], NOT(y[1]), care) != 0
        put(what, q, ("performed when %s" if extra else "not performed when %s") % wit, hit[3])
    for x in rest:
        imp = imprecise_bdd(x[1]) is not None or imprecise_term(x[2]) is not None
        put("%s: %s" % (nm, show_ev(x[2])[:160]), "unk" if imp else "diff", "unexpected effect when %s" % witness(AND(x[1], care)), x[3])
    if not a and not b:
        ctx.hold(rule, nm + ": no observable effect", loc=loc)


def merge_adjacent(seq):
    """events that differ only by disjoint guards (two branches doing the same) count once"""
    out = []
    for x in seq:
        done = False
        if out:
            for k in range(len(out) - 1, -1, -1):
                y = out[k]
                if y[2] is x[2] and y[0] == x[0] and AND(y[1], x[1]) == 0:
                    # only move across events that cannot happen together with x
                    if all(AND(z[1], x[1]) == 0 for z in out[k + 1 :]):
                        out[k] = (y[0], OR(y[1], x[1]), y[2], y[3])
                        done = True
                    break
                if AND(y[1], x[1]):
                    break
        if not done:
            out.append(x)
    return out


def merge_equal(seq, care, ob):
    out = []
    for x in seq:
        for k, y in enumerate(out):
            if y[0] == x[0] and y[2] is x[2] and AND(y[1], x[1]) == 0:
                out[k] = (y[0], OR(y[1], x[1]), y[2], y[3])
                break
        else:
            out.append(x)
    return out


def conform(ctx, rule, nm, fi, s, r, ob, care=1, loc=None):
    """s: summary of the implementation, r: summary of the reference"""
    loc = loc or fi.loc
    ctx.note_run(s)
    degrade = s.interp.notes[0] if s.interp.notes else (r.interp.notes[0] if r.interp.notes else None)
    if ob.ret:
        a, b = s.frz(), r.frz()
        if ob.strip:
            a, b = strip_fields(a, ob.strip), strip_fields(b, ob.strip)
        a, b = canon(a), canon(b)
        if not ob.ret_ordered:
            a, b = leaves(a, setify), leaves(b, setify)
        q, wit = cmp_val(a, b, AND(care, s.state.alive, r.state.alive), ob.vocab)
        if q == "diff" and degrade:
            q, wit = "unk", "%s (%s)" % (wit, degrade)
        ctx.add(rule, nm + ": result", VERDICT[q], "" if q == "eq" else wit, loc)
    if ob.raises:
        ra, rb = raise_conditions(s), raise_conditions(r)
        for c in sorted(set(ra) | set(rb)):
            if c in ob.allow_raise:
                continue
            x, y = ra.get(c, 0), rb.get(c, 0)
            q, wit = cmp_bool(x, y, care)
            if q == "eq":
                if y:
                    ctx.hold(rule, "%s: raises %s exactly when specified" % (nm, c.split(".")[-1]), loc=loc)
                continue
            if q == "diff" and degrade:
                q = "unk"
            extra = AND(x, NOT(y), care) != 0
            ctx.add(rule, nm + ": exceptions", VERDICT[q], ("leaves with %s when %s" if extra else "does not raise %s when %s") % (c.split(".")[-1], wit), loc)
    if ob.events is not None:
        compare_events(ctx, rule, nm, s, r, ob, care, loc, degrade)


def leaves(t, f):
    return mk_cases([(g, f(x)) for g, x in cases_of(t)])
