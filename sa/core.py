"""Check framework: obligations, comparison of abstract summaries, observation of abstract states."""
import ast
import json
import os
import signal
import sys
import time

from .program import Program, AnalysisError
from .terms import *
from . import terms as TM
from .interp import Interp, State, Frame, Summary, restrict, simp

TOTAL = 300
STARTED = time.time()
BUDGET = 45  # seconds per obligation
HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"

# operators that mark a loss of precision of the analysis: nothing is concluded from a difference that involves them
IMPRECISE = {"opaque", "havoc", "phi", "loopfix", "stored", "removed", "lastwins", "lookup", "undef", "noearlier", "superext", "fold", "popped", "while", "posin", "pos"}


class Ctx:
    def __init__(self, prog, prop, tier="quick"):
        self.prog, self.prop, self.tier = prog, prop, tier
        load_bool_attrs(prog)
        self.obs = []  # (rule, construct, verdict, detail, loc)
        self.analysed = set()
        self.counts = {}

    def add(self, rule, construct, verdict, detail="", loc=""):
        self.obs.append((rule, construct, verdict, detail, loc))
        return verdict

    def hold(self, rule, construct, detail="", loc=""):
        return self.add(rule, construct, HOLDS, detail, loc)

    def bad(self, rule, construct, detail="", loc=""):
        return self.add(rule, construct, VIOLATED, detail, loc)

    def unk(self, rule, construct, detail="", loc=""):
        return self.add(rule, construct, UNDECIDED, detail, loc)

    def require(self, cond, rule, construct, detail="", loc=""):
        return self.add(rule, construct, HOLDS if cond else VIOLATED, "" if cond else detail, loc)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note_run(self, s):
        for q in s.interp.inlined:
            if not q.startswith("vspec."):
                self.analysed.add(q)

    def guard(self, rule, construct, f, *a, **k):
        """run one obligation; an analysis failure is an undecided obligation, never a verdict"""
        def expired(*_):
            raise TimeoutError("analysis budget of %d s exhausted" % BUDGET)

        nested = signal.getitimer(signal.ITIMER_REAL)[0] > 0
        if not nested:
            signal.signal(signal.SIGALRM, expired)
            left = TOTAL - (time.time() - STARTED)
            if left <= 0:
                return self.unk(rule, construct, "analysis budget of %d s for the whole check exhausted" % TOTAL)
            signal.setitimer(signal.ITIMER_REAL, min(BUDGET, left))
        try:
            return f(*a, **k)
        except AnalysisError:
            raise
        except (RecursionError, Exception) as e:  # noqa
            if os.environ.get("SA_DEBUG"):
                raise
            self.unk(rule, construct, "analysis failed: %s: %s" % (type(e).__name__, str(e)[:200]))
            return None
        finally:
            if not nested:
                signal.setitimer(signal.ITIMER_REAL, 0)


def imprecise_term(t):
    for s in subterms(t):
        if s.op in IMPRECISE:
            return s
        if s.op == "B":
            r = imprecise_bdd(s.args[0])
            if r is not None:
                return r
        if s.op == "cases":
            for g, _ in cases_of(s):
                r = imprecise_bdd(g)
                if r is not None:
                    return r
    return None


def imprecise_bdd(n, _seen=None):
    for a in atoms_of(n):
        if a.op in IMPRECISE:
            return a
        r = imprecise_term(a)
        if r is not None:
            return r
    return None


def cmp_bool(x, y, care=1):
    """-> ('eq'|'diff'|'unk', witness)"""
    d = AND(XOR(x, y), care)
    if d == 0:
        return "eq", ""
    if imprecise_bdd(d) is not None:
        # is there a precise part of the difference?
        p = d
        for a in atoms_of(d):
            if a.op in IMPRECISE or imprecise_term(a) is not None:
                p = AND(cofactor(p, a, 0), cofactor(p, a, 1))
        if p == 0:
            return "unk", "imprecise: %s" % show(imprecise_bdd(d))[:120]
        return "diff", witness(p)
    return "diff", witness(d)


def witness(d):
    path = satpath(d)
    if not path:
        return "always" if d == 1 else "never"
    return ", ".join("%s%s" % ("" if v else "not ", show(a)[:110]) for a, v in list(path)[:8])


def func_symbols(t, acc=None):
    acc = set() if acc is None else acc
    for s in subterms(t):
        if s.op in ("call", "mcall") and isinstance(s.args[0], str):
            acc.add(s.op + ":" + s.args[0])
        elif s.op == "mcall":
            acc.add("mcall:" + str(s.args[1]) if isinstance(s.args[1], str) else "mcall")
        elif s.op == "ext":
            acc.add("ext:" + s.args[0])
        elif s.op == "B":
            for a in atoms_of(s.args[0]):
                func_symbols(a, acc)
        elif s.op == "cases":
            for g, _ in cases_of(s):
                for a in atoms_of(g):
                    func_symbols(a, acc)
    return acc


def cmp_val(x, y, care=1, vocab=None):
    """compare two (guarded) values under a care set"""
    res = "eq"
    wit = ""
    for gx, vx in cases_of(x):
        for gy, vy in cases_of(y):
            g = AND(gx, gy, care)
            if g == 0:
                continue
            r, w = cmp_leaf(vx, vy, g, vocab)
            if r == "diff":
                if imprecise_bdd(g) is not None:
                    r = "unk"
                else:
                    return "diff", "%s, when %s" % (w, witness(g))
            if r == "unk":
                res, wit = "unk", w
    return res, wit


def cmp_leaf(vx, vy, g, vocab):
    if vx is vy:
        return "eq", ""
    if vx.op == "B" or vy.op == "B" or (vx.op == "const" and isinstance(vx.args[1], bool)) or (vy.op == "const" and isinstance(vy.args[1], bool)):
        isb = lambda t: t.op == "B" or (t.op == "const" and isinstance(t.args[1], bool))
        if isb(vx) and isb(vy):
            return cmp_bool(truth(vx), truth(vy), g)
    if vx.op == "tup" and vy.op == "tup" and len(vx.args) == len(vy.args):
        r = "eq"
        for a, b in zip(vx.args, vy.args):
            q, w = cmp_val(a, b, g, vocab)
            if q == "diff":
                return q, w
            if q == "unk":
                r = "unk"
        return r, "" if r == "eq" else "tuple components"
    e = eq(vx, vy)
    if AND(g, NOT(e)) == 0:
        return "eq", ""
    if vx.op == vy.op and vx.op in ("list", "set", "bag"):
        return cmp_seq(vx, vy, g, vocab)
    if imprecise_term(vx) is not None or imprecise_term(vy) is not None:
        return "unk", "imprecise value %s" % show(vx)[:160]
    if vocab is not None:
        fs = func_symbols(vx) - vocab - func_symbols(vy)
        if fs:
            return "unk", "unrecognised operations %s" % sorted(fs)
    return "diff", "got %s, expected %s" % (show(vx)[:300], show(vy)[:300])


def cmp_seq(vx, vy, g, vocab):
    """segment-wise comparison of list/set values under a care set"""
    live = lambda t: [s for s in t.args if s.op != "seg" or AND(s.args[1].n, g) != 0]
    a, b = live(vx), live(vy)
    bad = imprecise_term(vx) is not None or imprecise_term(vy) is not None
    exp = "got %s, expected %s" % (show(vx)[:300], show(vy)[:300])
    if vx.op == "bag":
        rest = list(b)
        for s in a:
            for t in rest:
                if cmp_seg(s, t, g, vocab)[0] == "eq":
                    rest.remove(t)
                    break
            else:
                return ("unk" if bad or unknown_syms(vx, vy, vocab) else "diff"), exp
        if rest:
            return ("unk" if bad else "diff"), exp
        return "eq", ""
    if len(a) != len(b):
        return ("unk" if bad or unknown_syms(vx, vy, vocab) else "diff"), exp
    res = "eq"
    for s, t in zip(a, b):
        r, w = cmp_seg(s, t, g, vocab)
        if r == "diff":
            return ("unk" if bad else "diff"), w or exp
        if r == "unk":
            res = "unk"
    return res, "" if res == "eq" else exp


def unknown_syms(vx, vy, vocab):
    return vocab is not None and bool(func_symbols(vx) - vocab - func_symbols(vy))


def cmp_seg(s, t, g, vocab):
    if s is t:
        return "eq", ""
    if s.op != "seg" or t.op != "seg":
        return cmp_leaf(s, t, g, vocab)
    if s.args[0] != t.args[0] or s.args[2] != t.args[2]:
        return "diff", "iterates differently: got %s, expected %s" % (show(s)[:200], show(t)[:200])
    r, w = cmp_bool(s.args[1].n, t.args[1].n, g)
    if r != "eq":
        return r, "element condition differs when %s" % w
    return cmp_val(s.args[3], t.args[3], AND(g, s.args[1].n), vocab)


def observe(i, st, src, env, module=None):
    """abstract value of a Python expression in an abstract state"""
    e = ast.parse(src, mode="eval").body
    m = module or next(iter(i.p.modules.values()))
    fr = Frame(None, m, None)
    s = st.copy()
    s.alive = 1
    s.envs[fr.fid] = dict(env)
    i.frames.append(fr)
    i.sinks.append([])
    ne, nn = len(i.events), len(i.notes)
    tr, i.track = i.track, (lambda t: False)
    try:
        v = i.eval(e, s)
        v = i.freeze(v, s)
    finally:
        i.track = tr
        i.sinks.pop()
        i.frames.pop()
        del i.events[ne:]
        del i.notes[nn:]
    return v


def obs_bool(i, st, src, env, module=None):
    return truth(observe(i, st, src, env, module))


def raise_conditions(s, only=None):
    """class name -> BDD under which the function leaves with that exception"""
    out = {}
    for r in s.raises:
        c = s.interp.exc_class(r[1]) or show(r[1])[:60]
        c = c if isinstance(c, str) else str(c)
        out[c] = OR(out.get(c, 0), r[0].alive)
    return out


def canon(t, level=0):
    """alpha-normalise the binders of list/set comprehension segments"""
    segs = []

    def find(x):
        if isinstance(x, Term):
            if x.op == "seg":
                segs.append(x)
                return
            if x.op == "cases":
                for g, y in cases_of(x):
                    find(y)
                return
            for a in x.args:
                find(a)
        elif isinstance(x, tuple):
            for a in x:
                find(a)

    find(t)
    m = {}
    for s in segs:
        if s in m:
            continue
        b, g, k, v = s.args
        sub = {x: T("sb", level, i) for i, x in enumerate(b)}
        gn = subst_bdd(g.n, sub, {}) if sub else g.n
        vv = subst(v, sub) if sub else v
        m[s] = T("seg", tuple(sub[x] for x in b), G(gn), k, canon(vv, level + 1))
    m = {k: v for k, v in m.items() if k is not v}
    return subst(t, m) if m else t


def setify(t):
    """order-insensitive view: split a comprehension guard and sort the segments"""
    if t.op in ("list", "set"):
        return T("bag", *sorted(set(t.args), key=lambda s: s.id))
    return t


def call_events(s, pred):
    """canonical sequence of selected events: (binders, guard, data)"""
    out = []
    for e in s.events:
        if not pred(e):
            continue
        sub = {x: T("sb", 0, i) for i, x in enumerate(e.loops)}
        g = subst_bdd(e.guard, sub, {}) if sub else e.guard
        d = tuple(canon(subst(x, sub) if sub else x, 1) if isinstance(x, Term) else (tuple(canon(subst(y, sub) if sub else y, 1) for y in x) if isinstance(x, tuple) else x) for x in e.data)
        out.append((len(e.loops), g, e.kind, d, e))
    return out


BOOL_NAMES = {"bool", "Optional[bool]"}


def load_bool_attrs(prog):
    seen = {}
    for c in prog.classes.values():
        for n, (ann, _) in c.attrs.items():
            if ann is not None:
                seen.setdefault(n, set()).add(ast.unparse(ann) in BOOL_NAMES)
    for n, v in seen.items():
        if v == {True}:
            TM.BOOL_ATTRS.add(n)
