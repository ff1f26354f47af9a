"""Abstract model of the graph store used by the C01..C04 rules."""
from .core import *

GM = "causy.graph.GraphManager"
NODE = "causy.graph.Node"
EDGE = "causy.graph.Edge"
U, V, W = T("sym", "U"), T("sym", "V"), T("sym", "W")
u, v, w = T("sym", "u"), T("sym", "v"), T("sym", "w")
assume_distinct(u, v, w)
SELF = T("sym", "self")
GR = T("attr", SELF, "graph")
E_, R_, D_, N_, H_ = (T("attr", GR, a) for a in ("edges", "_reverse_edges", "_deleted_edges", "nodes", "edge_history"))
REGIONS = (E_, R_, D_)
IDS = {U: u, V: v, W: w}
NODES_OF = {u: U, v: V, w: W}


def on_attr(st, o, a):
    if a == "id" and o in IDS:
        return IDS[o]
    return None


def root_region(t):
    while t.op == "idx":
        t = t.args[0]
    return t if t in REGIONS or t is H_ or t is N_ else None


def tracked(t):
    return t in REGIONS or (t.op == "idx" and t.args[0] in REGIONS)


def canon_alias(t):
    # nodes stored under their id
    o, k = t.args
    if o is N_ and k in NODES_OF:
        return NODES_OF[k]
    # identity invariant: the backward index holds the very edge object of the forward index
    if o.op == "idx" and o.args[0] is R_:
        return T("idx", T("idx", E_, k), o.args[1])
    return None


def canon_plain(t):
    o, k = t.args
    if o is N_ and k in NODES_OF:
        return NODES_OF[k]
    return None


def cell(reg, x, y):
    return T("idx", T("idx", reg, x), y)


def endpoint(o, a):
    """an edge stored under (x, y) connects the nodes x and y"""
    if a in ("u", "v") and o.op == "idx" and o.args[0].op == "idx" and o.args[0].args[0] in (E_, D_):
        k = o.args[0].args[1] if a == "u" else o.args[1]
        return NODES_OF.get(k) or T("idx", N_, k)
    return None


class AliasInterp(Interp):
    """backward and forward index hold the same edge object"""

    def mk_attr(self, o, a):
        return endpoint(o, a) or Interp.mk_attr(self, o, a)


class DistinctInterp(Interp):
    """backward and forward index hold equal but distinct edge objects"""

    def mk_attr(self, o, a):
        if o.op == "idx" and o.args[0].op == "idx" and o.args[0].args[0] is R_:
            o = cell(E_, o.args[1], o.args[0].args[1])
        return endpoint(o, a) or Interp.mk_attr(self, o, a)


def types():
    t = {U: NODE, V: NODE, W: NODE, SELF: GM}
    for x in (u, v, w):
        t[x] = "builtins.str"
    return t


def H(c, k):
    return bvar(T("has", c, k))


def invariant(pairs=((u, v), (v, u)), ids=(u, v)):
    inv = 1
    iff = lambda a, b: NOT(XOR(a, b))
    for x in ids:
        inv = AND(inv, iff(H(E_, x), H(R_, x)), iff(H(E_, x), H(D_, x)), IMPLIES(H(E_, x), H(N_, x)))
    for x, y in pairs:
        f, r, d = H(T("idx", E_, x), y), H(T("idx", R_, y), x), H(T("idx", D_, x), y)
        inv = AND(inv, iff(f, r), IMPLIES(f, AND(H(E_, x), H(E_, y))), IMPLIES(d, AND(H(D_, x), H(D_, y))))
        h1, h2 = H(H_, T("tup", x, y)), H(H_, T("tup", y, x))
        inv = AND(inv, IMPLIES(OR(f, d), AND(h1, h2)))
    return inv


BOOL_EDGE = ("deleted",)


def interp(prog, mode="alias", stop=None):
    cls = DistinctInterp if mode == "distinct" else AliasInterp
    i = cls(prog, stop=stop, types=types(), track=tracked)
    i.on_attr = on_attr
    i.canon = canon_alias if mode == "alias" else canon_plain
    return i


def pres(i, st, reg, x, y):
    """presence of cell (x, y) of a two-level index in a state"""
    return obs_bool(i, st, "x in r and y in r[x]", {"r": reg, "x": x, "y": y})


def value(i, st, reg, x, y):
    return observe(i, st, "r[x][y]", {"r": reg, "x": x, "y": y})


def rawvalue(i, st, reg, x, y):
    """unfrozen cell value (identity)"""
    inner = [(1, i.cell(st, reg, x)[1])]
    out = []
    for g, o in cases_of(inner[0][1]):
        if o.op == "undef":
            continue
        out.append((g, i.cell(st, o, y)[1]))
    return mk_cases(out) if out else T("undef")


def field(i, st, reg, x, y, f):
    val = rawvalue(i, st, reg, x, y)
    out = []
    for g, o in cases_of(val):
        if o.op == "undef":
            continue
        out.append((g, i.freeze(i.get_attr(st, o, f, None), st)))
    return mk_cases(out) if out else T("undef")


def writes_regions(s):
    for e in s.events:
        if e.kind in ("setitem", "delitem") and root_region(e.data[0]) in REGIONS:
            return True
        if e.kind == "setattr" and (root_region(e.data[0]) in REGIONS or e.data[0] is GR):
            return True
        if e.kind == "mutcall" and isinstance(e.data[0], Term) and root_region(e.data[0]) in REGIONS:
            return True
    return False


def method_params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def public_pair_methods(prog):
    ci = prog.cls(GM)
    out = []
    seen = set()
    for c in prog.mro(ci):
        if not hasattr(c, "methods"):
            continue
        for n, fi in c.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if n.startswith("_") or fi.is_abstract:
                continue
            p = method_params(fi)
            if "u" in p and "v" in p:
                out.append(fi)
    return out
