"""Hash-consed terms, reduced ordered BDDs over term atoms, arithmetic normal forms.

A Term is an interned (op, args) pair: two terms are the same object iff they are
structurally equal.  Boolean values are `B(node)` where node is a ROBDD node over
atoms (atoms are themselves terms).  Nothing in here executes analysed code.
"""
from fractions import Fraction


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


_table = {}
_by_id = []


def T(op, *args):
    key = (op, args)
    try:
        t = _table.get(key)
    except TypeError:
        raise TypeError("unhashable term args %r" % (key,))
    # distinguish 1 / 1.0 / True in keys
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.id = len(_by_id)
    _by_id.append(t)
    _table[key] = t
    return t


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return T("const", type(v).__name__, v)


def is_const(t):
    return t.op == "const" or (t.op == "B" and t.args[0] in (0, 1))


def cval(t):
    if t.op == "const":
        return t.args[1]
    if t.op == "B":
        return bool(t.args[0])
    raise ValueError(t)


# ---------------------------------------------------------------- BDD
ZERO, ONE = 0, 1
_nodes = [(-1, 0, 0), (-1, 1, 1)]
_unique = {}
_var_of = {}
_atoms = []
_ite_memo = {}


def atom_var(t):
    v = _var_of.get(t)
    if v is None:
        v = len(_atoms)
        _atoms.append(t)
        _var_of[t] = v
    return v


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _unique.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _unique[k] = n
    return n


def bvar(t):
    """BDD node for an atom term"""
    return _mk(atom_var(t), 0, 1)


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    vf, vg, vh = _nodes[f][0], _nodes[g][0], _nodes[h][0]
    v = min(x for x in (vf, vg, vh) if x >= 0)

    def cof(n, b):
        if _nodes[n][0] == v:
            return _nodes[n][2 if b else 1]
        return n

    lo = ite(cof(f, 0), cof(g, 0), cof(h, 0))
    hi = ite(cof(f, 1), cof(g, 1), cof(h, 1))
    r = _mk(v, lo, hi)
    _ite_memo[k] = r
    return r


def AND(*xs):
    r = 1
    for x in xs:
        r = ite(r, x, 0)
        if r == 0:
            return 0
    return r


def OR(*xs):
    r = 0
    for x in xs:
        r = ite(r, 1, x)
        if r == 1:
            return 1
    return r


def NOT(x):
    return ite(x, 0, 1)


def IMPLIES(a, b):
    return ite(a, b, 1)


def XOR(a, b):
    return ite(a, NOT(b), b)


def support(n, _memo={}):
    r = _memo.get(n)
    if r is not None:
        return r
    if n < 2:
        r = frozenset()
    else:
        v, lo, hi = _nodes[n]
        r = support(lo) | support(hi) | {v}
    _memo[n] = r
    return r


def atoms_of(n):
    return [_atoms[v] for v in sorted(support(n))]


def node_parts(n):
    v, lo, hi = _nodes[n]
    return _atoms[v], lo, hi


def cofactor(n, atom, val):
    v = atom_var(atom)
    memo = {}

    def go(m):
        if m < 2:
            return m
        r = memo.get(m)
        if r is not None:
            return r
        w, lo, hi = _nodes[m]
        if w == v:
            r = hi if val else lo
        elif w > v:
            r = m
        else:
            r = _mk(w, go(lo), go(hi))
        memo[m] = r
        return r

    return go(n)


def satpath(n):
    """one satisfying partial assignment as list of (atom, bool)"""
    out = []
    while n > 1:
        a, lo, hi = node_parts(n)
        if hi != 0:
            out.append((a, True))
            n = hi
        else:
            out.append((a, False))
            n = lo
    return out if n == 1 else None


def B(n):
    return T("B", n)


TRUE = T("B", 1)
FALSE = T("B", 0)
NONE = T("const", "NoneType", None)


# ---------------------------------------------------------------- guarded values
def cases_of(t):
    """list of (guard, leaf) for a value"""
    if t.op == "cases":
        return [(g, v) for v, g in t.args]
    return [(1, t)]


def mk_cases(pairs):
    """pairs: iterable (guard, value); guards disjoint"""
    acc = {}
    allbool = True
    for g, v in pairs:
        if g == 0:
            continue
        for g2, leaf in cases_of(v):
            gg = AND(g, g2)
            if gg == 0:
                continue
            acc[leaf] = OR(acc.get(leaf, 0), gg)
            if leaf.op != "B":
                allbool = False
    if not acc:
        return T("undef")
    if allbool:
        return B(OR(*[AND(g, leaf.args[0]) for leaf, g in acc.items()]))
    # normalise booleans inside a mixed value: split into TRUE / FALSE
    out = {}
    for leaf, g in acc.items():
        if leaf.op == "B" and leaf.args[0] > 1:
            f = leaf.args[0]
            a, b = AND(g, f), AND(g, NOT(f))
            if a:
                out[TRUE] = OR(out.get(TRUE, 0), a)
            if b:
                out[FALSE] = OR(out.get(FALSE, 0), b)
        else:
            out[leaf] = OR(out.get(leaf, 0), g)
    if len(out) == 1:
        return next(iter(out))
    return T("cases", *sorted(out.items(), key=lambda kv: kv[0].id))


def vite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a is b:
        return a
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    if a.op == "B" and b.op == "B":
        return B(ite(c, a.args[0], b.args[0]))
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return T("tup", *[vite(c, x, y) for x, y in zip(a.args, b.args)])
    return mk_cases([(c, a), (NOT(c), b)])


def restrict_cases(t, g):
    """drop case leaves whose guard is impossible under g"""
    if t.op != "cases":
        return t
    live = [(v, AND(gg, g)) for v, gg in t.args]
    live = [(v, x) for v, x in live if x != 0]
    if len(live) == 1:
        return live[0][0]
    if len(live) == len(t.args):
        return t
    if not live:
        return t
    # rebuild with the original guards (don't-cares go to the last leaf)
    return mk_cases([(gg, v) for v, gg in t.args if AND(gg, g) != 0])


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """replace terms (keys of m) by terms, rebuilding bottom-up through the smart constructors"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "B":
        r = B(subst_bdd(t.args[0], m, memo))
    elif t.op == "const":
        r = t
    elif t.op == "cases":
        r = mk_cases([(subst_bdd(g, m, memo), _subst(v, m, memo)) for v, g in t.args])
    else:
        changed = False
        na = []
        for a in t.args:
            b = _subst_arg(a, m, memo)
            if b is not a:
                changed = True
            na.append(b)
        r = rebuild(t.op, na) if changed else t
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, Term):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        b = tuple(_subst_arg(x, m, memo) for x in a)
        return b if any(x is not y for x, y in zip(a, b)) else a
    if isinstance(a, G):
        n = subst_bdd(a.n, m, memo)
        return a if n == a.n else G(n)
    return a


class G:
    """a BDD guard stored inside a term's args"""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(("G", self.n))

    def __eq__(self, o):
        return isinstance(o, G) and o.n == self.n


def subst_bdd(n, m, memo):
    if n < 2:
        return n
    k = ("bdd", n)
    r = memo.get(k)
    if r is not None:
        return r
    a, lo, hi = node_parts(n)
    if a in m:
        at = truth(m[a])
    else:
        b = _subst(a, m, memo)
        at = bvar(a) if b is a else truth(b)
    r = ite(at, subst_bdd(hi, m, memo), subst_bdd(lo, m, memo))
    memo[k] = r
    return r


_rebuilders = {}


def rebuilder(op):
    def deco(f):
        _rebuilders[op] = f
        return f

    return deco


def rebuild(op, args):
    f = _rebuilders.get(op)
    if f is not None:
        return f(*args)
    return T(op, *args)


# ---------------------------------------------------------------- walking
def subterms(t, seen=None):
    """all terms reachable, through guards too"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "B":
                stack.extend(atoms_of(x.args[0]))
            elif x.op == "cases":
                for v, g in x.args:
                    stack.append(v)
                    stack.extend(atoms_of(g))
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, G):
            stack.extend(atoms_of(x.n))
    return seen


_contains_memo = {}


def contains(t, x):
    """does term t mention term x"""
    k = (t, x)
    r = _contains_memo.get(k)
    if r is None:
        r = x in subterms(t)
        _contains_memo[k] = r
    return r


def bdd_contains(n, x):
    return any(contains(a, x) for a in atoms_of(n))


# ---------------------------------------------------------------- truthiness
BOOL_OPS = {"lt", "eq", "has", "exists", "isinst", "truth", "hasattr", "exc", "batom"}
# attributes that the repository declares as bool (filled in by the loader)
BOOL_ATTRS = set()


def truth(t):
    """BDD node for bool(t)"""
    if t.op == "B":
        return t.args[0]
    if t.op == "const":
        return 1 if t.args[1] else 0
    if t.op == "cases":
        return OR(*[AND(g, truth(v)) for v, g in t.args])
    if t.op == "tup":
        return 1 if t.args else 0
    if t.op in BOOL_OPS:
        return bvar(t)
    if t.op == "ext" and t.args[0].startswith("stub."):
        return 1
    if t.op in ("cls", "func", "bound", "module", "rec", "enum", "closure", "lambda"):
        if t.op == "enum" and isinstance(t.args[2], Term) and is_const(t.args[2]):
            return 1
        return 1
    if t.op == "poly":
        return NOT(eq(t, const(0)))
    if t.op == "list":
        return list_nonempty(t)
    if t.op == "set":
        return list_nonempty(t)
    if t.op == "dict" and t.args[0] is NONE and not t.args[2]:
        return OR(*[c[1].n for c in t.args[1]]) if t.args[1] else 0
    if t.op == "call" and t.args[0] in ("builtins.len", "len"):
        return truth(t.args[1][0])
    if t.op in ("sorted", "listof", "setof", "reversed"):
        return truth(t.args[0])
    return bvar(T("truth", t))


def list_nonempty(t):
    r = 0
    for seg in t.args:
        binders, g, kind, v = seg.args
        n = g.n
        if kind == "splice":
            n = AND(n, truth(v))
        for b in reversed(binders):
            n = exists(b, n)
        r = OR(r, n)
    return r


@rebuilder("truth")
def _rb_truth(x):
    return B(truth(x))


# ---------------------------------------------------------------- equality / order
BUILTIN_TYPES = {"builtins." + x for x in ("str", "int", "float", "bool", "list", "dict", "set", "tuple")}


def _distinct(a, b):
    """provably different values"""
    if is_const(a) and is_const(b):
        return cval(a) != cval(b)
    if a.op == "enum" and b.op == "enum":
        return a is not b
    if a.op == "enum" and b.op == "const" or b.op == "enum" and a.op == "const":
        e, c = (a, b) if a.op == "enum" else (b, a)
        # str enums compare equal to their value
        if isinstance(e.args[2], Term) and is_const(e.args[2]):
            return cval(e.args[2]) != cval(c)
        return True
    kinds = {"rec", "list", "dict", "set", "tup", "cls", "func", "ref", "poly_", "dictview"}
    for p, q in ((a, b), (b, a)):
        if q is NONE and p.op in kinds | {"fstr", "concat", "lambda", "bound"}:
            return True
        if q is NONE and p.op == "poly":
            return True
        if q is NONE and p.op == "B":
            return True
        if q is NONE and p.op == "enum":
            return True
        if q is NONE and p.op == "call" and p.args[0] in ("read", "int", "float", "str"):
            return True
        if q is NONE and p.op == "ext" and p.args[0] in BUILTIN_TYPES:
            return True
    if a.op == "call" and b.op == "call" and a.args[0] == "pathlib.Path" and b.args[0] == "pathlib.Path" and all(len(x.args[1]) == 1 and is_const(x.args[1][0]) for x in (a, b)):
        return a is not b
    if a.op == "ext" and b.op == "ext" and a.args[0] in BUILTIN_TYPES and b.args[0] in BUILTIN_TYPES:
        return a is not b
    if a.op == "rec" and b.op == "rec" and a.args[0] != b.args[0]:
        return False
    return False


DISTINCT_SETS = []  # list of frozensets of mutually distinct terms (rule supplied)


def assume_distinct(*ts):
    DISTINCT_SETS.append(frozenset(ts))


def eq(a, b):
    """BDD for a == b"""
    if a is b:
        return 1
    if a.op == "cases" or b.op == "cases":
        r = 0
        for g1, x in cases_of(a):
            for g2, y in cases_of(b):
                g = AND(g1, g2)
                if g:
                    r = OR(r, AND(g, eq(x, y)))
        return r
    if a.op == "B" and b.op == "B":
        return NOT(XOR(a.args[0], b.args[0]))
    for p, q in ((a, b), (b, a)):
        if p.op == "B" and p.args[0] in (0, 1):
            if q.op == "attr" and q.args[1] in BOOL_ATTRS or q.op in BOOL_OPS:
                n = truth(q)
                return n if p.args[0] == 1 else NOT(n)
            if q.op == "call" and q.args[0] in BOOL_CALLS:
                n = truth(q)
                return n if p.args[0] == 1 else NOT(n)
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args):
            return 0
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for s in DISTINCT_SETS:
        if a in s and b in s:
            return 0
    if a.op == "enum" and b.op == "const" or b.op == "enum" and a.op == "const":
        e, c = (a, b) if a.op == "enum" else (b, a)
        if isinstance(e.args[2], Term) and is_const(e.args[2]) and is_const(c):
            if cval(e.args[2]) == cval(c):
                return 1
    if _distinct(a, b):
        return 0
    # emptiness tests
    for p, q in ((a, b), (b, a)):
        if q.op == "const" and q.args[1] == 0 and q.args[0] == "int" and is_len(p):
            return NOT(truth(len_arg(p)))
        if q.op == "list" and not q.args and p.op not in ("list",):
            return NOT(truth(p))
        if q.op == "list" and not q.args and p.op == "list":
            return NOT(truth(p))
    # arithmetic: move to one side
    if is_num(a) and is_num(b):
        d = num_sub(a, b)
        c = num_const(d)
        if c is not None:
            return 1 if c == 0 else 0
        if a.op == "poly" or b.op == "poly":
            d = _normsign(d)
            return bvar(T("eq", d, const(0)))
    if a.id > b.id:
        a, b = b, a
    return bvar(T("eq", a, b))


BOOL_CALLS = set()


def is_len(t):
    return t.op == "call" and t.args[0] == "len"


def len_arg(t):
    return t.args[1][0]


@rebuilder("eq")
def _rb_eq(a, b):
    return B(eq(a, b))


def lt(a, b):
    """BDD for a < b"""
    if a is b:
        return 0
    if a.op == "cases" or b.op == "cases":
        r = 0
        for g1, x in cases_of(a):
            for g2, y in cases_of(b):
                g = AND(g1, g2)
                if g:
                    r = OR(r, AND(g, lt(x, y)))
        return r
    if is_const(a) and is_const(b):
        try:
            return 1 if cval(a) < cval(b) else 0
        except TypeError:
            return bvar(T("lt", a, b))
    if is_num(a) and is_num(b):
        d = num_sub(b, a)  # 0 < d
        c = num_const(d)
        if c is not None:
            return 1 if c > 0 else 0
        # emptiness tests on len(x): 0 < len(x) + k
        r = _len_lin(d)
        if r is not None:
            arg, coef, k = r
            if coef == 1:  # len + k > 0
                if k == 0:
                    return truth(arg)
                if k > 0:
                    return 1
            if coef == -1:  # k - len > 0
                if k == 1:
                    return NOT(truth(arg))
                if k <= 0:
                    return 0
        if int_valued(d):
            # canonical: 0 < d, choose d or its negation (0 < d <=> not (0 < 1-d))
            nd = num_sub(const(1), d)
            if _lead_sign(d) < 0:
                return NOT(bvar(T("lt", const(0), nd)))
            return bvar(T("lt", const(0), d))
        d = _normscale(d)
        return bvar(T("lt", const(0), d))
    return bvar(T("lt", a, b))


def le(a, b):
    """a <= b, read as not (b < a) (NaN aside, stated in DESIGN.md)"""
    return NOT(lt(b, a))


@rebuilder("lt")
def _rb_lt(a, b):
    return B(lt(a, b))


# ---------------------------------------------------------------- arithmetic
def is_num(t):
    if t.op == "const":
        return t.args[0] in ("int", "float", "Fraction")
    return t.op in ("poly", "sym", "attr", "idx", "call", "mcall", "lv", "bv", "pos", "phi", "pow", "sum", "param", "loopvar", "cnt")


def _poly(t):
    """dict monomial -> Fraction; monomial = tuple of (atom, exp) sorted"""
    if t.op == "const":
        return {(): Fraction(t.args[1]).limit_denominator(10**12) if isinstance(t.args[1], float) else Fraction(t.args[1])} if t.args[1] != 0 else {}
    if t.op == "poly":
        return dict((m, c) for m, c in t.args)
    if t.op == "pow":
        return {((t.args[0], t.args[1]),): Fraction(1)}
    return {((t, Fraction(1)),): Fraction(1)}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if c.denominator == 1:
                return const(int(c))
            return T("const", "Fraction", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T("poly", *sorted(d.items(), key=lambda mc: (tuple((a.id, e) for a, e in mc[0]), mc[1])))


@rebuilder("poly")
def _rb_poly(*terms):
    r = const(0)
    for m, c in terms:
        x = _unpoly({(): c}) if True else None
        for a, e in m:
            x = num_mul(x, num_pow(a, e))
        r = num_add(r, x)
    return r


def num_add(a, b):
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, Fraction(0)) + c
    return _unpoly(d)


def num_neg(a):
    return _unpoly({m: -c for m, c in _poly(a).items()})


def num_sub(a, b):
    return num_add(a, num_neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))


def num_mul(a, b):
    pa, pb = _poly(a), _poly(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            # expand positive integer powers of sums that arise
            d[m] = d.get(m, Fraction(0)) + c1 * c2
    return _unpoly(d)


def num_pow(a, e):
    e = Fraction(e)
    if e == 0:
        return const(1)
    if e == 1:
        return a
    p = _poly(a)
    if len(p) == 0:
        return const(0) if e > 0 else T("pow", a, e)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return _unpoly({tuple((x, k * e) for x, k in m): c ** int(e)})
        if c == 1 or c == -1 and False:
            return _unpoly({tuple((x, k * e) for x, k in m): Fraction(1)})
        rt = None
        if c > 0:
            import math

            for cand_n in [Fraction(round(math.sqrt(c.numerator)), round(math.sqrt(c.denominator)) or 1)]:
                if e == Fraction(1, 2) and cand_n * cand_n == c:
                    rt = cand_n
        if rt is not None:
            return _unpoly({tuple((x, k * e) for x, k in m): rt})
    if e.denominator == 1 and 1 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = num_mul(r, a)
        return r
    # normalise the sign/scale of the base: (c*p)^e for integer e
    lead = _lead(p)
    if e.denominator == 1 and lead != 1:
        base = _unpoly({m: c / lead for m, c in p.items()})
        return _unpoly({((base, e),): lead ** int(e)})
    return _unpoly({((a, e),): Fraction(1)})


@rebuilder("pow")
def _rb_pow(a, e):
    return num_pow(a, e)


def num_div(a, b):
    return num_mul(a, num_pow(b, -1))


def _lead(p):
    m = min(p, key=lambda m: (len(m) == 0, tuple((a.id, e) for a, e in m)))
    return p[m]


def num_const(t):
    if t.op == "const" and t.args[0] in ("int", "float", "Fraction"):
        return t.args[1]
    return None


def _lead_sign(t):
    p = _poly(t)
    return 1 if _lead(p) > 0 else -1


def _normsign(t):
    p = _poly(t)
    l = _lead(p)
    return _unpoly({m: c / l for m, c in p.items()})


def _normscale(t):
    p = _poly(t)
    l = abs(_lead(p))
    return _unpoly({m: c / l for m, c in p.items()})


def _len_lin(d):
    """d = coef*len(x) + k ?"""
    p = _poly(d)
    arg = coef = None
    k = Fraction(0)
    for m, c in p.items():
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1 and is_len(m[0][0]) and arg is None:
            arg, coef = len_arg(m[0][0]), c
        else:
            return None
    if arg is None:
        return None
    return arg, coef, k


INT_ATTRS = {"min", "max", "every_nth", "chunk_size", "chunk_size_parallel_processing"}


def int_valued(t):
    for m, c in _poly(t).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if not (is_len(a) or a.op in ("pos", "cnt") or (a.op == "attr" and a.args[1] in INT_ATTRS) or (a.op in ("lv", "bv", "sym") and len(a.args) > 1 and a.args[-1] == "int")):
                return False
    return True


# ---------------------------------------------------------------- quantifiers
def _maxbv(t):
    return max([x.args[0] for x in subterms(t) if x.op == "bv"], default=0)


def _maxbv_bdd(n):
    return max([_maxbv(a) for a in atoms_of(n)], default=0)


def exists(x, n):
    """close BDD n over bound variable x (an lv/bv term)"""
    if n < 2:
        # exists x. True : domain emptiness is part of n (membership atoms), so True stays True
        return n
    dep = [a for a in atoms_of(n) if contains(a, x)]
    if not dep:
        return n
    indep = [a for a in atoms_of(n) if a not in set(dep)]
    if indep:
        a = indep[0]
        return ite(bvar(a), exists(x, cofactor(n, a, 1)), exists(x, cofactor(n, a, 0)))
    # one-point rule: if n forces x == t
    for a in dep:
        if a.op == "eq" and cofactor(n, a, 0) == 0:
            p, q = a.args
            other = q if p is x else p if q is x else None
            if other is not None and not contains(other, x):
                return subst_bdd(cofactor(n, a, 1), {x: other}, {})
    # disjunctive splitting on the top-level: only when n is a plain OR of disjoint cubes is not canonical; keep whole
    k = _maxbv_bdd(n) + 1
    bv = T("bv", k)
    body = subst_bdd(n, {x: bv}, {})
    return bvar(T("exists", bv, G(body)))


@rebuilder("exists")
def _rb_exists(bv, g):
    # called after substitution inside the body
    k = T("lv", "rb", bv.args[0])
    n = subst_bdd(g.n, {bv: k}, {})
    return B(exists(k, n))


def forall(x, n):
    return NOT(exists(x, NOT(n)))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, G):
            return showb(t.n, d + 1)
        return str(t)
    if d > 12:
        return "..."
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o == "B":
        return showb(a[0], d + 1)
    if o == "sym" or o == "param":
        return str(a[0])
    if o == "lv" or o == "bv":
        return "$" + "_".join(str(x) for x in a)
    if o == "attr":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "idx":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "has":
        return "%s in %s" % (show(a[1], d + 1), show(a[0], d + 1))
    if o == "eq":
        return "%s == %s" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "lt":
        return "%s < %s" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "truth":
        return "bool(%s)" % show(a[0], d + 1)
    if o == "enum":
        return "%s.%s" % (a[0].split(".")[-1], a[1])
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1]) + "".join(", %s=%s" % (k, show(v, d + 1)) for k, v in (a[2] if len(a) > 2 else ())))
    if o == "mcall":
        return "%s.%s(%s)" % (show(a[0], d + 1), a[1], ", ".join(show(x, d + 1) for x in a[2]) + "".join(", %s=%s" % (k, show(v, d + 1)) for k, v in a[3]))
    if o == "rec":
        return "%s(%s)" % (a[0].split(".")[-1], ", ".join("%s=%s" % (k, show(v, d + 1)) for k, v in a[1]))
    if o == "cases":
        return "{" + "; ".join("%s if %s" % (show(v, d + 1), showb(g, d + 1)) for v, g in a) + "}"
    if o == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if o in ("list", "set"):
        return o + "[" + ", ".join(show(x, d + 1) for x in a) + "]"
    if o == "seg":
        b, g, k, v = a
        s = ("*" if k == "splice" else "") + show(v, d + 1)
        if b:
            s += " for " + ",".join(show(x) for x in b)
        if g.n != 1:
            s += " if " + showb(g.n, d + 1)
        return s
    if o == "dict":
        return "{" + ", ".join("%s: %s%s" % (show(k, d + 1), show(v, d + 1), "" if p.n == 1 else " if " + showb(p.n, d + 1)) for k, p, v in a[1]) + (", **%s" % show(a[0]) if a[0] is not NONE else "") + "}"
    if o == "exists":
        return "∃%s.%s" % (show(a[0]), showb(a[1].n, d + 1))
    if o == "poly":
        return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + [show(x, d + 1) + ("" if e == 1 else "^%s" % e) for x, e in m]) for m, c in a)
    if o == "pow":
        return "(%s)^%s" % (show(a[0], d + 1), a[1])
    if o == "cls":
        return a[0].split(".")[-1]
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def showb(n, d=0):
    if n == 0:
        return "False"
    if n == 1:
        return "True"
    if d > 12:
        return "..."
    # sum of cubes
    cubes = []

    def go(m, cur):
        if len(cubes) > 8:
            return
        if m == 1:
            cubes.append(list(cur))
            return
        if m == 0:
            return
        a, lo, hi = node_parts(m)
        go(hi, cur + [(a, True)])
        go(lo, cur + [(a, False)])

    go(n, [])
    return " | ".join("(" + " & ".join(("" if v else "!") + "[" + show(a, d + 1) + "]" for a, v in c) + ")" for c in cubes)
