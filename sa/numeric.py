"""Random interpretation of arithmetic terms: terms are evaluated in the term algebra at random points, library functions by their
mathematical definition. Used only to decide whether two formulas are the same function; no code of the subject is run."""
import math
from fractions import Fraction
from statistics import NormalDist

from .terms import *
from .terms import node_parts, cases_of


class Unknown(Exception):
    pass


class Obj_:
    def __init__(self, **k):
        self.__dict__.update(k)


ND = NormalDist()


# ------------------------------------------------------------------ tensors: nested lists of floats
def shape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        x = x[0] if x else None
    return tuple(s)


def ew1(f, x):
    return [ew1(f, a) for a in x] if isinstance(x, list) else f(x)


def ew2(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        sa, sb = shape(a), shape(b)
        if len(sa) > len(sb):
            return [ew2(f, x, b) for x in a]
        if len(sb) > len(sa):
            return [ew2(f, a, y) for y in b]
        if len(a) != len(b):
            if len(a) == 1:
                return [ew2(f, a[0], y) for y in b]
            if len(b) == 1:
                return [ew2(f, x, b[0]) for x in a]
            raise Unknown("shapes %s %s" % (sa, sb))
        return [ew2(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [ew2(f, x, b) for x in a]
    if isinstance(b, list):
        return [ew2(f, a, y) for y in b]
    return f(a, b)


def flatl(x):
    return [z for y in x for z in flatl(y)] if isinstance(x, list) else [x]


def transpose(x):
    return [list(r) for r in zip(*x)] if len(shape(x)) == 2 else x


def matmul(a, b):
    sa, sb = shape(a), shape(b)
    if len(sa) == 1 and len(sb) == 1:
        return sum(x * y for x, y in zip(a, b))
    if len(sa) == 1:
        return [sum(a[i] * b[i][j] for i in range(sa[0])) for j in range(sb[1])]
    if len(sb) == 1:
        return [sum(r[i] * b[i] for i in range(sb[0])) for r in a]
    return [[sum(r[i] * b[i][j] for i in range(sb[0])) for j in range(sb[1])] for r in a]


def solve(a, b):
    n = len(a)
    m = [list(a[i]) + list(b[i]) for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-13:
            raise Unknown("singular")
        m[c], m[p] = m[p], m[c]
        for r in range(n):
            if r != c:
                f = m[r][c] / m[c][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [[m[i][n + j] / m[i][i] for j in range(len(b[0]))] for i in range(n)]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def inverse(a):
    return solve(a, eye(len(a)))


def det(a):
    n = len(a)
    m = [list(r) for r in a]
    d = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if m[p][c] == 0:
            return 0.0
        if p != c:
            m[c], m[p] = m[p], m[c]
            d = -d
        d *= m[c][c]
        for r in range(c + 1, n):
            f = m[r][c] / m[c][c]
            m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return d


def mean(x):
    f = flatl(x)
    return sum(f) / len(f)


def var(x, correction=1):
    f = flatl(x)
    m = mean(f)
    return sum((a - m) ** 2 for a in f) / (len(f) - correction)


def cov(x, correction=1):
    n = len(x[0])
    ms = [mean(r) for r in x]
    return [[sum((p - mp) * (q - mq) for p, q in zip(r, s)) / (n - correction) for s, mq in zip(x, ms)] for r, mp in zip(x, ms)]


def corrcoef(x):
    c = cov(x)
    return [[c[i][j] / math.sqrt(c[i][i] * c[j][j]) for j in range(len(c))] for i in range(len(c))]


def lstsq(a, b, *_, **__):
    v = len(shape(b)) == 1
    bb = [[y] for y in b] if v else b
    at = transpose(a)
    g = matmul(at, a)
    try:
        s = solve(g, matmul(at, bb))
    except Unknown:
        # rank deficient: the solution of minimal norm, approximated by a vanishing ridge
        e = 1e-9 * sum(g[j][j] for j in range(len(g)))
        s = solve([[x + (e if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(g)], matmul(at, bb))
    return Obj_(solution=[r[0] for r in s] if v else s, __iter__=None)


def stack(xs, dim=0):
    xs = list(xs)
    if dim in (0,):
        return xs
    if dim in (1, -1) and len(shape(xs)) == 2:
        return transpose(xs)
    raise Unknown("stack dim")


def diag(x):
    if len(shape(x)) == 2:
        return [x[i][i] for i in range(len(x))]
    return [[x[i] if i == j else 0.0 for j in range(len(x))] for i in range(len(x))]


def zeros(*s, **k):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    if not s:
        return 0.0
    return [zeros(*s[1:]) if len(s) > 1 else 0.0 for _ in range(int(s[0]))]


def fill(v):
    def f(*s, **k):
        return ew1(lambda _: v, zeros(*s))

    return f


def norm(x, *a, **k):
    return math.sqrt(sum(y * y for y in flatl(x)))


def betacf(a, b, x):
    m, d = 1.0, 1.0
    qab, qap, qam = a + b, a + 1, a - 1
    c = 1.0
    d = 1 - qab * x / qap
    d = 1 / (d if abs(d) > 1e-300 else 1e-300)
    h = d
    for m in range(1, 400):
        m2 = 2 * m
        aa = m * (b - m) * x / ((qam + m2) * (a + m2))
        d = 1 + aa * d
        c = 1 + aa / c
        d = 1 / (d if abs(d) > 1e-300 else 1e-300)
        h *= d * c
        aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2))
        d = 1 + aa * d
        c = 1 + aa / c
        d = 1 / (d if abs(d) > 1e-300 else 1e-300)
        de = d * c
        h *= de
        if abs(de - 1) < 1e-15:
            break
    return h


def betainc(a, b, x):
    if x <= 0:
        return 0.0
    if x >= 1:
        return 1.0
    bt = math.exp(math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) + a * math.log(x) + b * math.log(1 - x))
    return bt * betacf(a, b, x) / a if x < (a + 1) / (a + b + 2) else 1 - bt * betacf(b, a, 1 - x) / b


def t_cdf(t, df, *_):
    p = 0.5 * betainc(df / 2, 0.5, df / (df + t * t))
    return 1 - p if t > 0 else p


def t_ppf(q, df, *_):
    lo, hi = -1e6, 1e6
    for _ in range(200):
        m = (lo + hi) / 2
        if t_cdf(m, df) < q:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def clamp(x, min=None, max=None):
    def f(v):
        if min is not None and v < min:
            v = min
        if max is not None and v > max:
            v = max
        return v

    return ew1(f, x)


def std(x, *a, unbiased=True, correction=None, ddof=None, **k):
    if a:
        unbiased = a[-1]
    c = correction if correction is not None else ddof if ddof is not None else (1 if unbiased else 0)
    return math.sqrt(var(x, c))


def var_(x, *a, unbiased=True, correction=None, **k):
    return std(x, *a, unbiased=unbiased, correction=correction) ** 2


def fabs(x):
    return ew1(abs, x)


def total(x, start=0):
    for y in x:
        start = ew2(lambda p, q: p + q, start, y)
    return start


SQRT = lambda x: ew1(lambda v: math.sqrt(v), x)
FN = {
    "math.log": math.log, "torch.log": lambda x: ew1(math.log, x), "math.log1p": math.log1p, "torch.log1p": lambda x: ew1(math.log1p, x), "math.sqrt": math.sqrt, "torch.sqrt": SQRT, "math.exp": math.exp, "math.atanh": math.atanh,
    "torch.atanh": lambda x: ew1(math.atanh, x), "torch.arctanh": lambda x: ew1(math.atanh, x), "math.erf": math.erf, "math.erfc": math.erfc, "torch.erf": lambda x: ew1(math.erf, x), "torch.erfc": lambda x: ew1(math.erfc, x),
    "math.fabs": abs, "abs": fabs, "builtins.abs": fabs, "torch.abs": fabs, "math.pow": pow, "pow": pow, "builtins.pow": pow, "torch.square": lambda x: ew1(lambda v: v * v, x), "torch.rsqrt": lambda x: ew1(lambda v: v ** -0.5, x),
    "round": round, "builtins.round": round, "float": lambda x: float(x), "builtins.float": lambda x: float(x), "int": int, "builtins.int": int, "max": max, "min": min, "builtins.max": max, "builtins.min": min, "sum": lambda x, s=0: total(x, s), "builtins.sum": lambda x, s=0: total(x, s), "len": len, "builtins.len": len,
    "scipy.stats.norm.cdf": lambda x, *a: ND.cdf(x), "scipy.stats.norm.sf": lambda x, *a: 0.5 * math.erfc(x / math.sqrt(2)), "scipy.stats.norm.ppf": lambda q, *a: ND.inv_cdf(q), "scipy.stats.norm.isf": lambda q, *a: -ND.inv_cdf(q),
    "scipy.special.ndtr": lambda x: ND.cdf(x), "scipy.stats.t.cdf": t_cdf, "scipy.stats.t.sf": lambda t, df, *a: t_cdf(-t, df), "scipy.stats.t.ppf": t_ppf, "scipy.stats.t.isf": lambda q, df, *a: -t_ppf(q, df),
    "torch.cov": cov, "torch.corrcoef": corrcoef, "torch.stack": stack, "torch.det": det, "torch.linalg.det": det, "torch.inverse": inverse, "torch.linalg.inv": inverse, "torch.diag": diag, "torch.diagonal": diag, "torch.diag_embed": diag,
    "torch.zeros": zeros, "torch.ones": fill(1.0), "torch.eye": lambda n, *a, **k: eye(int(n)), "torch.mm": matmul, "torch.matmul": matmul, "torch.mv": matmul, "torch.dot": matmul, "torch.inner": matmul, "torch.outer": lambda a, b: [[x * y for y in b] for x in a],
    "torch.norm": norm, "torch.linalg.norm": norm, "torch.linalg.vector_norm": norm, "torch.linalg.lstsq": lstsq, "torch.mean": mean, "torch.sum": lambda x: sum(flatl(x)), "torch.std": std, "torch.var": var_, "torch.clamp": clamp, "torch.clip": clamp,
    "torch.mul": lambda a, b: ew2(lambda x, y: x * y, a, b), "torch.div": lambda a, b: ew2(lambda x, y: x / y, a, b), "torch.sub": lambda a, b: ew2(lambda x, y: x - y, a, b), "torch.add": lambda a, b: ew2(lambda x, y: x + y, a, b), "torch.tensor": lambda x, **k: x, "torch.transpose": lambda x, *a: transpose(x), "torch.t": transpose,
    "torch.linalg.solve": lambda a, b: ([r[0] for r in solve(a, [[y] for y in b])] if len(shape(b)) == 1 else solve(a, b)),
    "torch.sign": lambda x: ew1(lambda v: (v > 0) - (v < 0), x), "math.hypot": math.hypot,
}
METHODS = {
    "item": lambda x: x if not isinstance(x, list) else flatl(x)[0], "mean": lambda x, *a: mean(x), "sum": lambda x, *a: sum(flatl(x)), "std": std, "var": var_, "size": lambda x, *a: (shape(x)[int(a[0])] if a else shape(x)), "t": transpose, "abs": fabs,
    "sqrt": SQRT, "inverse": inverse, "det": det, "diag": diag, "diagonal": diag, "norm": norm, "dot": matmul, "mm": matmul, "matmul": matmul, "double": lambda x: x, "float": lambda x: x, "log": lambda x: ew1(math.log, x), "pow": lambda x, e: ew1(lambda v: v ** e, x),
    "clamp": clamp, "detach": lambda x: x, "clone": lambda x: x, "numel": lambda x: len(flatl(x)), "square": lambda x: ew1(lambda v: v * v, x), "tolist": lambda x: x, "copy": lambda x: dict(x) if isinstance(x, dict) else list(x),
}


def view(x, *s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    f = flatl(x)
    s = [int(k) for k in s]
    if s == [-1, 1]:
        return [[v] for v in f]
    if s == [1, -1]:
        return [f]
    if s == [-1]:
        return f
    if len(s) == 2:
        if s[0] == -1:
            s[0] = len(f) // s[1]
        if s[1] == -1:
            s[1] = len(f) // s[0]
        if s[0] * s[1] == len(f):
            return [f[k * s[1] : (k + 1) * s[1]] for k in range(s[0])]
    if len(s) == 1 and s[0] == len(f):
        return f
    raise Unknown("view")


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def diagonal(x, offset=0, *a, **k):
    n = int(offset)
    return [r[j + n] for j, r in enumerate(x) if 0 <= j + n < len(r)]


FN["torch.diagonal"] = METHODS["diagonal"] = diagonal
FN["torch.kron"] = kron
FN["torch.linalg.pinv"] = FN["torch.pinverse"] = lambda a: inverse(a)
FN["torch.reshape"] = view
FN["torch.flatten"] = lambda x, *a: flatl(x)
FN["torch.zeros_like"] = lambda x, **k: ew1(lambda v: 0.0, x)
FN["torch.block_diag"] = lambda *ms: [[(m[r][c - o] if o <= c < o + len(m[0]) else 0.0) for c in range(sum(len(q[0]) for q in ms))] for m, o in zip(ms, [sum(len(q[0]) for q in ms[:k]) for k in range(len(ms))] ) for r in range(len(m))]


METHODS["view"] = view
METHODS["reshape"] = view
METHODS["unsqueeze"] = lambda x, d: [[v] for v in x] if int(d) in (1, -1) else [x]
METHODS["squeeze"] = lambda x, *a: [v[0] if isinstance(v, list) and len(v) == 1 else v for v in x]
METHODS["flatten"] = lambda x, *a: flatl(x)
METHODS["transpose"] = lambda x, *a: transpose(x)


class Ev:
    def __init__(self, leaf, stores=()):
        self.leaf = leaf  # Term -> value or None
        self.stores = stores
        self.memo = {}
        self.bind = {}
        self.cache_tensor = {}

    def b(self, n):
        while n > 1:
            v, lo, hi = node_parts(n)
            try:
                n = hi if self.atom(v) else lo
            except (Unknown, TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError) as e:
                # the condition may be irrelevant at this point
                r = self.b(lo)
                if self.b(hi) != r:
                    raise Unknown(str(e))
                return r
        return bool(n)

    def atom(self, a):
        v = self.leaf(a)
        if v is not None:
            return bool(v)
        if a.op == "lt":
            x, y = self(a.args[0]), self(a.args[1])
            return x < y
        if a.op == "eq":
            x, y = self(a.args[0]), self(a.args[1])
            if isinstance(x, float) or isinstance(y, float):
                return abs(x - y) < 1e-12
            return x == y
        if a.op == "truth":
            return bool(self(a.args[0]))
        v = self(a)
        return bool(v)

    def __call__(self, t):
        if not self.bind and t in self.memo:
            return self.memo[t]
        v = self.ev(t)
        if not self.bind:
            self.memo[t] = v
        return v

    def ev(self, t):
        if t in self.bind:
            return self.bind[t]
        v = self.leaf(t)
        if v is not None:
            return v
        o = t.op
        if o == "const":
            c = t.args[1]
            return float(c) if isinstance(c, Fraction) else c
        if o == "cases":
            for g, x in cases_of(t):
                if self.b(g):
                    return self(x)
            raise Unknown("no case of %s" % show(t)[:80])
        if o == "B":
            return self.b(t.args[0])
        if o == "poly":
            r = 0.0
            for m, c in t.args:
                x = float(c)
                for a, e in m:
                    x = ew2(lambda p, q: p * q, x, self.power(self(a), e))
                r = ew2(lambda p, q: p + q, r, x)
            return r
        if o == "pow":
            return self.power(self(t.args[0]), t.args[1])
        if o == "tup":
            return tuple(self(a) for a in t.args)
        if o == "list":
            out = []
            for s in t.args:
                if s.op != "seg":
                    out.append(self(s))
                    continue
                b, g, k, v = s.args
                if b and k == "elem" and all(x.op == "bv" and str(x.args[-1]).endswith("int") or "_int" in show(x) for x in b):
                    self.expand(b, g.n, v, out)
                    continue
                if b or k not in ("elem", "splice"):
                    raise Unknown("comprehension")
                if self.b(g.n):
                    if k == "elem":
                        out.append(self(v))
                    else:
                        out.extend(self(v))
            return out
        if o == "idx":
            x, k = self(t.args[0]), self(t.args[1])
            return self.index(x, k)
        if o == "attr":
            x = self(t.args[0])
            n = t.args[1]
            if n in ("T", "mT"):
                return transpose(x)
            if n == "shape":
                return shape(x)
            if isinstance(x, Obj_) and n in x.__dict__:
                return x.__dict__[n]
            raise Unknown("attribute %s" % n)
        if o == "call":
            f = FN.get(t.args[0]) if isinstance(t.args[0], str) else None
            if f is None:
                raise Unknown("function %s" % (t.args[0],))
            return f(*[self(a) for a in t.args[1]], **{k: self.kw(a) for k, a in (t.args[2] if len(t.args) > 2 else ())})
        if o == "mcall":
            return self.mcall(t)
        if o == "slice":
            x = self(t.args[0])
            k = [self(a) for a in t.args[1:]]
            return x[slice(*[None if j is None else int(j) for j in k])]
        if o == "repeat":
            return self(t.args[0]) * int(self(t.args[1]))
        if o == "sliceobj":
            return slice(*[None if a is NONE else int(self(a)) for a in t.args])
        if o == "binop" and t.args[0] in ("FloorDiv", "Mod"):
            x, y = self(t.args[1]), self(t.args[2])
            return x // y if t.args[0] == "FloorDiv" else x % y
        if o == "ext":
            return Obj_(name=t.args[0])
        raise Unknown("term %s" % show(t)[:80])

    def expand(self, b, g, v, out):
        old = dict(self.bind)
        combos = [()]
        for _ in b:
            combos = [c + (j,) for c in combos for j in range(8)]
        try:
            for c in combos:
                self.bind = {**old, **dict(zip(b, c))}
                if self.b(g):
                    out.append(self(v))
        finally:
            self.bind = old

    def kw(self, a):
        return self(a)

    def mcall(self, t):
        recv, name, args = t.args[0], t.args[1], t.args[2]
        kw = t.args[3] if len(t.args) > 3 else ()
        if isinstance(recv, str):
            recv, name = t.args[1], t.args[0]
        f = METHODS.get(name)
        if f is None:
            raise Unknown("method %s" % name)
        return f(self(recv), *[self(a) for a in args], **{k: self(a) for k, a in kw})

    def index(self, x, k):
        if isinstance(k, tuple) and isinstance(x, list):
            if any(isinstance(j, slice) for j in k):
                if len(k) != 2:
                    raise Unknown("index")
                rows = x[k[0]] if isinstance(k[0], slice) else [x[int(k[0])]]
                cols = [r[k[1]] if isinstance(k[1], slice) else r[int(k[1])] for r in rows]
                return cols if isinstance(k[0], slice) else cols[0]
            for j in k:
                x = x[int(j)]
            return x
        if isinstance(k, slice):
            return x[k]
        if isinstance(x, dict):
            return x[k]
        if isinstance(x, Obj_) and hasattr(x, "solution") and k == 0:
            return x.solution
        return x[int(k)]

    def power(self, x, e):
        if e == 1:
            return x

        def f(v):
            if v == 0 and e < 0:
                raise Unknown("division by zero")
            if v < 0 and e.denominator != 1:
                raise Unknown("root of a negative number")
            return v ** (int(e) if e.denominator == 1 else float(e))

        return ew1(f, x)


def stored_tensor(ev, base, stores):
    """value of a tensor that is filled element by element: stores = [(binders, guard, index, value)]"""
    x = ew1(lambda v: v, base)
    for binders, g, k, v in stores:
        n = len(x)
        combos = [()]
        for _ in binders:
            combos = [c + (j,) for c in combos for j in range(n)]
        for c in combos:
            old = dict(ev.bind)
            ev.bind.update(dict(zip(binders, c)))
            try:
                if not ev.b(g):
                    continue
                idx = ev(k)
                val = ev(v)
            finally:
                ev.bind = old
            if isinstance(idx, tuple) and len(idx) == 2 and any(isinstance(j, slice) for j in idx):
                at = [range(m)[j] if isinstance(j, slice) else [int(j)] for j, m in zip(idx, shape(x))]
                if isinstance(val, list):
                    val = val if shape(val) == (len(at[0]), len(at[1])) else [val] if not isinstance(idx[0], slice) else [[v] for v in val]
                    if shape(val) != (len(at[0]), len(at[1])):
                        raise Unknown("shape of a store")
                for a, r in enumerate(at[0]):
                    for b, c in enumerate(at[1]):
                        x[r][c] = val[a][b] if isinstance(val, list) else val
            elif isinstance(idx, slice):
                raise Unknown("store to a slice")
            elif isinstance(idx, tuple):
                x[int(idx[0])][int(idx[1])] = val
            else:
                x[int(idx)] = val
    return x
