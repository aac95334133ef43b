"""Identity testing of extracted matrix formulas.

A formula taken from the source is evaluated, by the small interpreter below, at points
where its inputs are arbitrary matrices; two formulas that differ at a point are different,
and formulas that agree at several random points are taken to be the same.  Nothing of the
repository runs: what is evaluated is the term the value graph gives for the source, and
only functions with a known meaning are interpreted.  Anything else is ``Unknown``.
"""

import bisect
import math
import random

from .vg import T, cval, is_const, seq_items


class Unknown(Exception):
    """Something the interpreter does not know the meaning of."""


class A:
    """An array of numbers, row by row."""

    __slots__ = ("data", "shape")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def __repr__(self):
        return f"A{self.shape}{[round(x, 5) if isinstance(x, float) else x for x in self.data]}"

    @property
    def ndim(self):
        return len(self.shape)


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def matrix(rows):
    return A((len(rows), len(rows[0])), [x for r in rows for x in r])


def vector(xs):
    return A((len(xs),), xs)


def arr(x):
    if isinstance(x, A):
        return x
    if isinstance(x, (int, float)) or type(x).__name__ in ("Aff", "Convex"):
        return A((), [x])
    if isinstance(x, (list, tuple)):
        xs = [arr(y) for y in x]
        if not xs:
            return A((0,), [])
        if len({y.shape for y in xs}) != 1:
            raise Unknown("ragged")
        return A((len(xs), *xs[0].shape), [d for y in xs for d in y.data])
    raise Unknown(type(x).__name__)


def scalar(x):
    if isinstance(x, A) and x.ndim == 0:
        return x.data[0]
    return x


def rows(a):
    n = size(a.shape[1:])
    return [A(a.shape[1:], a.data[i * n : (i + 1) * n]) for i in range(a.shape[0])]


def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.insert(0, n)
        n *= s
    return out


def indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in indices(shape[1:]):
            yield (i, *r)


def get(a, idx):
    return a.data[sum(i * s for i, s in zip(idx, strides(a.shape), strict=True))]


def broadcast(f, *xs):
    xs = [arr(x) for x in xs]
    nd = max(x.ndim for x in xs)
    shapes = [(1,) * (nd - x.ndim) + x.shape for x in xs]
    shape = []
    for dims in zip(*shapes, strict=True):
        d = {n for n in dims if n != 1}
        if len(d) > 1:
            raise Unknown(f"shapes {[x.shape for x in xs]}")
        shape.append(d.pop() if d else 1)
    if all(x.shape == tuple(shape) for x in xs):
        return A(shape, [f(*v) for v in zip(*[x.data for x in xs], strict=True)])
    steps = [[0 if n == 1 else s for n, s in zip(sh, strides(sh), strict=True)] for sh in shapes]
    out = [f(*[x.data[sum(i * s for i, s in zip(ix, st, strict=True))] for x, st in zip(xs, steps, strict=True)]) for ix in indices(shape)]
    return A(shape, out)


def each(f):
    return lambda x: broadcast(f, x)


def transpose(a):
    a = arr(a)
    if a.ndim < 2:
        return a
    sh = a.shape[::-1]
    return A(sh, [get(a, ix[::-1]) for ix in indices(sh)])


def matmul(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0 or a.ndim > 2 or b.ndim > 2:
        raise Unknown("product")
    x = A((1, *a.shape), a.data) if a.ndim == 1 else a
    y = A((*b.shape, 1), b.data) if b.ndim == 1 else b
    if x.shape[1] != y.shape[0]:
        raise Unknown(f"product of {a.shape} and {b.shape}")
    n, k, m = x.shape[0], x.shape[1], y.shape[1]
    d = [sum(x.data[i * k + r] * y.data[r * m + j] for r in range(k)) for i in range(n) for j in range(m)]
    shape = ([n] if a.ndim == 2 else []) + ([m] if b.ndim == 2 else [])
    return A(shape, d)


def reduce(f, a, axis=None, keepdims=False):
    a = arr(a)
    if axis is None:
        v = f(a.data)
        return A((1,) * a.ndim if keepdims else (), [v])
    axis = axis % a.ndim
    sh = a.shape[:axis] + a.shape[axis + 1 :]
    out = [f([get(a, (*ix[:axis], i, *ix[axis:])) for i in range(a.shape[axis])]) for ix in indices(sh)]
    return A(a.shape[:axis] + (1,) + a.shape[axis + 1 :] if keepdims else sh, out)


def along(f, a, axis=-1):
    """A function of a line applied to every line along an axis."""
    a = arr(a)
    if a.ndim == 0:
        raise Unknown("no axis")
    axis = axis % a.ndim
    lines = {}
    sh = a.shape[:axis] + a.shape[axis + 1 :]
    n = None
    for ix in indices(sh):
        lines[ix] = f([get(a, (*ix[:axis], i, *ix[axis:])) for i in range(a.shape[axis])])
        n = len(lines[ix])
    full = a.shape[:axis] + (n or 0,) + a.shape[axis + 1 :]
    return A(full, [lines[(*ix[:axis], *ix[axis + 1 :])][ix[axis]] for ix in indices(full)])


def variance(ddof):
    def f(xs):
        m = sum(xs) / len(xs)
        if len(xs) - ddof <= 0:
            raise Unknown("variance of one value")
        return sum((x - m) ** 2 for x in xs) / (len(xs) - ddof)

    return f


def cov(a, ddof=1, rowvar=True):
    a = arr(a)
    if a.ndim == 1:
        return reduce(variance(ddof), a)
    lines = [r.data for r in rows(a if rowvar else transpose(a))]
    n = len(lines[0])
    ms = [sum(x) / n for x in lines]
    return matrix(
        [[sum((x - p) * (y - q) for x, y in zip(u, v, strict=True)) / (n - ddof) for v, q in zip(lines, ms, strict=True)] for u, p in zip(lines, ms, strict=True)]
    )


def identity(n):
    return A((n, n), [1.0 if i == j else 0.0 for i in range(n) for j in range(n)])


def diag(a, k=0):
    a = arr(a)
    if k:
        raise Unknown("offset diagonal")
    if a.ndim == 1:
        n = a.shape[0]
        return A((n, n), [a.data[i] if i == j else 0.0 for i in range(n) for j in range(n)])
    n = min(a.shape)
    return A((n,), [a.data[i * a.shape[1] + i] for i in range(n)])


def solve(a, b):
    a, b = arr(a), arr(b)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n or b.shape[0] != n:
        raise Unknown("solve")
    m = [[*map(float, r.data), *map(float, s.data)] for r, s in zip(rows(a), rows(A((n, size(b.shape[1:])), b.data)), strict=True)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-12:
            raise Unknown("singular")
        m[i], m[p] = m[p], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for r in range(n):
            if r != i and m[r][i]:
                f = m[r][i]
                m[r] = [x - f * y for x, y in zip(m[r], m[i], strict=True)]
    return A(b.shape, [x for r in m for x in r[n:]])


def cholesky(a):
    a = arr(a)
    n = a.shape[0]
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = a.data[i * n + j] - sum(m[i][k] * m[j][k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise Unknown("not positive definite")
                m[i][i] = math.sqrt(s)
            else:
                m[i][j] = s / m[j][j]
    return matrix(m)


def eigh(a):
    """Eigenvalues in increasing order and eigenvectors of a symmetric matrix (Jacobi)."""
    a = arr(a)
    n = a.shape[0]
    m = [list(r.data) for r in rows(a)]
    if any(abs(m[i][j] - m[j][i]) > 1e-9 for i in range(n) for j in range(n)):
        raise Unknown("not symmetric")
    v = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        if sum(m[i][j] ** 2 for i in range(n) for j in range(n) if i != j) < 1e-26:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(m[p][q]) < 1e-300:
                    continue
                th = (m[q][q] - m[p][p]) / (2 * m[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = m[k][p], m[k][q]
                    m[k][p], m[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = m[p][k], m[q][k]
                    m[p][k], m[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    order = sorted(range(n), key=lambda i: m[i][i])
    return vector([m[i][i] for i in order]), matrix([[v[k][i] for i in order] for k in range(n)])


def kron(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unknown("kron")
    (n, m), (p, q) = a.shape, b.shape
    return A((n * p, m * q), [get(a, (i // p, j // q)) * get(b, (i % p, j % q)) for i in range(n * p) for j in range(m * q)])


def join(xs, axis):
    xs = [arr(x) for x in xs]
    if axis < 0:
        axis += xs[0].ndim
    if axis == 0:
        return A((sum(x.shape[0] for x in xs), *xs[0].shape[1:]), [d for x in xs for d in x.data])
    if axis == 1 and all(x.ndim == 2 for x in xs):
        return transpose(join([transpose(x) for x in xs], 0))
    raise Unknown("join")


def reshape(a, shape, order="C"):
    a = arr(a)
    shape = [shape] if isinstance(shape, int) else [int(scalar(s)) for s in shape]
    if -1 in shape:
        k = size([s for s in shape if s != -1])
        shape[shape.index(-1)] = size(a.shape) // k
    if size(shape) != size(a.shape):
        raise Unknown("reshape")
    if order == "C":
        return A(shape, a.data)
    return transpose(A(shape[::-1], transpose(a).data))


def pick(a, key):
    """Indexing with numbers, slices, new axes, lists and masks."""
    a = arr(a) if not isinstance(a, (list, tuple)) else a
    if isinstance(a, (list, tuple)):
        k = scalar(key)
        if isinstance(k, (int, slice)):
            return a[k]
        a = arr(a)
    keys = list(key) if isinstance(key, tuple) else [key]
    if Ellipsis in keys:
        raise Unknown("ellipsis")
    out, axis = a, 0
    n = sum(k is not None for k in keys)
    if n > a.ndim:
        raise Unknown("index")
    for k in keys:
        if k is None:
            out = A((*out.shape[:axis], 1, *out.shape[axis:]), out.data)
            axis += 1
            continue
        if isinstance(k, A) and k.ndim == 0:
            k = k.data[0]
        if isinstance(k, slice):
            ids = list(range(out.shape[axis]))[k]
        elif isinstance(k, bool):
            raise Unknown("mask")
        elif isinstance(k, int):
            if not -out.shape[axis] <= k < out.shape[axis]:
                raise Unknown("index out of range")
            sh = out.shape[:axis] + out.shape[axis + 1 :]
            out = A(sh, [get(out, (*ix[:axis], k % out.shape[axis], *ix[axis:])) for ix in indices(sh)])
            continue
        elif isinstance(k, (A, list)):
            k = arr(k)
            if k.ndim != 1:
                raise Unknown("index")
            if k.data and all(isinstance(x, bool) for x in k.data):
                ids = [i for i, x in enumerate(k.data) if x]
            else:
                ids = [int(x) % out.shape[axis] for x in k.data]
        else:
            raise Unknown("index")
        sh = (*out.shape[:axis], len(ids), *out.shape[axis + 1 :])
        out = A(sh, [get(out, (*ix[:axis], ids[ix[axis]], *ix[axis + 1 :])) for ix in indices(sh)])
        axis += 1
    return scalar(out) if out.ndim == 0 else out


def put(a, key, v):
    a = arr(a)
    at = A(a.shape, list(range(len(a.data))))
    where = arr(pick(at, key))
    v = arr(v)
    vals = broadcast(lambda x, y: y, where, v)
    out = list(a.data)
    for i, x in zip(where.data, vals.data, strict=True):
        out[i] = x
    return A(a.shape, out)


def quantile(xs, q):
    xs = sorted(xs)
    h = (len(xs) - 1) * q
    lo = math.floor(h)
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (h - lo) * (xs[hi] - xs[lo])


def running(f):
    def g(xs):
        out = []
        for x in xs:
            out.append(x if not out else f(out[-1], x))
        return out

    return g


def guard(f):
    def g(*xs):
        try:
            return f(*xs)
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            raise Unknown(str(e)) from e

    return g


MATH = {
    "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "log1p": math.log1p, "expm1": math.expm1, "abs": abs, "absolute": abs,
    "fabs": abs, "square": lambda x: x * x, "cos": math.cos, "sin": math.sin, "arccos": math.acos, "sign": lambda x: (x > 0) - (x < 0),
    "negative": lambda x: -x, "reciprocal": lambda x: 1 / x, "invert": lambda x: not x, "logical_not": lambda x: not x, "isnan": lambda x: x != x,
    "isfinite": math.isfinite, "floor": math.floor, "ceil": math.ceil, "positive": lambda x: x, "tanh": math.tanh,
}  # fmt: skip
PAIRS = {
    "maximum": max, "minimum": min, "fmax": max, "fmin": min, "power": lambda x, y: x**y, "add": lambda x, y: x + y,
    "subtract": lambda x, y: x - y, "multiply": lambda x, y: x * y, "divide": lambda x, y: x / y, "true_divide": lambda x, y: x / y,
    "logical_and": lambda x, y: bool(x and y), "logical_or": lambda x, y: bool(x or y), "greater": lambda x, y: x > y, "less": lambda x, y: x < y,
}  # fmt: skip
BINARY = {
    "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "**": lambda x, y: x**y,
    "//": lambda x, y: x // y, "%": lambda x, y: x % y, "&": lambda x, y: x & y, "|": lambda x, y: x | y,
}  # fmt: skip
TESTS = {
    "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "==": lambda x, y: x == y,
    "!=": lambda x, y: x != y,
}  # fmt: skip


def total(xs):
    return sum(xs)


def average(xs):
    return sum(xs) / len(xs)


REDUCTIONS = {
    "sum": total, "nansum": total, "mean": average, "nanmean": average, "max": max, "min": min, "amax": max, "amin": min, "prod": math.prod,
    "any": any, "all": all, "median": lambda xs: quantile(xs, 0.5), "argmax": lambda xs: xs.index(max(xs)),
    "argmin": lambda xs: xs.index(min(xs)), "ptp": lambda xs: max(xs) - min(xs), "count_nonzero": lambda xs: sum(bool(x) for x in xs),
}  # fmt: skip
LINES = {
    "sort": sorted, "cumsum": running(lambda x, y: x + y), "cumprod": running(lambda x, y: x * y), "cummax": running(max),
    "flip": lambda xs: xs[::-1], "diff": lambda xs: [y - x for x, y in zip(xs, xs[1:], strict=False)],
    "argsort": lambda xs: sorted(range(len(xs)), key=lambda i: xs[i]), "cummin": running(min),
}  # fmt: skip
KEEP = {"array", "asarray", "asanyarray", "copy", "deepcopy", "to_numpy", "check_array", "ascontiguousarray", "float", "tolist", "nan_to_num"}


class Obj:
    """An object known by its attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Frame:
    """A table of columns, before anything is asked of it."""

    def __init__(self, data, kind="table", **how):
        self.data, self.kind, self.how = data, kind, how


def ranks(xs):
    order = sorted(range(len(xs)), key=lambda i: xs[i])
    out = [0.0] * len(xs)
    for r, i in enumerate(order):
        out[i] = float(r)
    return out


def kendall(x, y):
    n = len(x)
    s = sum(((x[i] > x[j]) - (x[i] < x[j])) * ((y[i] > y[j]) - (y[i] < y[j])) for i in range(n) for j in range(i))
    return s / (n * (n - 1) / 2)


def pearson(x, y):
    p, q = sum(x) / len(x), sum(y) / len(y)
    c = sum((a - p) * (b - q) for a, b in zip(x, y, strict=True))
    return c / math.sqrt(sum((a - p) ** 2 for a in x) * sum((b - q) ** 2 for b in y))


def correlations(a, method="pearson"):
    cols = [r.data for r in rows(transpose(a))]
    if method == "spearman":
        cols = [ranks(c) for c in cols]
    f = {"pearson": pearson, "spearman": pearson, "kendall": kendall}.get(method)
    if f is None:
        raise Unknown(method)
    return matrix([[f(x, y) for y in cols] for x in cols])


def chi2_ppf(q, df):
    """Quantile of the chi-squared distribution."""
    def cdf(x):
        s, k = df / 2, x / 2
        term = total = 1 / s
        n = s
        while term > 1e-17 * total:
            n += 1
            term *= k / n
            total += term
        return total * math.exp(-k + s * math.log(k) - math.lgamma(s))

    lo, hi = 1e-12, 1.0
    while cdf(hi) < q:
        hi *= 2
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if cdf(mid) < q else (lo, mid)
    return (lo + hi) / 2


EXTERNAL = {"newaxis": None, "nan": float("nan"), "NaN": float("nan"), "inf": math.inf, "pi": math.pi, "e": math.e, "float": "float", "int": "int",
            "float64": "float", "int8": "int", "int32": "int", "bool": "bool", "float32": "float", "int64": "int"}  # fmt: skip


class Interpreter:
    """``env(term)`` gives the value of a term in a 1-tuple, or None."""

    def __init__(self, env, limit=200_000):
        self.env, self.memo, self.left, self.locals = env, {}, limit, {}

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        key = (id(t), tuple(sorted(((k, id(v)) for k, v in self.locals.items()), key=repr)))
        if key not in self.memo:
            self.left -= 1
            if self.left < 0:
                raise Unknown("too much work")
            given = self.env(t)
            try:
                v = given[0] if given is not None else self.value(t)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError, KeyError, AttributeError, RecursionError) as e:
                raise Unknown(f"{t.op}: {e}") from e
            self.memo[key] = (t, v, list(self.locals.values()))
        return self.memo[key][1]

    def truth(self, t):
        v = scalar(self(t))
        if isinstance(v, A):
            raise Unknown("truth of an array")
        return bool(v)

    def value(self, t):
        o, a = t.op, t.args
        if o == "const":
            return cval(t)
        if o == "neg":
            return scalar(broadcast(lambda x: -x, self(a[0])))
        if o == "un":
            v = self(a[1])
            f = {"-": lambda x: -x, "~": lambda x: not x if isinstance(x, bool) else ~x, "+": lambda x: x, "not": lambda x: not x}[a[0]]
            return scalar(broadcast(f, v))
        if o == "not":
            return not self.truth(a[0])
        if o == "phi":
            return self(a[1] if self.truth(a[0]) else a[2])
        if o in ("and", "or"):
            v = None
            for x in a:
                v = self(x)
                w = scalar(v)
                if isinstance(w, A):
                    raise Unknown("truth of an array")
                if bool(w) != (o == "and"):
                    return v
            return v
        if o == "cmp":
            op, x, y = a
            if op in ("is", "is not"):
                x, y = self(x), self(y)
                if x is not None and y is not None:
                    raise Unknown("identity")
                return (x is y) == (op == "is")
            if op in ("in", "not in"):
                x, ys = self(x), self(y)
                if not isinstance(ys, (list, tuple)) or isinstance(x, (A, Obj, Frame)):
                    raise Unknown(op)
                return (x in ys) == (op == "in")
            if op not in TESTS:
                raise Unknown(op)
            x, y = self(x), self(y)
            if isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)) or x is None or y is None:
                return TESTS[op](x, y) if op in ("==", "!=") else self.no(op)
            return scalar(broadcast(TESTS[op], x, y))
        if o == "bin":
            op, x, y = a
            x, y = self(x), self(y)
            if op == "@":
                return scalar(matmul(x, y))
            if op not in BINARY:
                raise Unknown(op)
            if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and op == "+":
                return [*x, *y]
            return scalar(broadcast(guard(BINARY[op]), x, y))
        if o == "attr":
            return self.attribute(self(a[0]), a[1])
        if o == "ext":
            n = str(a[0]).rpartition(".")[2]
            if n in EXTERNAL:
                return EXTERNAL[n]
            raise Unknown(n)
        if o in ("list", "tuple"):
            items = seq_items(t)
            if items is None:
                raise Unknown(o)
            v = [self(x) for x in items]
            return tuple(v) if o == "tuple" else v
        if o == "sub":
            return self.item(t)
        if o == "index":
            if (o, a[0]) not in self.locals:
                raise Unknown(o)
            return self.locals[o, a[0]] + (scalar(self(a[1])) if isinstance(a[1], T) else a[1])
        if o == "slice":
            lo, hi, st = (None if x is None else scalar(self(x)) for x in a)
            return slice(lo, hi, st)
        if o == "upd":
            return put(self(a[0]), self.key(a[1]), self(a[2]))
        if o == "comp":
            return self.comprehension(t)
        if o == "loop":
            return self.loop(t)
        if o in ("elem", "prev"):
            k = (o, a[0], a[1])
            if k in self.locals:
                return self.locals[k]
            raise Unknown(o)
        if o == "cat":
            out = []
            for x in a:
                v = self(x)
                out.extend(v if isinstance(v, (list, tuple)) else [r if r.ndim else r.data[0] for r in rows(arr(v))])
            return out
        if o == "call":
            return self.call(t)
        raise Unknown(o)

    def no(self, what):
        raise Unknown(what)

    def items(self, v):
        if isinstance(v, (list, tuple, range)):
            return list(v)
        return [scalar(r) for r in rows(arr(v))]

    def comprehension(self, t):
        kind, elt, iters, conds = t.args[0], t.args[1], t.args[2], t.args[3]
        if kind not in ("list", "gen", "generator") or len(iters) != 1:
            raise Unknown("comp")
        out = []
        for bound in self.rounds(iters[0], (elt, *conds)):
            saved = dict(self.locals)
            self.locals.update(bound)
            if all(self.truth(c) for c in conds):
                out.append(self(elt))
            self.locals = saved
        return out

    def rounds(self, it, bodies):
        """What every round of an iteration binds, also where several run side by side."""
        together = [it]
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] in ("zip", "builtins.zip"):
            together += [x for x in it.args[1] if x.op != "star"]
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] in ("enumerate", "builtins.enumerate") and it.args[1]:
            together.append(it.args[1][0])
        found = [(x.args[0], x.args[1]) for y in bodies for x in self.below(y) if x.op == "elem" and any(x.args[0] is z for z in together)]
        used = {i: self.items(self(i)) for i, _ in found}
        if not used:
            used = {it: self.items(self(it))}
        for k in range(min(len(v) for v in used.values())):
            yield {**{("elem", i, g): used[i][k] for i, g in found}, **{("index", g): k for _, g in found}}

    def below(self, t):
        from .vg import walk

        return walk(t)

    def loop(self, t):
        tag, name, init, body = t.args
        its = {x.args[0] for x in self.below(body) if x.op == "elem" and x.args[1] == tag}
        prevs = {x.args[1] for x in self.below(body) if x.op == "prev" and x.args[0] == tag}
        if not its or prevs - {name} or body.op in ("list", "dict", "set"):
            raise Unknown("loop")
        v = self(init)
        saved = dict(self.locals)
        rounds = [self.items(self(i)) for i in its]
        if len({len(r) for r in rounds}) != 1:
            raise Unknown("loop")
        for k in range(len(rounds[0])):
            for i, r in zip(its, rounds, strict=True):
                self.locals["elem", i, tag] = r[k]
            self.locals["index", tag] = k
            self.locals["prev", tag, name] = v
            v = self(body)
        self.locals = saved
        return v

    def attribute(self, v, n):
        if isinstance(v, Obj):
            if not hasattr(v, n):
                raise Unknown(n)
            return getattr(v, n)
        if isinstance(v, Frame):
            if n in ("iloc", "loc"):
                return v
            if n == "values" and v.kind == "table":
                return v.data
            raise Unknown(n)
        if n == "T":
            return transpose(v)
        if n == "shape":
            return tuple(arr(v).shape)
        if n == "size":
            return size(arr(v).shape)
        if n == "ndim":
            return arr(v).ndim
        if n in ("values", "real"):
            return v
        raise Unknown(n)

    def key(self, t):
        if t.op == "tuple":
            return tuple(self.key(x) for x in seq_items(t))
        v = self(t)
        return v

    def item(self, t):
        base, key = t.args[0], t.args[1]
        v = self(base)
        k = self.key(key) if isinstance(key, T) else key
        if isinstance(v, Frame):
            return self.of_frame(v, k)
        if isinstance(v, Obj) and isinstance(k, str):
            return self.attribute(v, k)
        if isinstance(v, (list, tuple)) and isinstance(scalar(k), (int, slice)):
            return v[scalar(k)]
        return scalar(pick(v, k))

    def call(self, t):
        f, args, kw = t.args[0], t.args[1], dict(t.args[2])
        if f.op == "ext":
            name, xs = str(f.args[0]).rpartition(".")[2], list(args)
        elif f.op == "meth":
            name, xs = f.args[1], [f.args[0], *args]
        elif f.op == "attr":
            name, xs = f.args[1], [f.args[0], *args]
        else:
            raise Unknown(f.op)
        if any(k.startswith("*") for k in kw):
            raise Unknown("star")
        for k in ("a", "x", "X", "arr"):
            if not xs and k in kw:
                xs.append(kw.pop(k))
        kw = {k: self(v) for k, v in kw.items()}
        xs = [v for x in xs for v in (self.items(self(x.args[0])) if x.op == "star" else [self(x)])]
        v = self.apply(name, xs, kw)
        return scalar(v)

    def of_frame(self, v, k):
        whole = slice(None, None, None)
        if v.kind == "table":
            return Frame(pick(v.data, k))
        if v.kind == "panel":
            # (row, every column), every column
            k = k if isinstance(k, tuple) else (k,)
            first = k[0]
            if isinstance(first, tuple) and len(first) == 2 and first[1] == whole and k[1:] in ((), (whole,)):
                return Frame(v.data[scalar(first[0])])
            if isinstance(scalar(first), int) and k[1:] in ((), (whole,)):
                return Frame(v.data[scalar(first)])
        raise Unknown("table index")

    def frame(self, v, name, xs, kw):
        if name in ("to_numpy", "copy") and v.kind == "table":
            return v.data if name == "to_numpy" else v
        if name == "ewm" and v.kind == "table" and set(kw) <= {"alpha"} and "alpha" in kw:
            return Frame(v.data, "ewm", **kw)
        if v.kind == "ewm" and name in ("mean", "cov") and not xs and not kw:
            a, d = scalar(v.how["alpha"]), [r.data for r in rows(v.data)]
            out = []
            for n in range(1, len(d) + 1):
                w = [(1 - a) ** (n - 1 - i) for i in range(n)]
                s = sum(w)
                cols = [[d[i][j] for i in range(n)] for j in range(len(d[0]))]
                ms = [sum(x * y for x, y in zip(w, c, strict=True)) / s for c in cols]
                if name == "mean":
                    out.append(ms)
                    continue
                den = s * s - sum(x * x for x in w)
                k = s * s / den if den > 1e-14 else float("nan")
                out.append(matrix([[k * sum(x * (p - mp) * (q - mq) for x, p, q in zip(w, c, e, strict=True)) / s for e, mq in zip(cols, ms, strict=True)]
                                   for c, mp in zip(cols, ms, strict=True)]))  # fmt: skip
            return Frame(matrix(out)) if name == "mean" else Frame(out, "panel")
        if v.kind == "table" and name == "corr" and set(kw) <= {"method"}:
            return Frame(correlations(v.data, kw.get("method", "pearson")))
        if v.kind == "table" and name == "cov" and set(kw) <= {"ddof"}:
            return Frame(cov(v.data, kw.get("ddof", 1), False))
        if v.kind == "table" and name == "mean" and not kw:
            return Frame(reduce(average, v.data, 0))
        raise Unknown(f"table {name}")

    def apply(self, name, xs, kw):
        if xs and isinstance(xs[0], Frame):
            return self.frame(xs[0], name, xs[1:], kw)
        if name == "DataFrame" and len(xs) == 1 and not set(kw) - {"columns", "index"}:
            return Frame(arr(xs[0]))

        def only(*names):
            if set(kw) - set(names):
                raise Unknown(f"{name}({sorted(kw)})")

        if name == "clone" and len(xs) == 1:
            return xs[0]
        if name in KEEP:
            only("dtype", "copy", "order", "ensure_2d", "accept_sparse", "input_name")
            return arr(xs[0]) if name != "float" else float(scalar(xs[0]))
        if name in MATH:
            only()
            return broadcast(guard(MATH[name]), xs[0])
        if name in ("max", "min") and len(xs) > 1 and not kw and all(not isinstance(scalar(x), A) for x in xs):
            return (max if name == "max" else min)([scalar(x) for x in xs])
        if name in PAIRS:
            only()
            return broadcast(guard(PAIRS[name]), *xs)
        if name in REDUCTIONS:
            only("axis", "keepdims")
            axis = xs[1] if len(xs) > 1 else kw.get("axis")
            return reduce(guard(REDUCTIONS[name]), xs[0], axis, kw.get("keepdims", False))
        if name in ("var", "std", "nanvar", "nanstd"):
            only("axis", "ddof", "keepdims")
            v = reduce(guard(variance(kw.get("ddof", 0))), xs[0], xs[1] if len(xs) > 1 else kw.get("axis"), kw.get("keepdims", False))
            return broadcast(math.sqrt, v) if name.endswith("std") else v
        if name == "average":
            only("axis", "weights")
            if "weights" in kw:
                if kw.get("axis") not in (None, 0):
                    raise Unknown("average")
                w = arr(kw["weights"])
                return broadcast(lambda x, y: x / y, matmul(w, xs[0]), reduce(total, w))
            return reduce(average, xs[0], kw.get("axis"))
        if name in ("percentile", "quantile"):
            only("axis", "q")
            q = scalar(xs[1] if len(xs) > 1 else kw["q"])
            return reduce(lambda v: quantile(v, q / 100 if name == "percentile" else q), xs[0], kw.get("axis"))
        if name in LINES:
            only("axis")
            default = None if name in ("cumsum", "cumprod") and arr(xs[0]).ndim > 1 else -1
            axis = kw.get("axis", xs[1] if len(xs) > 1 else default)
            if axis is None:
                raise Unknown(name)
            return along(LINES[name], xs[0], axis)
        if name == "partition":
            only("kth")
            k = scalar(xs[1] if len(xs) > 1 else kw["kth"])

            def part(v):
                # only the chosen place is known: the others come in an unhelpful order
                v = sorted(v)
                i = k % len(v)
                return [*v[:i][::-1], v[i], *v[i + 1 :][::-1]]

            return along(part, xs[0], -1)
        if name == "sorted":
            only()
            return sorted(self.items(xs[0]))
        if name == "accumulate":
            only()
            return along(running(max), xs[0], 0)
        if name in ("dot", "matmul", "inner") and len(xs) == 2:
            return matmul(*xs)
        if name == "outer":
            return broadcast(lambda x, y: x * y, reshape(xs[0], (-1, 1)), reshape(xs[1], (1, -1)))
        if name == "kron":
            return kron(*xs)
        if name in ("diag", "diagonal"):
            only("k")
            return diag(xs[0], kw.get("k", 0) if len(xs) < 2 else xs[1])
        if name == "trace":
            return reduce(total, diag(xs[0]))
        if name == "solve":
            return solve(*xs[:2])
        if name in ("inv", "pinv"):
            only()
            return solve(xs[0], identity(arr(xs[0]).shape[0]))
        if name == "cholesky":
            only()
            return cholesky(xs[0])
        if name == "eigh":
            only()
            return eigh(xs[0])
        if name in ("eigvalsh", "eigvals"):
            return eigh(xs[0])[0]
        if name == "norm":
            only("axis")
            return broadcast(math.sqrt, reduce(lambda v: sum(x * x for x in v), xs[0], kw.get("axis")))
        if name == "cov":
            only("ddof", "rowvar")
            return cov(xs[0], kw.get("ddof", 1), kw.get("rowvar", True))
        if name == "corrcoef":
            only("rowvar")
            return correlations(transpose(xs[0]) if kw.get("rowvar", True) else xs[0])
        if name == "squareform":
            only()
            a = arr(xs[0])
            if a.ndim != 1:
                raise Unknown("squareform")
            n = (1 + math.isqrt(1 + 8 * a.shape[0])) // 2
            it = iter(a.data)
            m = [[0.0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1, n):
                    m[i][j] = m[j][i] = next(it)
            return matrix(m)
        if name == "pdist":
            only()
            r = [x.data for x in rows(arr(xs[0]))]
            return vector([math.dist(p, q) for i, p in enumerate(r) for q in r[i + 1 :]])
        if name in ("triu_indices", "tril_indices"):
            only("k")
            n, k = int(scalar(xs[0])), scalar(xs[1] if len(xs) > 1 else kw.get("k", 0))
            ij = [(i, j) for i in range(n) for j in range(n) if (j - i >= k if name[2] == "u" else j - i <= k)]
            return (vector([i for i, _ in ij]), vector([j for _, j in ij]))
        if name == "searchsorted":
            only("side")
            v = arr(xs[0]).data
            f = bisect.bisect_right if kw.get("side") == "right" else bisect.bisect_left
            return broadcast(lambda x: f(v, x), xs[1])
        if name == "linspace":
            only()
            lo, hi, n = scalar(xs[0]), scalar(xs[1]), int(scalar(xs[2]))
            return vector([lo + (hi - lo) * i / (n - 1) for i in range(n)])
        if name == "ppf" and "df" in kw and "q" in kw:
            return broadcast(guard(lambda q, df: chi2_ppf(q, df)), kw["q"], kw["df"])
        if name in ("ones", "zeros", "full", "empty"):
            only("dtype", "fill_value")
            sh = xs[0]
            sh = (int(scalar(sh)),) if not isinstance(sh, (tuple, list)) else tuple(int(scalar(s)) for s in sh)
            v = {"ones": 1.0, "zeros": 0.0, "empty": float("nan")}.get(name)
            v = scalar(xs[1] if len(xs) > 1 else kw["fill_value"]) if name == "full" else v
            return A(sh, [v] * size(sh))
        if name in ("ones_like", "zeros_like", "full_like"):
            a = arr(xs[0])
            return A(a.shape, [{"o": 1.0, "z": 0.0}.get(name[0], scalar(xs[-1]))] * len(a.data))
        if name in ("eye", "identity"):
            only()
            return identity(int(scalar(xs[0])))
        if name == "arange":
            only()
            return vector(list(range(*[int(scalar(x)) for x in xs])))
        if name == "range":
            return list(range(*[int(scalar(x)) for x in xs]))
        if name in ("csr_matrix", "coo_matrix", "csc_matrix"):
            only("shape")
            data, (r, c) = xs[0]
            out = A(kw["shape"], [0.0] * size(kw["shape"]))
            for x, i, j in zip(arr(data).data, arr(r).data, arr(c).data, strict=True):
                out.data[i * out.shape[1] + j] += x
            return out
        if name in ("toarray", "todense") and len(xs) == 1:
            return xs[0]
        if name == "slice":
            return slice(*[scalar(x) for x in xs])
        if name == "len":
            v = xs[0]
            return len(v) if isinstance(v, (list, tuple)) else arr(v).shape[0]
        if name == "reshape":
            only("order", "shape")
            sh = xs[1] if len(xs) == 2 else tuple(xs[1:]) or kw.get("shape")
            return reshape(xs[0], tuple(int(scalar(s)) for s in sh) if isinstance(sh, (tuple, list)) else int(scalar(sh)), kw.get("order", "C"))
        if name in ("ravel", "flatten"):
            only()
            return reshape(xs[0], -1)
        if name == "squeeze":
            a = arr(xs[0])
            return A([s for s in a.shape if s != 1], a.data)
        if name in ("transpose", "swapaxes"):
            return transpose(xs[0])
        if name in ("hstack", "vstack", "concatenate", "column_stack", "stack"):
            only("axis")
            parts = [arr(x) for x in self.items(xs[0])]
            if name == "stack" or name == "vstack" and parts[0].ndim == 1:
                if kw.get("axis", 0):
                    raise Unknown(name)
                return arr(parts)
            if name == "column_stack":
                return join([reshape(x, (-1, 1)) if x.ndim == 1 else x for x in parts], 1)
            axis = {"hstack": 1 if parts[0].ndim > 1 else 0, "vstack": 0}.get(name, kw.get("axis", xs[1] if len(xs) > 1 else 0))
            return join(parts, axis)
        if name == "where" and len(xs) == 3:
            return broadcast(lambda c, x, y: x if c else y, *xs)
        if name == "clip":
            lo, hi = (xs[1:] + [None, None])[:2]
            lo, hi = kw.get("a_min", kw.get("min", lo)), kw.get("a_max", kw.get("max", hi))
            v = xs[0]
            v = v if lo is None else broadcast(max, v, lo)
            return v if hi is None else broadcast(min, v, hi)
        if name == "astype":
            kind = xs[1]
            if kind not in ("int", "float"):
                raise Unknown("astype")
            return broadcast(int if kind == "int" else float, xs[0])
        if name == "int":
            return int(scalar(xs[0]))
        if name == "round":
            return round(scalar(xs[0]), *[int(scalar(x)) for x in xs[1:]])
        if name == "bool":
            return bool(scalar(xs[0]))
        if name in ("list", "tuple", "iter"):
            return self.items(xs[0])
        if name == "isscalar":
            return not isinstance(xs[0], (A, list, tuple))
        if name in ("zip",):
            only("strict")
            return list(zip(*[self.items(x) for x in xs], strict=False))
        if name == "enumerate":
            return list(enumerate(self.items(xs[0])))
        if name == "fill_diagonal":
            raise Unknown(name)
        raise Unknown(name)


def close(a, b, tol=1e-7):
    """Whether two values agree, None if their shapes do not let them be compared."""
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    size_ = max([abs(x) for x in (*a.data, *b.data) if x == x and abs(x) != math.inf], default=0.0)
    for x, y in zip(a.data, b.data, strict=True):
        if x != x and y != y or x == y:
            continue
        if not abs(x - y) <= tol * size_:
            return False
    return True


class Points:
    """Reproducible arbitrary inputs."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def vector(self, n, lo=-1.0, hi=1.0):
        return vector([self.r.uniform(lo, hi) for _ in range(n)])

    def matrix(self, n, m, lo=-1.0, hi=1.0):
        return A((n, m), [self.r.uniform(lo, hi) for _ in range(n * m)])

    def spd(self, n, scale=1.0):
        x = self.matrix(n, n)
        m = matmul(x, transpose(x))
        return broadcast(lambda p, q: scale * (p + q), m, broadcast(lambda v: 0.5 * v, identity(n)))


__all__ = ["A", "Interpreter", "Points", "Unknown", "arr", "broadcast", "close", "is_const", "matmul", "matrix", "scalar", "transpose", "vector"]
