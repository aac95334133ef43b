"""What an extracted optimisation problem says about given weights.

With data, options and weights fixed at arbitrary values, the constraints and the objective
taken from the source are linear (or simple convex) in the auxiliary variables that remain, and
small enough to be minimised exactly.  Weights are accepted when the rest can be chosen, and
their risk is the least value the choice gives.
"""

import itertools
import math

from .matrix import A, Interpreter, Unknown, arr, broadcast, close, matmul, reduce, reshape, scalar, size, transpose

EPS = 1e-8


class Aff:
    """A number plus multiples of variables."""

    __slots__ = ("c", "k")

    def __init__(self, k=0.0, c=None):
        self.k, self.c = k, c or {}

    def __add__(self, o):
        if isinstance(o, (int, float)):
            return Aff(self.k + o, self.c)
        if not isinstance(o, Aff):
            return NotImplemented
        c = dict(self.c)
        for v, x in o.c.items():
            c[v] = c.get(v, 0.0) + x
        return Aff(self.k + o.k, c)

    __radd__ = __add__

    def __neg__(self):
        return Aff(-self.k, {v: -x for v, x in self.c.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Aff):
            if not o.c:
                o = o.k
            elif not self.c:
                return o * self.k
            else:
                raise Unknown("product of variables")
        if not isinstance(o, (int, float)):
            return NotImplemented
        return Aff(self.k * o, {v: x * o for v, x in self.c.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / o) if isinstance(o, (int, float)) else NotImplemented

    def at(self, z):
        return self.k + sum(x * z.get(v, 0.0) for v, x in self.c.items())


class Convex:
    """A function that grows with every one of some quantities that are not negative."""

    def __init__(self, parts, f):
        self.parts, self.f = parts, f

    def __mul__(self, o):
        if not isinstance(o, (int, float)) or o < 0:
            raise Unknown("product")
        return Convex(self.parts, lambda v: o * self.f(v))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / o)

    def __add__(self, o):
        if isinstance(o, (int, float)):
            return Convex(self.parts, lambda v: self.f(v) + o)
        if isinstance(o, Aff) and not o.c:
            return self + o.k
        if isinstance(o, Convex):
            n = len(self.parts)
            return Convex([*self.parts, *o.parts], lambda v: self.f(v[:n]) + o.f(v[n:]))
        raise Unknown("sum")

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o) if isinstance(o, (int, float, Aff)) else NotImplemented

    def __rsub__(self, o):
        raise Unknown("difference")

    def __neg__(self):
        raise Unknown("negation")


def simplex(c, ub, eq, nonneg):
    """Least value of ``c`` over ``a <= 0`` and ``a == 0``; (value, point), None if empty."""
    names = sorted({v for a in [c, *ub, *eq] for v in a.c}, key=repr)
    cols = []
    for v in names:
        cols.append((v, 1.0))
        if v not in nonneg:
            cols.append((v, -1.0))
    m, slack = [], len(ub)
    n = len(cols) + slack
    for i, a in enumerate([*ub, *eq]):
        row = [s * a.c.get(v, 0.0) for v, s in cols] + [0.0] * slack + [-a.k]
        if i < slack:
            row[len(cols) + i] = 1.0
        if row[-1] < 0:
            row = [-x for x in row]
        m.append(row)
    # phase one: artificial variables
    k = len(m)
    for i, row in enumerate(m):
        row[n:n] = [1.0 if j == i else 0.0 for j in range(k)]
    basis = [n + i for i in range(k)]
    cost = [0.0] * n + [1.0] * k
    v = pivot(m, basis, cost, n + k)
    if v is None or v > 1e-7:
        return None
    for i, b in enumerate(basis):
        if b >= n:
            j = next((j for j in range(n) if abs(m[i][j]) > 1e-7), None)
            if j is not None:
                step(m, basis, i, j)
    keep = [i for i, b in enumerate(basis) if b < n]
    m = [m[i][:n] + [m[i][-1]] for i in keep]
    basis = [basis[i] for i in keep]
    cost = [s * c.c.get(v, 0.0) for v, s in cols] + [0.0] * slack
    v = pivot(m, basis, cost, n)
    if v is None:
        return -math.inf, {}
    z = dict.fromkeys(names, 0.0)
    for i, b in enumerate(basis):
        if b < len(cols):
            z[cols[b][0]] += cols[b][1] * m[i][-1]
    return v + c.k, z


def step(m, basis, i, j):
    p = m[i][j]
    m[i] = [x / p for x in m[i]]
    for r in range(len(m)):
        f = m[r][j]
        if r != i and f:
            m[r] = [x - f * y for x, y in zip(m[r], m[i], strict=True)]
    basis[i] = j


def pivot(m, basis, cost, n):
    for _ in range(5000):
        price = [cost[b] for b in basis]
        j = None
        for q in range(n):
            if q in basis:
                continue
            if cost[q] - sum(p * m[i][q] for i, p in enumerate(price) if p) < -1e-9:
                j = q
                break
        if j is None:
            return sum(p * m[i][-1] for i, p in enumerate(price))
        best, at = None, None
        for i in range(len(m)):
            if m[i][j] > 1e-9:
                t = (m[i][-1] / m[i][j], basis[i])
                if best is None or t[0] < best[0] - 1e-12 or abs(t[0] - best[0]) <= 1e-12 and t[1] < best[1]:
                    best, at = t, i
        if at is None:
            return None
        step(m, basis, at, j)
    raise Unknown("no end")


def least(objective, rels, nonneg, boolean):
    """The least value over the variables, None if there is no choice for them."""
    if len(boolean) > 10:
        raise Unknown("too many yes-or-no choices")
    best = None
    for bits in itertools.product((0.0, 1.0), repeat=len(boolean)):
        fixed = dict(zip(boolean, bits, strict=True))
        v = choose(objective, rels, nonneg, fixed)
        if v is not None and (best is None or v < best):
            best = v
    return best


def settle(x, fixed):
    if isinstance(x, Aff) and fixed:
        k = x.k + sum(c * fixed[v] for v, c in x.c.items() if v in fixed)
        return Aff(k, {v: c for v, c in x.c.items() if v not in fixed})
    if isinstance(x, Convex) and fixed:
        return Convex([settle(p, fixed) for p in x.parts], x.f)
    return x


def choose(objective, rels, nonneg, fixed):
    ub, eq, curved = [], [], []
    for op, x in rels:
        x = settle(x, fixed)
        if isinstance(x, (int, float)):
            x = Aff(x)
        if isinstance(x, Convex):
            if op != "<=":
                raise Unknown("equality of a curve")
            curved.append(x)
        elif not any(abs(c) > 1e-12 for c in x.c.values()):
            if x.k > EPS or op == "==" and x.k < -EPS:
                return None
        else:
            (ub if op == "<=" else eq).append(x)
    objective = settle(objective, fixed)
    if isinstance(objective, (int, float)):
        objective = Aff(objective)
    if not curved and isinstance(objective, Aff):
        r = simplex(objective, ub, eq, nonneg)
        return None if r is None else r[0]
    parts = [p if isinstance(p, Aff) else Aff(p) for x in [*curved, *([objective] if isinstance(objective, Convex) else [])] for p in x.parts]
    if isinstance(objective, Aff) and objective.c:
        raise Unknown("a curve and a line")
    total = sum(parts, Aff(0.0))
    r = simplex(total, ub, eq, nonneg)
    if r is None:
        return None
    z = r[1]
    for p in parts:
        one = simplex(p, ub, eq, nonneg)
        if one is None or abs(one[0] - p.at(z)) > 1e-7 or one[0] < -1e-7:
            raise Unknown("no common least point")
    if any(x.f([max(0.0, settle(p, {}).at(z) if isinstance(p, Aff) else p) for p in x.parts]) > EPS for x in curved):
        return None
    if isinstance(objective, Convex):
        return objective.f([max(0.0, p.at(z) if isinstance(p, Aff) else p) for p in objective.parts])
    return objective.k


class Unsatisfied(Exception):
    """A constraint does not hold whatever the variables are."""


class Reader(Interpreter):
    """Evaluates cvxpy expressions; ``bound`` gives the value of parameters."""

    def __init__(self, env, bound):
        super().__init__(env, limit=400_000)
        self.open = set()
        self.bound, self.nonneg, self.boolean = bound, set(), []
        self.variables = {}

    # constraints
    def relations(self, t):
        if t.op == "phi":
            return self.relations(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op == "cmp" and t.args[0] in ("<=", ">=", "=="):
            x, y = self(t.args[1]), self(t.args[2])
            if t.args[0] == ">=":
                x, y = y, x
            d = broadcast(lambda p, q: p - q, x, y)
            return [("==" if t.args[0] == "==" else "<=", v) for v in d.data]
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith(".SOC"):
            bound, x = self(t.args[1][0]), self.norm(self(t.args[1][1]), 2)
            return [("<=", x - scalar(bound))]
        raise Unknown("constraint")

    def value(self, t):
        if t.op == "bound":
            return t
        return super().value(t)

    def variable(self, t):
        if t not in self.variables:
            kw = {k: self(v) for k, v in t.args[2]}
            if set(kw) - {"nonneg", "boolean", "shape", "name"}:
                raise Unknown("variable")
            sh = self(t.args[1][0]) if t.args[1] else kw.get("shape", ())
            sh = tuple(int(scalar(s)) for s in sh) if isinstance(sh, (tuple, list)) else (int(scalar(sh)),)
            i = len(self.variables)
            names = [(i, j) for j in range(size(sh))]
            if kw.get("nonneg"):
                self.nonneg |= set(names)
            if kw.get("boolean"):
                self.boolean += names
            self.variables[t] = A(sh, [Aff(0.0, {n: 1.0}) for n in names])
        return scalar(self.variables[t])

    def call(self, t):
        f = t.args[0]
        if f.op == "ext" and f.args[0].startswith("cvxpy"):
            n = f.args[0].rpartition(".")[2]
            if n == "Variable":
                return self.variable(t)
            if n == "Parameter":
                return self.parameter(t)
            xs, kw = [self(x) for x in t.args[1]], {k: self(v) for k, v in t.args[2]}
            return scalar(self.convex(n, xs, kw))
        if f.op == "ext" and f.args[0] in ("isinstance", "builtins.isinstance"):
            return self.kind(t)
        if f.op in ("meth", "attr") and f.args[1] == "is_affine":
            v = self(f.args[0])
            return not any(isinstance(x, Convex) for x in arr_of(v).data)
        return super().call(t)

    def parameter(self, t):
        """The one value given to a parameter, or to it first among a series of problems."""
        found = []
        if t in self.open:
            raise Unknown("parameter")
        for v in self.bound.get(t, ()):
            self.open.add(t)
            try:
                x = self(v)
            except Unknown:
                continue
            finally:
                self.open.discard(t)
            if isinstance(x, (list, tuple)):
                if len(x) != 1:
                    continue
                x = x[0]
            found.append(x)
        if not found or any(not close(found[0], x, 1e-9) for x in found[1:]):
            raise Unknown("parameter")
        return found[0]

    def kind(self, t):
        x, c = t.args[1]
        n = str(c.args[0]).rpartition(".")[2] if c.op in ("ext", "cls") else ""
        if n == "Variable":
            return x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "cvxpy.Variable"
        if n in ("Number", "float", "int"):
            return isinstance(scalar(self(x)), (int, float))
        if n == "DataFrame":
            return False
        raise Unknown("isinstance")

    def norm(self, x, p):
        x = arr_of(x)
        if all(isinstance(v, (int, float)) for v in x.data):
            if p == 1:
                return sum(abs(v) for v in x.data)
            if p in (2, "fro", "Fro", None):
                return math.sqrt(sum(v * v for v in x.data))
            raise Unknown("norm")
        if p not in (2, "fro", None):
            raise Unknown("norm")
        return Convex(list(x.data), lambda v: math.sqrt(sum(y * y for y in v)))

    def convex(self, n, xs, kw):
        if n == "Constant":
            return xs[0]
        x = arr_of(xs[0]) if xs and not isinstance(xs[0], (list, tuple)) else None
        number = x is not None and all(isinstance(v, (int, float)) for v in x.data)
        if n == "sum":
            axis = kw.get("axis", xs[1] if len(xs) > 1 else None)
            return reduce(lambda v: sum(v), x, axis)
        if n in ("norm", "pnorm", "norm2", "norm1"):
            p = xs[1] if len(xs) > 1 else kw.get("p", {"norm1": 1}.get(n, 2))
            return self.norm(x, p)
        if n == "sum_squares":
            if number:
                return sum(v * v for v in x.data)
            return Convex(list(x.data), lambda v: sum(y * y for y in v))
        if n == "square":
            if number:
                return broadcast(lambda v: v * v, x)
            if x.ndim:
                raise Unknown(n)
            return Convex(list(x.data), lambda v: v[0] ** 2)
        if n in ("multiply",):
            return broadcast(lambda p, q: p * q, xs[0], xs[1])
        if n == "reshape":
            sh = xs[1]
            return reshape(x, tuple(int(scalar(s)) for s in sh) if isinstance(sh, (tuple, list)) else int(scalar(sh)), kw.get("order", "F"))
        if n == "vec":
            return reshape(x, -1, kw.get("order", "F"))
        if n == "trace":
            return reduce(lambda v: sum(v), A((x.shape[0],), [x.data[i * x.shape[1] + i] for i in range(x.shape[0])]))
        if n == "transpose":
            return transpose(x)
        if number and n in ("abs", "pos", "neg", "sqrt", "log", "exp", "max", "min"):
            f = {"abs": abs, "pos": lambda v: max(v, 0.0), "neg": lambda v: max(-v, 0.0), "sqrt": math.sqrt, "log": math.log, "exp": math.exp}.get(n)
            if f is None:
                return max(x.data) if n == "max" else min(x.data)
            return broadcast(f, x)
        if n == "quad_form" and number:
            return matmul(matmul(x, xs[1]), x)
        raise Unknown(f"cvxpy {n}")


def arr_of(v):
    if isinstance(v, (Aff, Convex)):
        return A((), [v])
    return arr(v)


__all__ = ["Aff", "Convex", "Reader", "least"]
