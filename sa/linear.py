"""Solver expressions as linear combinations of their atoms, with exact coefficients."""

from fractions import Fraction

from . import algebra as A
from .convex import is_call, is_variable
from .vg import cval, is_const, mk

ROOT = ("numpy.sqrt", "math.sqrt", "cvxpy.sqrt")
SAME = ("float", "int", "numpy.float64", "cvxpy.Constant", "numpy.asarray", "numpy.array")
RESHAPE = ("cvxpy.reshape", "cvxpy.vec")
HALF = A.rnum(Fraction(1, 2))


class Unknown(Exception):
    """The expression is not understood."""


class Reader:
    """``unit(term)``: terms that count as 1; ``names(term)``: symbols of numbers."""

    def __init__(self, unit=lambda t: False, names=lambda t: None):
        self.unit, self.names = unit, names

    # -- numbers ---------------------------------------------------------------

    def scalar(self, t):
        if self.unit(t):
            return A.num(1)
        n = self.names(t)
        if n is not None:
            return A.sym(n)
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float("inf"):
                return A.num(Fraction(str(v)))
            raise Unknown
        if t.op == "neg" or t.op == "un" and t.args[0] == "-":
            return A.neg(self.scalar(t.args[-1]))
        if t.op == "attr" and t.args[0].op == "self":
            return A.sym(t.args[1])
        if t.op == "given":
            return A.sym(str(t.args[0]))
        try:
            if t.op == "bin":
                op, x, y = t.args[0], self.scalar(t.args[1]), self.scalar(t.args[2])
                if op in "+-":
                    return A.add(x, y) if op == "+" else A.sub(x, y)
                if op in "*/":
                    return A.mul(x, y) if op == "*" else A.div(x, y)
                if op == "**" and A.is_num(y):
                    return A.power(x, A.rnum(y[0]))
                raise Unknown
            if is_call(t, *ROOT):
                return A.power(self.scalar(t.args[1][0]), HALF)
            if is_call(t, "numpy.log", "math.log") and len(t.args[1]) == 1:
                return A.log(self.scalar(t.args[1][0]))
            if is_call(t, *SAME) and t.args[1]:
                return self.scalar(t.args[1][0])
            if is_call(t, "numpy.ones"):
                return A.num(1)
        except A.Unsupported:
            raise Unknown from None
        raise Unknown

    def number(self, t):
        try:
            return self.scalar(t)
        except Unknown:
            return None

    # -- combinations ------------------------------------------------------------

    def combo(self, t):
        """{atom: coefficient}; the number under None."""
        n = self.number(t)
        if n is not None:
            return {None: n} if n[0] else {}
        if t.op == "neg" or t.op == "un" and t.args[0] == "-":
            return scaled(self.combo(t.args[-1]), A.num(-1))
        if t.op == "bin":
            op, x, y = t.args[:3]
            if op in ("+", "-"):
                return plus(self.combo(x), scaled(self.combo(y), A.num(1 if op == "+" else -1)))
            if op == "*":
                for a, b in ((x, y), (y, x)):
                    n = self.number(a)
                    if n is not None:
                        return scaled(self.combo(b), n)
                raise Unknown
            if op == "/":
                n = self.number(y)
                if n is None:
                    raise Unknown
                return scaled(self.combo(x), A.div(A.num(1), n))
            if op == "@":
                return self.product(x, y)
            raise Unknown
        if t.op == "call":
            args = list(t.args[1])
            if is_call(t, "cvxpy.sum", "cvxpy.mean"):
                inner = self.combo(args[0])
                if None in inner:
                    raise Unknown
                r = {("sum", k): v for k, v in inner.items()}
                return scaled(r, A.div(A.num(1), A.sym("n"))) if is_call(t, "cvxpy.mean") else r
            if is_call(t, "cvxpy.norm", "cvxpy.pnorm", "cvxpy.norm2"):
                p = args[1] if len(args) > 1 else None
                if p is not None and not (is_const(p) and cval(p) == 2):
                    raise Unknown
                return self.homogeneous("norm", args[0], 1)
            if is_call(t, "cvxpy.sum_squares"):
                return self.homogeneous("squares", args[0], 2)
            if is_call(t, "cvxpy.square"):
                return self.homogeneous("square", args[0], 2)
            if is_call(t, "cvxpy.power") and len(args) == 2 and is_const(args[1]) and cval(args[1]) == 2:
                return self.homogeneous("square", args[0], 2)
            if is_call(t, "cvxpy.max") and len(args) == 1:
                return self.homogeneous("max", args[0], 1)
            if is_call(t, *RESHAPE, *SAME) and args:
                return self.combo(args[0])
            if is_variable(t):
                return {t: A.num(1)}
        if t.op == "sub" and is_variable(t.args[0]):
            return {t: A.num(1)}
        raise Unknown

    def homogeneous(self, kind, t, degree):
        inner = self.combo(t)
        if len(inner) != 1 or None in inner:
            raise Unknown
        ((k, v),) = inner.items()
        if not A.is_num(v) or v[0] <= 0:
            raise Unknown
        return {(kind, k): A.power(v, A.rnum(degree))}

    def product(self, x, y):
        """A matrix of observations applied to a variable."""
        if is_variable(x) and not is_variable(y):
            x, y = y, x
        if not is_variable(y):
            raise Unknown
        return {("@", k, y): v for k, v in self.matrix(x).items()}

    def matrix(self, t):
        if t.op == "neg" or t.op == "un" and t.args[0] == "-":
            return scaled(self.matrix(t.args[-1]), A.num(-1))
        if t.op == "bin" and t.args[0] in ("+", "-"):
            b = self.matrix(t.args[2])
            return plus(self.matrix(t.args[1]), scaled(b, A.num(1 if t.args[0] == "+" else -1)))
        if t.op == "bin" and t.args[0] in ("*", "/"):
            n = self.number(t.args[2])
            if n is not None:
                return scaled(self.matrix(t.args[1]), n if t.args[0] == "*" else A.div(A.num(1), n))
            n = self.number(t.args[1])
            if n is not None and t.args[0] == "*":
                return scaled(self.matrix(t.args[2]), n)
            raise Unknown
        return {t: A.num(1)}


def plus(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = A.add(out[k], v) if k in out else v
    return {k: v for k, v in out.items() if v[0]}


def scaled(a, n):
    return {k: A.mul(v, n) for k, v in a.items() if n[0]}


def difference(a, b):
    return mk("bin", "-", a, b)


def boxes(names):
    """Small boxes of inputs on which two formulas may be told apart."""
    out = []
    for n, b in ((7, 0.9), (3, 0.7)):
        box = {}
        for k in names:
            v = float(n) if k == "n" else b
            box[k] = (v, v)
        out.append(box)
    return out


def same(a, b):
    return A.equal(a, b, boxes(A.symbols(a) | A.symbols(b)))
