"""Abstract domains over value-graph terms: formal sign, degree, summands."""

from __future__ import annotations

from .convex import is_call, meth_call
from .vg import cval, is_const, walk

#: functions that pass their first argument through (shape/dtype only)
IDENTITY = {
    "float", "int", "numpy.asarray", "numpy.array", "numpy.atleast_1d",
    "numpy.squeeze", "numpy.ravel", "cvxpy.Constant", "numpy.asanyarray",
    "sklearn.utils.validation.check_array", "sklearn.utils.check_array",
    "cvxpy.vec", "cvxpy.reshape", "cvxpy.hstack", "cvxpy.vstack", "numpy.copy",
    "copy.copy", "copy.deepcopy", "numpy.float64", "list", "tuple",
}  # fmt: skip
#: functions increasing in (all) their arguments
INCREASING = {
    "cvxpy.sum", "cvxpy.pos", "numpy.sum", "sum", "cvxpy.trace", "numpy.trace",
    "cvxpy.mean", "numpy.mean", "cvxpy.cumsum", "numpy.cumsum", "cvxpy.exp",
    "numpy.exp", "cvxpy.log", "numpy.log", "cvxpy.sqrt", "numpy.sqrt",
    "cvxpy.maximum", "cvxpy.minimum", "numpy.maximum", "numpy.minimum",
    "cvxpy.max", "cvxpy.min", "numpy.max", "numpy.min", "cvxpy.transpose",
    "numpy.diag", "cvxpy.diag", "max", "min", "round", "numpy.round", "numpy.floor",
    "numpy.ceil", "math.floor", "math.ceil",
}  # fmt: skip
DECREASING = {"cvxpy.neg", "cvxpy.inv_pos"}
#: even functions: the sign of the argument does not matter, magnitude does
EVEN = {
    "cvxpy.abs", "cvxpy.norm", "cvxpy.norm1", "cvxpy.norm2", "cvxpy.pnorm",
    "cvxpy.square", "cvxpy.sum_squares", "cvxpy.quad_form", "numpy.abs",
    "numpy.linalg.norm", "cvxpy.norm_inf", "numpy.square",
}  # fmt: skip
PRODUCT = {"cvxpy.multiply", "numpy.multiply", "cvxpy.matmul", "numpy.dot", "cvxpy.scalar_product"}

FLIP = {"+": "-", "-": "+", "m+": "m-", "m-": "m+", "?": "?"}


def _flip(s):
    return frozenset(FLIP[x] for x in s)


class Polarity:
    """Formal sign with which a target occurs in a term.

    ``+``/``-``: occurs additively with that sign (symbols of unknown sign that
    multiply it do not change it, explicit negations and negative constants do);
    ``m+``/``m-``: inside a magnitude (norm, absolute value, square) of that
    sign; ``?``: occurs in a position this domain does not model.
    """

    def __init__(self, target, stop=None):
        self.target = target  # predicate on terms
        self.stop = stop or (lambda t: False)
        self.memo = {}
        self.dep = {}

    def depends(self, t):
        k = id(t)
        if k not in self.dep:
            self.dep[k] = any(self.target(x) for x in walk(t, into_cond=False, stop=self.stop))
        return self.dep[k]

    def __call__(self, t):
        k = id(t)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        r = self._eval(t)
        self.memo[k] = r
        return r

    def _eval(self, t):
        if self.target(t):
            return frozenset("+")
        if self.stop(t) or not self.depends(t):
            return frozenset()
        o, a = t.op, t.args
        if o == "un":
            r = self(a[1])
            return _flip(r) if a[0] == "-" else r
        if o == "bin":
            op, x, y = a
            if op == "+":
                return self(x) | self(y)
            if op == "-":
                return self(x) | _flip(self(y))
            if op in ("*", "@"):
                return self._product([x, y])
            if op == "/":
                r = self(x) if sign(y) != "-" else _flip(self(x))
                return r | _flip(self(y))
            if op == "**":
                r = self(x)
                if is_const(y) and cval(y) == 2:
                    return frozenset("m+" if s in "+-" else s for s in r)
                return r
            return frozenset("?")
        if o == "phi":
            return self(a[1]) | self(a[2])
        if o in ("sub",):
            return self(a[0])
        if o == "attr":
            return self(a[0]) if a[1] in ("T", "values", "real") else (
                self(a[0]) if self.depends(a[0]) else frozenset("?"))
        if o in ("list", "tuple", "cat"):
            r = frozenset()
            for x in a:
                if hasattr(x, "op"):
                    r |= self(x)
            return r
        if o == "comp":
            return self(a[1])
        if o == "elem":
            return self(a[0])
        if o == "upd":
            return self(a[0]) | self(a[2])
        if o == "loop":
            return self(a[2]) | self(a[3])
        if o == "prev":
            return self(a[2])
        if o == "call":
            f = a[0]
            if f.op == "ext":
                q = f.args[0]
                if q in IDENTITY or q in INCREASING:
                    r = frozenset()
                    for x in a[1]:
                        r |= self(x)
                    return r
                if q in DECREASING:
                    return _flip(self(a[1][0]))
                if q in EVEN:
                    r = self(a[1][0])
                    r = frozenset("m+" if s in "+-" else s for s in r)
                    for x in a[1][1:]:
                        if self.depends(x):
                            r |= frozenset("?")
                    return r
                if q in PRODUCT:
                    return self._product(a[1])
                if q in ("numpy.ones", "numpy.zeros"):
                    return frozenset()
                return frozenset("?")
            recv, name = meth_call(t)
            if recv is not None and name in (
                "get", "reshape", "copy", "astype", "flatten", "ravel", "sum",
                "mean", "to_numpy", "transpose",
            ):  # fmt: skip
                return self(recv)
        return frozenset("?")

    def _product(self, fs):
        r = frozenset()
        for i, x in enumerate(fs):
            if not self.depends(x):
                continue
            s = self(x)
            for j, y in enumerate(fs):
                if j != i and sign(y) == "-":
                    s = _flip(s)
            r |= s
        return r


def sign(t):
    """Formal sign of a factor: '-' when explicitly negative, else '+'."""
    if is_const(t):
        v = cval(t)
        return "-" if isinstance(v, (int, float)) and v < 0 else "+"
    if t.op == "un" and t.args[0] == "-":
        return "+" if sign(t.args[1]) == "-" else "-"
    if t.op == "bin" and t.args[0] in ("*", "/", "@"):
        return "+" if sign(t.args[1]) == sign(t.args[2]) else "-"
    if is_call(t, *IDENTITY) and t.args[1]:
        return sign(t.args[1][0])
    if t.op == "sub":
        return sign(t.args[0])
    if t.op == "attr" and t.args[1] == "T":
        return sign(t.args[0])
    if t.op == "phi":
        a, b = sign(t.args[1]), sign(t.args[2])
        return a if a == b else "+"
    return "+"


def is_zero(t):
    if is_const(t):
        return cval(t) == 0 and not isinstance(cval(t), bool)
    if is_call(t, "cvxpy.Constant", *IDENTITY) and t.args[1]:
        return is_zero(t.args[1][0])
    if t.op == "bin" and t.args[0] in ("*", "@"):
        return is_zero(t.args[1]) or is_zero(t.args[2])
    if t.op == "bin" and t.args[0] in ("+", "-"):
        return is_zero(t.args[1]) and is_zero(t.args[2])
    if t.op == "un":
        return is_zero(t.args[1])
    return is_call(t, "numpy.zeros", "numpy.zeros_like")


def orient(c):
    """A constraint as a list of (kind, g) with g <= 0 or g == 0; None if unknown."""
    if c.op == "cmp":
        op, a, b = c.args
        if op == "<=" or op == "<":
            return "<=", (a, b)
        if op == ">=" or op == ">":
            return "<=", (b, a)
        if op == "==":
            return "==", (a, b)
    if c.op == "bin" and c.args[0] == ">>":
        return "psd", (c.args[1], c.args[2])
    return None, None


def constraint_polarity(c, pol):
    """Polarity of the target in g where the constraint reads g <= 0."""
    kind, ab = orient(c)
    if kind in ("<=", "=="):
        return pol(ab[0]) | _flip(pol(ab[1]))
    return None


# -- summands ---------------------------------------------------------------
def summands(t, s="+", drop=lambda t: False):
    """Additive decomposition: list of (sign, term); common factors are pushed in
    only through ``drop`` factors (conditioning constants) which are removed."""
    if t.op == "bin":
        op, a, b = t.args
        if op == "+":
            return summands(a, s, drop) + summands(b, s, drop)
        if op == "-":
            return summands(a, s, drop) + summands(b, FLIP[s], drop)
        if op == "*":
            if drop(a):
                return summands(b, s, drop)
            if drop(b):
                return summands(a, s, drop)
    if t.op == "un" and t.args[0] == "-":
        return summands(t.args[1], FLIP[s], drop)
    if t.op == "un" and t.args[0] == "+":
        return summands(t.args[1], s, drop)
    if is_zero(t):
        return []
    return [(s, t)]


def cone(c):
    """Constructor name of a cvxpy cone constraint."""
    if c.op == "call" and c.args[0].op == "ext" and c.args[0].args[0].startswith("cvxpy."):
        return c.args[0].args[0].rsplit(".", 1)[-1]
    return None


# -- degree -----------------------------------------------------------------
class Conflict(Exception):
    def __init__(self, a, b, what):
        self.a, self.b, self.what = a, b, what
        super().__init__(f"degrees {a} and {b} in {what}")


ANY = "any"
UNK = None


class Degree:
    """Degree of homogeneity of a term in the rescaled variables.

    ``base`` maps variable terms to their degree; unknown variables are solved
    from the constraints in which they occur.
    """

    def __init__(self, base, wild=lambda t: False):
        self.deg = dict(base)
        self.wild = wild

    def is_var(self, t):
        return is_call(t, "cvxpy.Variable")

    def of(self, t):
        """Degree: a number, ANY (zero, big-M), or UNK."""
        if t in self.deg:
            return self.deg[t]
        if self.wild(t):
            return ANY
        if self.is_var(t):
            return UNK
        if is_zero(t):
            return ANY
        if not any(self.is_var(x) or x in self.deg for x in walk(t, into_cond=False)):
            return 0
        o, a = t.op, t.args
        if o == "un":
            return self.of(a[1])
        if o == "bin":
            op, x, y = a
            dx, dy = self.of(x), self.of(y)
            if op in ("+", "-"):
                return self._same([dx, dy], t, [x, y])
            if dx is UNK or dy is UNK:
                return UNK
            if op in ("*", "@"):
                return ANY if ANY in (dx, dy) else dx + dy
            if op == "/":
                return ANY if dx == ANY else UNK if dy == ANY else dx - dy
            if op == "**" and is_const(y):
                return ANY if dx == ANY else dx * cval(y)
            return UNK
        if o == "phi":
            return self._same([self.of(a[1]), self.of(a[2])], t, [a[1], a[2]])
        if o == "sub" or (o == "attr" and a[1] == "T"):
            return self.of(a[0])
        if o in ("list", "tuple"):
            xs = [x for x in a if hasattr(x, "op")]
            return self._same([self.of(x) for x in xs], t, xs) if xs else 0
        if o == "call" and a[0].op == "ext":
            q = a[0].args[0]
            if q in ("cvxpy.square", "cvxpy.sum_squares"):
                d = self.of(a[1][0])
                return d if d in (UNK, ANY) else 2 * d
            if q == "cvxpy.quad_form":
                d = self.of(a[1][0])
                return d if d in (UNK, ANY) else 2 * d
            if q in PRODUCT:
                ds = [self.of(x) for x in a[1]]
                if UNK in ds:
                    return UNK
                return ANY if ANY in ds else sum(ds)
            if q in EVEN or q in IDENTITY:
                return self.of(a[1][0])
            if q in ("cvxpy.sqrt", "numpy.sqrt"):
                d = self.of(a[1][0])
                return d if d in (UNK, ANY) else d / 2
            if q in ("cvxpy.bmat",):
                return self.of(a[1][0])
            if q in ("cvxpy.quad_over_lin",):
                d, e = self.of(a[1][0]), self.of(a[1][1])
                return UNK if UNK in (d, e) else ANY if ANY in (d, e) else 2 * d - e
            if q in INCREASING and q not in ("cvxpy.exp", "numpy.exp", "cvxpy.log", "numpy.log"):
                return self._same([self.of(x) for x in a[1]], t, a[1])
            if q in DECREASING and q != "cvxpy.inv_pos":
                return self.of(a[1][0])
        return UNK

    def _same(self, ds, t, terms=None):
        ks = {d for d in ds if d not in (UNK, ANY)}
        if len(ks) > 1:
            raise Conflict(*sorted(ks)[:2], t)
        if not ks:
            return UNK if UNK in ds else ANY
        k = next(iter(ks))
        for d, x in zip(ds, terms or ()):
            if d is UNK:
                self.expect(x, k)
        return k

    def expect(self, t, d):
        """Push a required degree down to the variables it determines."""
        if t in self.deg or is_zero(t) or self.wild(t):
            return
        if self.is_var(t):
            self.deg[t] = d
            return
        o, a = t.op, t.args
        if o == "un":
            return self.expect(a[1], d)
        if o == "bin":
            op, x, y = a
            if op in ("+", "-"):
                self.expect(x, d)
                self.expect(y, d)
                return
            dx, dy = self.of(x), self.of(y)
            if op in ("*", "@"):
                if dx is UNK and dy not in (UNK, ANY):
                    self.expect(x, d - dy)
                elif dy is UNK and dx not in (UNK, ANY):
                    self.expect(y, d - dx)
            elif op == "/" and dx is UNK and dy not in (UNK, ANY):
                self.expect(x, d + dy)
            return
        if o == "phi":
            self.expect(a[1], d)
            self.expect(a[2], d)
        elif o == "sub" or (o == "attr" and a[1] == "T"):
            self.expect(a[0], d)
        elif o in ("list", "tuple"):
            for x in a:
                if hasattr(x, "op"):
                    self.expect(x, d)
        elif o == "call" and a[0].op == "ext":
            q = a[0].args[0]
            if q in ("cvxpy.square", "cvxpy.sum_squares"):
                self.expect(a[1][0], d / 2)
            elif q in PRODUCT:
                ds = [self.of(x) for x in a[1]]
                un = [i for i, k in enumerate(ds) if k is UNK]
                if len(un) == 1 and ANY not in ds:
                    self.expect(a[1][un[0]], d - sum(k for k in ds if k is not UNK))
            elif q in EVEN or q in IDENTITY or q in DECREASING:
                self.expect(a[1][0], d)
            elif q in INCREASING and not q.endswith((".exp", ".log", ".sqrt")):
                for x in a[1]:
                    self.expect(x, d)

    def constraint(self, c):
        """Degree shared by the sides of a constraint; raises Conflict."""
        kind, ab = orient(c)
        if kind in ("<=", "=="):
            xs = list(ab)
        elif cone(c) in ("SOC", "ExpCone", "PowCone3D", "PowConeND"):
            xs = [x for x in c.args[1] if hasattr(x, "op")]
            xs += [x for _, x in c.args[2] if hasattr(x, "op")]
            if cone(c).startswith("PowCone"):
                xs = [x for x in xs if any(self.is_var(y) for y in walk(x))]
        elif kind == "psd":
            return self._block(ab[0])
        else:
            return UNK
        ds = [self.of(x) for x in xs]
        return self._same(ds, c, xs)

    def _block(self, t):
        """A semidefinite block [[X, w], [w', f]]: 2 deg(w) = deg(X) + deg(f)."""
        leaves, st = [], [t]
        while st:
            x = st.pop()
            if x.op == "bin" and x.args[0] in "*@":
                st += [y for y in x.args[1:] if any(self.is_var(z) for z in walk(y)) or y in self.deg]
            elif x.op in ("list", "tuple"):
                st += [y for y in x.args if hasattr(y, "op")]
            elif is_call(x, "cvxpy.hstack", "cvxpy.vstack", "cvxpy.bmat", "cvxpy.reshape"):
                st.append(x.args[1][0])
            elif x.op == "attr" and x.args[1] == "T":
                st.append(x.args[0])
            else:
                leaves.append(x)
        ds = [self.of(x) for x in leaves]
        ks = {d for d in ds if d not in (UNK, ANY)}
        if len(ks) == 1:
            for x, d in zip(leaves, ds):
                if d is UNK:
                    self.expect(x, *ks)
        elif ks == {0, 1}:
            for x, d in zip(leaves, ds):
                if d is UNK:
                    self.expect(x, 2)
        return ANY

    def solve(self, constraints, rounds=8):
        """Propagate; returns [(constraint, degree or UNK or Conflict)]."""
        out = []
        for _ in range(rounds):
            n = len(self.deg)
            out = []
            for c in constraints:
                try:
                    out.append((c, self.constraint(c)))
                except Conflict as e:
                    out.append((c, e))
            if len(self.deg) == n:
                break
        return out


def occurrences(t, target, memo=None):
    """Additive multiplicity of ``target`` in a term (greatest over merges)."""
    memo = {} if memo is None else memo
    k = id(t)
    if k in memo:
        return memo[k]
    memo[k] = 0
    if target(t):
        r = 1
    elif t.op == "phi":
        r = max(occurrences(t.args[1], target, memo), occurrences(t.args[2], target, memo))
    else:
        r = sum(occurrences(x, target, memo) for x in operands(t))
    memo[k] = r
    return r


def operands(t):
    """Terms a term is computed from: operands and call arguments."""
    out, st = [], list(t.args[1:] if t.op == "call" else t.args)
    while st:
        x = st.pop()
        if hasattr(x, "op"):
            if x.op != "closure":
                out.append(x)
        elif isinstance(x, tuple):
            st += x
    if t.op == "call":
        recv, _ = meth_call(t)
        if recv is not None:
            out.append(recv)
    return out
