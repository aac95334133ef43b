"""How a term changes when all returns are multiplied by a number, or moved by one.

``Scale`` gives the power of the factor by which a term is multiplied when all returns
are multiplied by a positive factor.  ``Shift`` gives the multiple of the amount by which
a term moves when that amount is added to all returns.  Both know nothing (``None``)
about functions they do not know; ``ANY`` stands for zero and for tiny tolerances.
"""

from fractions import Fraction

from .vg import T, cval, is_const, seq_items

ANY = "any"
TINY = 1e-5


class Mixed(Exception):
    """Two quantities in different units are added, compared or chosen between."""

    def __init__(self, term, a, b):
        self.term, self.a, self.b = term, a, b


#: functions of the repository whose effect on units is known
OURS = {"cov_nearest", "commutation_matrix", "stationary_bootstrap", "input_to_array"}


def called(t):
    """(name without module, receiver or None) of a call to a library function or method."""
    if t.op != "call":
        return None, None
    f = t.args[0]
    if f.op == "ext":
        return str(f.args[0]).rpartition(".")[2], None
    if f.op == "meth":
        return f.args[1], f.args[0]
    if f.op == "attr":
        return f.args[1], f.args[0]
    if f.op == "fn" and str(f.args[0]).rpartition(".")[2] in OURS:
        return str(f.args[0]).rpartition(".")[2], None
    return None, None


#: the result is in the units of the (first) operand
SAME = {
    "mean", "average", "sum", "nansum", "nanmean", "median", "quantile", "percentile", "sort", "sorted", "partition", "diag",
    "diagonal", "array", "asarray", "asanyarray", "ascontiguousarray", "abs", "absolute", "fabs", "cumsum", "diff", "max", "min",
    "amax", "amin", "nanmax", "nanmin", "transpose", "reshape", "ravel", "flatten", "squeeze", "copy", "deepcopy", "std", "nanstd",
    "norm", "trace", "triu", "tril", "repeat", "tile", "flip", "roll", "to_numpy", "tolist", "item", "ewm", "rolling", "DataFrame",
    "Series", "float", "atleast_1d", "atleast_2d", "eigvals", "eigvalsh", "head", "tail", "astype", "list", "tuple", "iter", "next",
    "fillna", "dropna", "broadcast_to", "expand_dims", "take", "check_array", "nan_to_num", "cummax", "cummin", "ptp",
    "cov_nearest", "stationary_bootstrap", "input_to_array", "safe_indexing", "_safe_indexing", "pdist", "squareform", "cdist", "positive", "negative", "real", "view", "swapaxes", "delete", "compress", "choice", "reversed", "set", "unique", "accumulate",
}  # fmt: skip
#: operands must agree, and so does the result
JOINED = {"maximum", "minimum", "clip", "where", "concatenate", "stack", "vstack", "hstack", "column_stack", "block", "fmax", "fmin",
          "append", "add", "subtract"}  # fmt: skip
PRODUCTS = {"dot", "matmul", "outer", "multiply", "inner", "kron", "tensordot", "multi_dot", "vdot"}
#: no units whatever is given
PURE = {"shape", "size", "ndim", "index", "columns", "dtype"}
COUNTS = {
    "len", "argsort", "argmax", "argmin", "argwhere", "nonzero", "isnan", "isfinite", "sign", "searchsorted", "corrcoef", "corr", "rank",
    "commutation_matrix", "invert", "logical_and", "logical_or", "logical_not", "count_nonzero", "isinstance", "hasattr", "range", "arange", "eye", "ones", "ones_like", "identity", "argpartition",
    "rankdata", "spearmanr", "kendalltau", "pearsonr", "isclose", "allclose", "array_equal", "distance_correlation",
}  # fmt: skip
BLANK = {"zeros", "zeros_like", "empty", "empty_like"}
#: functions of pure numbers only
NUMBERS = {"exp", "log", "log1p", "expm1", "cos", "sin", "arccos", "arcsin", "tanh", "log2", "log10", "gamma", "ppf", "cdf"}
#: one value for each name that a documented attribute or record field has
FIRST_KEYWORDS = ("items", "cov", "a", "x", "X", "arr", "returns", "data", "input")


class Domain:
    def __init__(self, known):
        self.known = known
        self.memo = {}
        self.loops = {}
        self.busy = set()

    def of(self, t):
        key = (id(t), frozenset(self.loops.items()))
        if key not in self.memo:
            if key in self.busy:
                return None
            self.busy.add(key)
            k = self.known(t)
            v = k[0] if k is not None else self.value(t)
            self.busy.discard(key)
            self.memo[key] = (t, v)
        return self.memo[key][1]

    def same(self, t, terms):
        vs = [self.of(x) for x in terms]
        ks = {v for v in vs if v is not ANY and v is not None}
        if len(ks) > 1:
            a, b = sorted(ks)[:2]
            raise Mixed(t, a, b)
        if None in vs:
            return None
        return next(iter(ks)) if ks else ANY

    def value(self, t):
        o, a = t.op, t.args
        if o == "const":
            return self.constant(cval(t))
        if o in ("enum", "fstr", "cls", "fn", "slice", "gen", "not"):
            return self.zero
        if o == "cmp":
            return self.compared(t)
        if o == "neg":
            return self.negate(self.of(a[0]))
        if o == "un":
            return self.negate(self.of(a[1])) if a[0] == "-" else self.zero
        if o == "phi":
            x, y = self.of(a[1]), self.of(a[2])
            return y if x is ANY else x if y is ANY or x == y else None
        if o in ("and", "or"):
            return self.zero if all(self.of(x) == self.zero for x in a) else None
        if o == "attr":
            if a[1] in PURE:
                return self.zero
            if a[1] in ("T", "values", "iloc", "loc", "flat", "real"):
                return self.of(a[0])
            return None
        if o in ("sub", "elem", "index"):
            return self.part(t)
        if o == "star":
            return self.of(a[0])
        if o in ("list", "tuple", "set", "cat"):
            items = [x for x in a if isinstance(x, T)] if o == "cat" else seq_items(t)
            return None if items is None else self.same(t, items) if items else ANY
        if o == "comp":
            return self.of(a[1]) if isinstance(a[1], T) else None
        if o == "upd":
            return self.same(t, (a[0], a[2]))
        if o == "loop":
            return self.loop(t)
        if o == "prev":
            return self.loops.get((a[0], a[1]))
        if o == "bin":
            return self.binary(t)
        if o == "call":
            return self.call(t)
        return None

    def loop(self, t):
        tag, name, init, body = t.args
        if not isinstance(init, T) or not isinstance(body, T):
            return None
        key = (tag, name)
        before = self.loops.get(key)
        v = self.of(init)
        for _ in range(2):
            if v is None:
                break
            self.loops[key] = v
            w = self.of(body)
            if w is None:
                v = None
            elif v is ANY:
                v = w
            elif w is not ANY and w != v:
                v = None
            else:
                break
        if before is None:
            self.loops.pop(key, None)
        else:
            self.loops[key] = before
        return v

    def operand(self, t):
        name, recv = called(t)
        if recv is not None:
            return recv
        if t.args[1]:
            return t.args[1][0]
        return next((v for k, v in t.args[2] if k in FIRST_KEYWORDS), None)

    def operands(self, t):
        name, recv = called(t)
        out = [] if recv is None else [recv]
        for x in t.args[1]:
            out.append(x)
        return out


class Scale(Domain):
    zero = Fraction(0)

    def constant(self, v):
        if v is None:
            return None
        if isinstance(v, (int, float)) and not isinstance(v, bool) and (v != v or abs(v) <= TINY or abs(v) == float("inf")):
            return ANY
        return self.zero

    def negate(self, v):
        return v

    def part(self, t):
        base = t.args[0]
        name, _ = called(base)
        if t.op == "sub" and is_const(t.args[1]):
            if name in ("eigh", "eig"):
                d = self.of(base.args[1][0])
                return d if cval(t.args[1]) == 0 else self.zero if d is not None else None
            if name == "svd" and isinstance(cval(t.args[1]), int):
                d = self.of(base.args[1][0])
                return d if cval(t.args[1]) == 1 else self.zero if d is not None else None
        return self.of(base)

    def binary(self, t):
        op, x, y = t.args
        if op in ("+", "-"):
            return self.same(t, (x, y))
        a, b = self.of(x), self.of(y)
        if op in ("*", "@"):
            if ANY in (a, b):
                return ANY
            return None if None in (a, b) else a + b
        if op == "/":
            if a is ANY:
                return ANY
            return None if None in (a, b) or b is ANY else a - b
        if op == "**":
            return self.power(a, y)
        if op in ("//", "%", "&", "|", "^"):
            return self.zero if a == b == self.zero else None
        return None

    def power(self, a, y):
        if a is ANY or a is None or a == self.zero:
            return a
        if not is_const(y) or not isinstance(cval(y), (int, float)):
            return None
        return a * Fraction(cval(y)).limit_denominator(1000)

    def call(self, t):
        name, recv = called(t)
        if name is None:
            return None
        if name in COUNTS:
            return self.zero
        if name in BLANK:
            return ANY
        if name == "full":
            return self.of(t.args[1][1]) if len(t.args[1]) > 1 else None
        first = self.operand(t)
        if name in JOINED:
            xs = self.operands(t)
            if name == "where":
                xs = xs[1:]
            flat = []
            for x in xs:
                flat.extend(seq_items(x) or [x] if x.op in ("list", "tuple") else [x])
            return self.same(t, flat) if flat else None
        if name in PRODUCTS:
            vs = [self.of(x) for x in self.operands(t)]
            return ANY if ANY in vs else None if None in vs or len(vs) < 2 else sum(vs)
        if name == "einsum":
            vs = [self.of(x) for x in self.operands(t)[1:]]
            return ANY if ANY in vs else None if None in vs else sum(vs)
        if name in NUMBERS:
            vs = [self.of(x) for x in self.operands(t) if x.op not in ("ext", "attr")] + [self.of(v) for _, v in t.args[2]]
            return self.zero if all(v == self.zero or v is ANY for v in vs) else None
        if first is None:
            return None
        d = self.of(first)
        if name in SAME:
            return d
        if name in ("sqrt",):
            return d if d in (ANY, None) else d / 2
        if name in ("square", "var", "nanvar", "cov"):
            return d if d in (ANY, None) else 2 * d
        if name in ("power", "pow") and len(t.args[1]) + (recv is not None) > 1:
            return self.power(d, t.args[1][-1])
        if name in ("inv", "pinv", "reciprocal"):
            return d if d in (ANY, None) else -d
        if name == "cholesky":
            return d if d in (ANY, None) else d / 2
        if name == "sqrtm":
            return d if d in (ANY, None) else d / 2
        if name == "solve" and len(t.args[1]) > 1:
            e = self.of(t.args[1][1])
            return None if None in (d, e) or d is ANY else ANY if e is ANY else e - d
        if name in ("divide", "true_divide") and len(t.args[1]) > 1:
            e = self.of(t.args[1][1])
            return None if None in (d, e) or e is ANY else ANY if d is ANY else d - e
        return None

    def compared(self, t):
        """Both sides of a comparison must be in the same units."""
        if t.args[0] in ("is", "is not", "in", "not in"):
            return self.zero
        self.same(t, (t.args[1], t.args[2]))
        return None if None in (self.of(t.args[1]), self.of(t.args[2])) else self.zero


#: averages and order statistics move along with their data
CARRIED = {
    "mean", "average", "nanmean", "median", "quantile", "percentile", "sort", "sorted", "partition", "array", "asarray", "max", "min",
    "amax", "amin", "nanmax", "nanmin", "transpose", "reshape", "ravel", "flatten", "squeeze", "copy", "deepcopy", "to_numpy",
    "ewm", "DataFrame", "Series", "float", "atleast_1d", "atleast_2d", "head", "tail", "astype", "iter", "next", "take",
    "check_array", "flip", "roll", "rolling", "list", "tuple", "tolist", "item", "repeat", "tile", "expand_dims", "cummax", "cummin",
}  # fmt: skip
#: spreads do not move
STILL = {"std", "var", "nanstd", "nanvar", "cov", "corrcoef", "corr", "diff", "ptp", "argsort", "argmax", "argmin", "rankdata"}


class Shift(Domain):
    zero = Fraction(0)

    def constant(self, v):
        return None if v is None else self.zero

    def compared(self, t):
        a, b = self.of(t.args[1]), self.of(t.args[2])
        return self.zero if a is not None and a == b else None

    def negate(self, v):
        return v if v in (None, ANY) else -v

    def part(self, t):
        return self.of(t.args[0])

    def binary(self, t):
        op, x, y = t.args
        a, b = self.of(x), self.of(y)
        if a is None or b is None:
            return None
        a, b = (self.zero if v is ANY else v for v in (a, b))
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if a == b == 0:
            return self.zero
        if op == "*":
            for u, v, n in ((a, b, y), (b, a, x)):
                if v == 0 and is_const(n) and isinstance(cval(n), (int, float)):
                    return u * Fraction(cval(n)).limit_denominator(10**6)
        if op == "/" and b == 0 and is_const(y) and isinstance(cval(y), (int, float)) and cval(y):
            return a / Fraction(cval(y)).limit_denominator(10**6)
        return None

    def call(self, t):
        name, _ = called(t)
        args = self.operands(t) + [v for _, v in t.args[2]]
        vs = []
        for x in args:
            for y in (seq_items(x) or [x]) if x.op in ("list", "tuple") else [x]:
                vs.append(self.of(y))
        if name in ("len", "range", "arange", "zeros", "ones", "eye", "identity", "full", "shape", "zeros_like", "ones_like"):
            return self.zero
        if name is None:
            return None
        if name in STILL and args and vs[0] is not None:
            return self.zero
        if None in vs:
            return None
        if all(v in (ANY, 0) for v in vs):
            return self.zero
        first = self.operand(t)
        rest = [v for x, v in zip(args, vs, strict=False) if x is not first]
        if first is None or any(v not in (ANY, 0) for v in rest):
            if name in ("maximum", "minimum", "clip", "where", "concatenate", "stack", "vstack", "hstack"):
                ks = set(vs if name != "where" else vs[1:]) - {ANY}
                if name == "where" and vs[0] not in (ANY, 0):
                    return None
                return next(iter(ks)) if len(ks) == 1 else None
            return None
        if name in CARRIED:
            return self.of(first)
        if name in STILL:
            return self.zero
        return None

    def same(self, t, terms):
        vs = [self.of(x) for x in terms]
        ks = {v for v in vs if v is not ANY}
        return next(iter(ks)) if len(ks) == 1 else None if ks else ANY
