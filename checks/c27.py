"""C27: all functions of a fitted distribution describe the same distribution."""

import ast
from fractions import Fraction

from sa import algebra as A
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.vg import FALSE, TRUE, Evaluator, T, cval, is_const, mk, seq_items, show, walk

ARRAYS = {"asarray", "array", "asanyarray", "ascontiguousarray", "copy", "float", "float64", "atleast_1d", "squeeze"}
POSITIVE = ("theta_", "dof_")
# what Kendall's tau is for the families with a closed form
TAU = {
    "ClaytonCopula": lambda t: A.div(t, A.add(t, A.num(2))),
    "GumbelCopula": lambda t: A.sub(A.ONE, A.div(A.ONE, t)),
}
# the parameters of the models, in the order in which a fit returns them
MODELS = {
    "scipy.stats.norm": ("loc", "scale"),
    "scipy.stats.t": ("df", "loc", "scale"),
    "scipy.stats.johnsonsu": ("a", "b", "loc", "scale"),
    "scipy.stats.norminvgauss": ("a", "b", "loc", "scale"),
}


def check(P, rep):
    rep.rule("derivative", "the conditional distribution is the derivative of the distribution function", need=4)
    rep.rule("density", "the density is the derivative of the conditional distribution", need=4)
    rep.rule("inverse", "the inverse undoes the conditional distribution", need=4)
    rep.rule("tail", "the tail coefficients are those of the distribution function", need=2)
    rep.rule("support", "the distribution function has uniform margins", need=2)
    rep.rule("sample", "samples draw one margin and the other one given it", need=0)
    rep.rule("objective", "the fit minimises minus the log-likelihood that scoring reports", need=1)
    rep.rule("best", "the parameters kept are those of the best candidate", need=1)
    rep.rule("every-rotation", "every rotation is a candidate", need=0)
    rep.rule("tau", "the parameter has the Kendall's tau it was derived from", need=0)
    rep.rule("parameters", "every function of a univariate distribution has the same model and parameters", need=4)
    rep.rule("fitted", "every fitted value is used as the parameter it is", need=2)
    base = P.cls("BaseBivariateCopula")
    fams = [c for c in P.classes.values() if base in c.repo_mro() and not c.is_abstract()]
    if len(fams) < 5:
        raise AnalysisBroken(f"only {len(fams)} copula families found")
    rot = P.cls("CopulaRotation")
    for c in sorted(fams, key=lambda c: c.name):
        Family(P, rep, c, rot).all()
    sampling(P, rep, base)
    univariate(P, rep)


class Cols(tuple):
    """The columns of a table, each a value."""


class Rows(tuple):
    """A transposed table."""


class Stop(Exception):
    """A construct outside the algebra."""


class Reader:
    """Values of terms, as functions of the columns of the data."""

    def __init__(self, data, attrs=None, given=None):
        self.data = data  # term -> Cols or value
        self.attrs = attrs or {}
        self.memo = {}
        self.given = given or {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.read(t)
        return self.memo[t]

    def scalar(self, t):
        v = self(t)
        if isinstance(v, (Cols, Rows)):
            raise Stop("a table where a column is expected")
        return v

    def each(self, f, *vs):
        for kind in (Cols, Rows):
            n = {len(v) for v in vs if isinstance(v, kind)}
            if n:
                if len(n) > 1 or any(isinstance(v, (Cols, Rows)) and not isinstance(v, kind) for v in vs):
                    raise Stop("tables of different shapes")
                return kind(f(*(v[i] if isinstance(v, kind) else v for v in vs)) for i in range(n.pop()))
        return f(*vs)

    def read(self, t):
        if t in self.data:
            return self.data[t]
        if t in self.given:
            return self.given[t]
        if is_const(t):
            x = cval(t)
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                raise Stop(f"{x!r} is not a number")
            return A.num(Fraction(str(x)))
        op, a = t.op, t.args
        if op == "attr":
            if a[1] == "T":
                v = self(a[0])
                if isinstance(v, Cols):
                    return Rows(v)
                if isinstance(v, Rows):
                    return Cols(v)
                return v
            if a[1] in self.attrs and a[0].op in ("self", "given"):
                return self.attrs[a[1]]
            raise Stop(f"attribute {a[1]}")
        if op == "bin":
            return self.binary(a[0], a[1], a[2])
        if op in ("neg", "un"):
            if op == "un" and a[0] != "-":
                raise Stop("operator")
            return self.each(A.neg, self(a[-1]))
        if op == "phi":
            p = self.truth(a[0])
            if p is None:
                x, y = self(a[1]), self(a[2])
                if x == y:
                    return x
                raise Stop(f"a choice by {show(a[0], 2)[:40]}")
            return self(a[1] if p else a[2])
        if op == "sub":
            return self.index(self(a[0]), a[1])
        if op == "elem":
            raise Stop("element")
        if op == "ext" and a[0] in ("numpy.pi", "math.pi"):
            return A.PI
        if op in ("list", "tuple"):
            return Cols(self(x) for x in seq_items(t))
        if op == "call":
            return self.call(t)
        raise Stop(f"{op} is not arithmetic")

    def truth(self, c):
        if is_const(c):
            return bool(cval(c))
        if c.op == "not":
            p = self.truth(c.args[0])
            return None if p is None else not p
        if c.op in ("and", "or"):
            ps = [self.truth(x) for x in c.args]
            stop = c.op == "or"
            return stop if stop in ps else None if None in ps else not stop
        if c.op == "cmp" and is_const(c.args[2]):
            x, n = c.args[1], cval(c.args[2])
            v = None
            try:
                if x.op == "attr" and x.args[1] == "ndim":
                    v = 2 if isinstance(self(x.args[0]), (Cols, Rows)) else 1
                elif x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
                    o = self(x.args[0].args[0])
                    v = len(o) if isinstance(o, Cols) and is_const(x.args[1]) and cval(x.args[1]) in (1, -1) else None
            except (Stop, A.Unsupported):
                v = None
            if v is not None and c.args[0] in ("==", "!="):
                return (v == n) == (c.args[0] == "==")
        return None

    def binary(self, op, x, y):
        x, y = self(x), self(y)
        fs = {"+": A.add, "-": A.sub, "*": A.mul, "/": A.div, "**": self.power}
        if op not in fs:
            raise Stop(f"operator {op}")
        return self.each(fs[op], x, y)

    @staticmethod
    def power(x, y):
        return A.power(x, A.to_rat(y))

    def index(self, v, k):
        if k.op == "tuple":
            ks = k.args
            if len(ks) == 2 and isinstance(v, Cols) and ks[0].op == "slice":
                return self.pick(v, ks[1])
            if len(ks) == 2 and isinstance(v, Rows) and ks[1].op == "slice":
                return self.pick(v, ks[0])
            # X[:, 0, None] and the like keep the column
            rest = [x for x in ks if not (is_const(x) and cval(x) is None or x.op == "ext")]
            if len(rest) < len(ks) and rest:
                return self.index(v, mk("tuple", *rest)) if len(rest) > 1 else v
            raise Stop("index")
        if isinstance(v, Rows):
            return self.pick(v, k)
        raise Stop("index")

    def pick(self, v, k):
        if is_const(k) and isinstance(cval(k), int):
            return v[cval(k)]
        if k.op in ("list", "tuple"):
            return type(v)(v[cval(x)] for x in seq_items(k))
        if k.op == "slice":
            s = [cval(x) if is_const(x) else "?" for x in k.args]
            if "?" not in s:
                return type(v)(tuple(v)[slice(*s)])
        raise Stop("index")

    def call(self, t):
        f, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        name = None
        if f.op == "ext":
            name = f.args[0]
        elif f.op in ("meth", "attr") and isinstance(f.args[-1], str):
            name, args = "numpy." + f.args[-1], [f.args[0], *args]
        elif f.op == "bound":
            name, args = "numpy." + str(f.args[-1]), [f.args[0], *args]
        if name is None:
            raise Stop("a call")
        short = name.rsplit(".", 1)[-1]
        if short in ARRAYS and args:
            return self(args[0])
        one = {
            "log": A.log,
            "exp": A.exp,
            "log1p": lambda v: A.log(A.add(A.ONE, v)),
            "expm1": lambda v: A.sub(A.exp(v), A.ONE),
            "sqrt": lambda v: A.power(v, A.HALF),
            "square": lambda v: A.mul(v, v),
            "reciprocal": lambda v: A.div(A.ONE, v),
            "negative": A.neg,
            "ndtr": A.ndtr,
            "ndtri": A.ndtri,
            "gammaln": lambda v: A.log(A.gamma(v)),
            "loggamma": lambda v: A.log(A.gamma(v)),
            "gamma": A.gamma,
        }
        if short in one and len(args) == 1:
            return self.each(one[short], self(args[0]))
        two = {
            "power": self.power,
            "float_power": self.power,
            "add": A.add,
            "subtract": A.sub,
            "multiply": A.mul,
            "divide": A.div,
            "true_divide": A.div,
            "stdtr": A.stdtr,
            "stdtrit": A.stdtrit,
            "logaddexp": lambda x, y: A.log(A.add(A.exp(x), A.exp(y))),
        }
        if short in two and len(args) == 2:
            return self.each(two[short], self(args[0]), self(args[1]))
        if name.startswith("scipy.stats.norm.") and len(args) == 1 and not kw:
            g = {"cdf": A.ndtr, "ppf": A.ndtri}.get(short)
            if g:
                return self.each(g, self(args[0]))
        if name.startswith("scipy.stats.t.") and short in ("cdf", "ppf"):
            df = args[1] if len(args) == 2 else kw.get("df")
            if df is not None:
                return self.each({"cdf": A.stdtr, "ppf": A.stdtrit}[short], self(df), self(args[0]))
        if short == "clip":
            # keeps a value inside its domain
            return self(args[0])
        if short in ("maximum", "minimum", "fmax", "fmin") and len(args) == 2:
            # a bound, as in an iteration that only moves one way
            xs = [x for x in args if not is_const(x) and x not in self.given]
            if len(xs) == 1:
                return self(xs[0])
        if short in ("sum", "prod"):
            v = self(args[0])
            ax = kw.get("axis", args[1] if len(args) > 1 else None)
            axis = cval(ax) if ax is not None and is_const(ax) else None
            if (isinstance(v, Cols) and axis in (1, -1)) or (isinstance(v, Rows) and axis in (0, -2)):
                out = v[0]
                for x in v[1:]:
                    out = (A.add if short == "sum" else A.mul)(out, x)
                return out
            raise Stop("a sum over observations")
        if short in ("column_stack", "stack", "vstack", "hstack"):
            xs = self(args[0])
            ax = cval(kw["axis"]) if "axis" in kw and is_const(kw["axis"]) else 0
            if any(isinstance(x, (Cols, Rows)) for x in xs) or short == "hstack":
                raise Stop("stacked tables")
            return Cols(xs) if short == "column_stack" or (short == "stack" and ax in (1, -1)) else Rows(xs)
        if short in ("flip", "fliplr", "flipud"):
            v = self(args[0])
            return type(v)(reversed(v))
        if short in ("zeros", "zeros_like"):
            return A.ZERO
        if short in ("ones", "ones_like"):
            return A.ONE
        if name in ("scipy.stats.multivariate_normal.cdf", "scipy.stats.multivariate_t.cdf"):
            normal = "normal" in name
            x = self(kw["x"] if "x" in kw else args[0])
            loc = kw.get("mean" if normal else "loc", args[1] if len(args) > 1 else None)
            shape = kw.get("cov" if normal else "shape", args[2] if len(args) > 2 else None)
            if not isinstance(x, Cols) or len(x) != 2 or shape is None:
                raise Stop("distribution function")
            if loc is not None and any(v != A.ZERO for v in self(loc)):
                raise Stop("distribution function")
            (p, q), (r, s) = self(shape)
            if (p, s) != (A.ONE, A.ONE) or q != r:
                raise Stop("not a correlation matrix")
            a, b = sorted(x, key=A._r)
            if normal:
                return A.func("bvn", a, b, q)
            df = kw.get("df", args[3] if len(args) > 3 else None)
            return A.func("bvt", self(df), a, b, q)
        raise Stop(name)


def plain(t):
    """The term without conversions."""
    while t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].rsplit(".", 1)[-1] in ARRAYS and t.args[1]:
        t = t.args[1][0]
    return t


U, V, PR = A.sym("u"), A.sym("v"), A.sym("p")


def boxes(names):
    """Small boxes of inputs on which two formulas may be told apart."""
    out = []
    for u, v, th, rho, dof, p in ((0.31, 0.72, 2.6, 0.43, 5.3, 0.58), (0.83, 0.22, 1.7, -0.36, 4.1, 0.21)):
        b = {"u": u, "v": v, "q": u, "theta_": th, "rho_": rho, "dof_": dof, "p": p, "x": p}
        out.append({n: (b.get(n, 0.47) * (1 - 1e-9), b.get(n, 0.47) * (1 + 1e-9)) for n in names | set(b)})
        for n, (lo, hi) in out[-1].items():
            out[-1][n] = (min(lo, hi), max(lo, hi))
    return out


def same(a, b):
    """True / False / None."""
    r = A.equal(a, b, boxes(A.symbols(a) | A.symbols(b)))
    if r is not None:
        return r
    # the same increasing function of the same argument
    if a[0] == b[0] and a[2] == b[2] and len(a[1]) == len(b[1]) == 1:
        (x, p), (y, q) = a[1][0], b[1][0]
        if p == q and x[0] == y[0] and x[0] in ("ndtr", "stdtr") and x[1:-1] == y[1:-1]:
            z, w = x[-1], y[-1]
            if (z[0] > 0) == (w[0] > 0) and z[0] and w[0]:
                names = A.symbols(z) | A.symbols(w)
                return A.equal(A.mul(z, z), A.mul(w, w), boxes(names))
            return A.equal(z, w, boxes(A.symbols(z) | A.symbols(w)))
    return None


def quietly(f, *a):
    A.fresh()
    try:
        return f(*a)
    except (A.Unsupported, Stop, KeyError, TypeError, IndexError, ValueError, RecursionError):
        return None


class Family:
    def __init__(self, P, rep, c, rot):
        self.P, self.rep, self.c, self.rot = P, rep, c, rot
        self.me = selfterm(c)

    def run(self, name, args=None, rotation=None):
        f = self.c.find_method(name)
        if f is None or f.is_abstract:
            return None, None, None
        sa = {} if rotation is None else {"rotation_": mk("enum", self.rot.qual, rotation)}
        ev = Evaluator(self.P, budget=60000, self_attrs=sa)
        r = ev.run(f, cls=self.c, args=args or {})
        self.rep.saw(ev)
        return f, ev, r

    def reader(self, ev, r, cols, given=None):
        """Reads r as a function of the columns of the validated data."""
        attrs = {}
        for x in walk(r):
            if x.op == "attr" and x.args[0] is self.me and x.args[1].endswith("_"):
                attrs[x.args[1]] = self.symbol(x.args[1])
        data = {}
        for x in walk(r):
            if x.op == "in" and x.args[-1] == "X":
                data[x] = cols
            elif x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].endswith(".validate_data"):
                data[x] = cols
        return Reader(data, attrs, given)

    def value(self, name, cols, rotation, margin=None):
        f, ev, r = self.run(name, {} if margin is None else {"first_margin": TRUE if margin else FALSE}, rotation)
        if f is None:
            return None, None, None, None
        v = quietly(self.reader(ev, r, cols), r)
        return f, ev, r, None if isinstance(v, (Cols, Rows)) else v

    def rotations(self):
        uses = any(x.op == "attr" and x.args[-1] == "rotation_" for x in walk(self.run("cdf")[2]))
        rots = list(self.rot.enum_members()) if uses else [None]
        if uses and len(rots) < 4:
            raise AnalysisBroken("rotations not found")
        return rots

    def all(self):
        rots = self.rotations()
        for r in rots:
            self.rotation(r)
        self.fit(rots)

    def inverses(self, r):
        label = f"{self.c.name}.{r}" if r else self.c.name
        for margin in (False, True):
            h = self.value("partial_derivative", Cols((U, V)), r, margin)[3]
            self.inverse(label, r, margin, h)

    def rotation(self, r):
        rep, label = self.rep, f"{self.c.name}.{r}" if r else self.c.name
        xy = Cols((U, V))
        f, _, _, cdf = self.value("cdf", xy, r)
        self.margins(label, f, cdf)
        h = {}
        for margin in (False, True):
            g, _, _, v = self.value("partial_derivative", xy, r, margin)
            h[margin] = v
            want = None if cdf is None else quietly(A.diff, cdf, "u" if margin else "v")
            ok = None if v is None or want is None else quietly(same, v, want)
            rep.check(
                ok,
                "derivative",
                f"{label}.{'first' if margin else 'second'}",
                g.loc,
                f"the conditional distribution given the {'first' if margin else 'second'} margin is not the "
                f"derivative of the distribution function",
            )
        g, _, _, ld = self.value("score_samples", xy, r)
        if ld is not None:
            dens = quietly(A.exp, ld)
            for margin in (False, True):
                want = None if h[margin] is None else quietly(A.diff, h[margin], "v" if margin else "u")
                ok = None if dens is None or want is None else quietly(same, dens, want)
                rep.check(
                    ok,
                    "density",
                    f"{label}.{'first' if margin else 'second'}",
                    g.loc,
                    "the density is not the derivative of the conditional distribution",
                )
        else:
            rep.undecided("density", label, g.loc, "the density is outside the algebra")
        for margin in (False, True):
            self.inverse(label, r, margin, h[margin])
        self.tails(label, r, cdf)

    def margins(self, label, f, cdf):
        """C(u, 1) = u and C(1, v) = v, C(u, 0) = C(0, v) = 0."""
        if cdf is None:
            self.rep.undecided("support", label, f.loc, "the distribution function is outside the algebra")
            return
        for s, o in (("u", V), ("v", U)):
            ok = quietly(lambda s=s, o=o: same(A.substitute(cdf, {s: A.ONE}), o))
            self.rep.check(ok, "support", f"{label}.{s}", f.loc, f"the distribution function at {s} = 1 is not the other margin")

    # -- inverse

    def inverse(self, label, r, margin, h):
        rep = self.rep
        label = f"{label}.{'first' if margin else 'second'}"
        cols = Cols((U, PR)) if margin else Cols((PR, V))
        f, ev, t, v = self.value("inverse_partial_derivative", cols, r, margin)
        want = V if margin else U
        if h is None:
            rep.undecided("inverse", label, f.loc, "the conditional distribution is outside the algebra")
            return
        loops = [x for x in walk(t) if x.op == "loop"]
        if not loops:
            got = None if v is None else quietly(A.substitute, v, {"p": h})
            ok = None if got is None else quietly(same, got, want)
            rep.check(ok, "inverse", label, f.loc, "the inverse does not undo the conditional distribution")
            return
        # an iteration: its fixed point has to be the inverse
        ok = quietly(self.fixed_point, ev, t, loops, cols, h, margin)
        rep.check(ok, "inverse", label, f.loc, "the iteration does not settle where the conditional distribution is p")

    def fixed_point(self, ev, t, loops, cols, h, margin):
        names = {x.args[1] for x in loops}
        if len({x.args[0] for x in loops}) != 1:
            return None
        x = next(y for y in loops)
        if len(names) != 1:
            return None
        nxt = ev.carried.get((x.args[0], x.args[1]))
        if nxt is None:
            return None
        X = A.sym("x")
        # the result as a function of the settled value
        out = self.reader(ev, t, cols, {x: X})(t)
        prev = [y for y in walk(nxt) if y.op == "prev" and y.args[0] == x.args[0] and y.args[1] == x.args[1]]
        if not prev:
            return None
        step = self.reader(ev, nxt, cols, {y: X for y in prev})(nxt)
        p = A.substitute(h, {"v" if margin else "u": out})
        ok = same(A.substitute(step, {"p": p}), X)
        if ok and quietly(self.stuck, ev, x, nxt, prev, cols, step):
            return False
        return ok

    def stuck(self, ev, x, nxt, prev, cols, step):
        """Whether an iteration that only moves one way is to move the other way from its start."""
        ways = set()
        for t in walk(nxt):
            short = t.args[0].args[0].rpartition(".")[2] if t.op == "call" and t.args[0].op == "ext" else ""
            args = list(t.args[1]) if short else []
            kw = dict(t.args[2]) if short else {}
            if short == "clip":
                lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
                hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
                ways |= {w for w, a in ((1, lo), (-1, hi)) if a in prev}
            elif short in ("maximum", "fmax", "minimum", "fmin") and any(a in prev for a in args):
                ways.add(1 if "max" in short else -1)
        if len(ways) != 1:
            return False
        start = self.reader(ev, x.args[2], cols, {})(x.args[2])
        move = A.sub(A.substitute(step, {"x": start}), start)
        for box in boxes(A.symbols(move)):
            try:
                lo, hi = A.ranges(move, box)
            except A.Unsupported:
                continue
            if lo > 0 and ways == {-1} or hi < 0 and ways == {1}:
                return True
        return False

    # -- tails

    def tails(self, label, r, cdf):
        for name, at in (("lower_tail_dependence", 0), ("upper_tail_dependence", 1)):
            f, ev, t = self.run(name, rotation=r)
            if f is None:
                continue
            v = quietly(self.reader(ev, t, Cols((U, V))), t)
            want = None if cdf is None else quietly(limit, cdf, at)
            ok = None if v is None or want is None else quietly(same, v, want)
            if ok is None and v is not None and want is not None:
                ok = quietly(same_tail, v, want)
            self.rep.check(
                ok,
                "tail",
                f"{label}.{name.split('_')[0]}",
                f.loc,
                "the coefficient is not the one of the distribution function" + (f" ({A.text(want)})" if want else ""),
            )

    # -- fit

    def fit(self, rots):
        rep, c = self.rep, self.c
        f, ev, _ = self.run("fit")
        scores = {}
        for r in rots:
            _, _, _, scores[r] = self.value("score_samples", Cols((U, V)), r)
        seen = set()
        for e in ev.effects:
            if e.kind != "call":
                continue
            fn = e.data[0]
            name = fn.args[0] if fn.op == "ext" else ""
            if name not in ("scipy.optimize.minimize", "scipy.optimize.minimize_scalar"):
                continue
            loc = ":".join(map(str, e.loc[:2])) if isinstance(e.loc, tuple) else str(e.loc)
            if loc in seen:
                continue
            seen.add(loc)
            ok = quietly(self.objective, e.data[-1], ev, scores.get(rots[0]))
            rep.check(
                ok,
                "objective",
                f"{c.name}.{len(seen)}",
                e.loc,
                "what is minimised is not minus the log-likelihood that scoring reports",
            )
        self.tau(f, ev)
        if rots != [None]:
            self.candidates(f, ev, scores)

    def likelihood(self, call, ev, base):
        """What a minimised function sums at the values kept, and its sign."""
        args, kw = list(call.args[1]), dict(call.args[2])
        obj = args[0] if args else kw["fun"]
        extra = seq_items(kw["args"]) if "args" in kw else []
        x = mk("in", "objective", "x")
        given = {}
        found = mk("attr", call, "x")
        for e in ev.effects:
            if e.kind != "store" or e.data[0] is not self.me:
                continue
            v, s = e.data[2], self.symbol(e.data[1])
            if v is found:
                given[x] = s
            elif v.op == "sub" and v.args[0] is found:
                given[mk("sub", x, v.args[1])] = s
            else:
                for y in extra:
                    if plain(v) is plain(y):
                        given[y] = s
        for i, y in enumerate(extra):
            if y not in given and quietly(self.reader(ev, y, Cols((U, V))), y) is None:
                given[y] = A.sym(f"argument{i}", real=True)
        if not any(k is x or (k.op == "sub" and k.args[0] is x) for k in given):
            free = [n for n in A.symbols(base) if n.endswith("_")]
            if len(free) != 1:
                return None
            given[x] = self.symbol(free[0])
        if obj.op == "fn" and obj.args[0] in self.P.funcs:
            fn = self.P.funcs[obj.args[0]]
            ev2 = Evaluator(self.P, budget=60000)
            r = ev2.run(fn, args=dict(zip(fn.params(), [x, *extra], strict=False)))
        elif obj.op == "closure":
            node = ast.parse("f(x)").body[0].value
            r = ev.call_closure(obj, [x, *extra], {}, node)
        else:
            return None
        return total(r, self.reader(ev, r, Cols((U, V)), given))

    def symbol(self, name):
        return A.sym(name, real=name not in POSITIVE)

    def objective(self, call, ev, base):
        """Whether the objective is minus the sum of the scores."""
        if base is None:
            return None
        got = self.likelihood(call, ev, base)
        if got is None:
            return None
        v, sign = got
        ok = same(v, base)
        return False if ok and sign > 0 else ok

    def tau(self, f, ev):
        """The parameter derived from Kendall's tau has that tau."""
        g = TAU.get(self.c.name)
        if g is None:
            return
        for e in ev.effects:
            if e.kind != "store" or e.data[0] is not self.me or e.data[1] != "theta_":
                continue
            taus = [
                x
                for x in walk(e.data[2])
                if x.op == "attr" and x.args[1] in ("statistic", "correlation") or x.op == "attr" and x.args[1] == "kendall_tau"
            ]
            if not taus:
                continue
            th = A.sym("theta_")
            ok = quietly(self.tau_of, e.data[2], taus, g(th), th)
            self.rep.check(ok, "tau", self.c.name, e.loc, "the parameter does not have the Kendall's tau it was derived from")

    def tau_of(self, t, taus, tau, th):
        given = {x: tau for x in taus}

        class R(Reader):
            def call(self, t):
                f = t.args[0]
                if f.op == "ext" and f.args[0].rsplit(".", 1)[-1] in ("abs", "absolute", "fabs"):
                    return self(t.args[1][0])
                if f.op == "ext" and f.args[0].rsplit(".", 1)[-1] in ("min", "max", "minimum", "maximum"):
                    xs = [x for x in t.args[1] if not is_const(x)]
                    if len(xs) == 1:
                        return self(xs[0])
                return super().call(t)

        return same(R({}, {}, given)(t), th)

    def candidates(self, f, ev, scores):
        """Every rotation is tried on its own data, and the best one is kept."""
        rep, c = self.rep, self.c
        stores = {}
        for e in ev.effects:
            if e.kind == "store" and e.data[0] is self.me and e.data[1] in ("rotation_", "theta_"):
                stores.setdefault(e.data[1], []).append(e)
        for i, e in enumerate(stores.get("rotation_", ())):
            mins = [
                x
                for x in walk(e.data[2])
                if x.op == "call"
                and x.args[0].op == "ext"
                and x.args[0].args[0].rsplit(".", 1)[-1] in ("min", "max")
                and x.args[2]
            ]
            tried = self.tried(mins[0], ev) if mins else {}
            if not tried:
                rep.undecided("best", f"{c.name}.{i}", e.loc, "no choice found")
                continue
            least = mins[0].args[0].args[0].endswith("min")
            for r, vs in sorted(tried.items()):
                for summed in vs:
                    ok = None
                    if scores.get(r) is not None:
                        got = quietly(summed, scores[r])
                        if got is not None:
                            v, sign = got
                            ok = quietly(same, v, scores[r])
                            if ok and (sign < 0) != least:
                                ok = False
                    rep.check(
                        ok,
                        "best",
                        f"{c.name}.{i}.{r}",
                        e.loc,
                        f"rotation {r} is not judged by the likelihood that scoring reports for it",
                    )
            rep.check(
                set(tried) == set(scores),
                "every-rotation",
                f"{c.name}.{i}",
                e.loc,
                "not every rotation is tried",
            )
        for i, e in enumerate(stores.get("theta_", ())):
            mins = [
                x
                for x in walk(e.data[2])
                if x.op == "call"
                and x.args[0].op == "ext"
                and x.args[0].args[0].rsplit(".", 1)[-1] in ("min", "max")
                and x.args[2]
            ]
            if not mins:
                continue
            partner = [r for r in stores.get("rotation_", ()) if r.guard == e.guard]
            for r in partner:
                rep.check(
                    any(x is mins[0] for x in walk(r.data[2])),
                    "best",
                    f"{c.name}.pair.{i}",
                    e.loc,
                    "the parameter and the rotation kept are those of different candidates",
                )

    def tried(self, m, ev):
        """rotation -> [(columns, what is summed)] for the candidates of a choice."""
        out = {}
        for d in walk(m.args[1][0]):
            if d.op != "dict":
                continue
            for kv in d.args[1:]:
                if not isinstance(kv, tuple) or len(kv) != 2:
                    continue
                k, v = kv
                if isinstance(k, T) and k.op == "enum" and k.args[0] == self.rot.qual:
                    out.setdefault(k.args[1], []).append(lambda base, v=v: self.summed(v, ev, base))
                elif isinstance(v, T) and v.op == "enum" and v.args[0] == self.rot.qual:
                    calls = [
                        x
                        for x in walk(d)
                        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].startswith("scipy.optimize.minimize")
                    ]
                    if calls:
                        out.setdefault(v.args[1], []).append(lambda base, x=calls[0]: self.likelihood(x, ev, base))
        return out

    def summed(self, v, ev, base):
        th = A.sym("theta_")
        stored = [e.data[2] for e in ev.effects if e.kind == "store" and e.data[0] is self.me and e.data[1] == "theta_"]
        given = {x: th for x in stored}
        return total(v, self.reader(ev, v, Cols((U, V)), given))


def total(t, read):
    """(what is summed over the observations, sign) of a total."""
    sign = 1
    while True:
        if t.op == "neg" or (t.op == "un" and t.args[0] == "-"):
            sign, t = -sign, t.args[-1]
        elif t.op == "bin" and t.args[0] == "*" and any(is_const(x) and cval(x) in (-1, -1.0) for x in t.args[1:]):
            sign, t = -sign, next(x for x in t.args[1:] if not is_const(x))
        elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.sum", "numpy.mean"):
            return read(t.args[1][0]), sign
        elif t.op == "call" and t.args[0].op in ("meth", "attr", "bound") and t.args[0].args[-1] in ("sum", "mean"):
            return read(t.args[0].args[0]), sign
        else:
            return None


def limit(cdf, at):
    """The tail coefficient of a distribution function of u and v."""
    Q = A.sym("q")
    diag = A.substitute(cdf, {"u": Q, "v": Q})
    d = A.diff(diag, "q")
    v = quietly(A.substitute, d, {"q": A.num(at)})
    if v is None:
        v = quietly(quantiles, d, at)
    if v is None and at == 0:
        v = quietly(A.substitute, A.div(diag, Q), {"q": A.ZERO})
    if v is None:
        return None
    return v if at == 0 else A.sub(A.num(2), v)


def quantiles(d, at):
    """The limit when quantiles of q become infinite."""
    W = A.sym("w")
    inf = A.div(A.num(-1 if at == 0 else 1), W)
    total = A.ZERO
    for (f, x), c in A.terms(d).items():
        if x is not None:
            return None
        val = A.num(c)
        for b, p in f:
            if b[0] not in ("ndtr", "stdtr"):
                return None
            z = swap(b[-1], inf)
            k = [(bb, pp) for bb, pp in z[1] if bb == ("s", "w")]
            if k and A.rint(k[0][1]) is not None and A.rint(k[0][1]) < 0:
                b2 = A.ZERO if z[0] < 0 else A.ONE
            else:
                z0 = A.substitute(z, {"w": A.ZERO})
                b2 = A.func(*b[:-1], z0)
            val = A.mul(val, A.power(b2, p))
        total = A.add(total, val)
    return total


def swap(v, inf):
    """Quantiles of q replaced."""

    def val(w):
        out = A.num(w[0])
        for b, p in w[1]:
            out = A.mul(out, A.power(base(b), p))
        if w[2] is not None:
            out = A.mul(out, A.exp(val(w[2])))
        return out

    def base(b):
        if b[0] in ("ndtri", "stdtrit"):
            return inf
        if b[0] == "+":
            out = A.ZERO
            for (f, e), c in b[1]:
                out = A.add(out, val((c, f, e)))
            return out
        if b[0] in ("s", "real", "n"):
            return (Fraction(1), ((b, A.R1),), None)
        raise A.Unsupported("quantile")

    return val(v)


def same_tail(a, b):
    """Two sums of one distribution function each, possibly from opposite sides."""

    def split(v):
        one = [(b, p) for b, p in v[1] if b[0] in ("ndtr", "stdtr")]
        return (v[0], one[0][0]) if len(v[1]) == 1 and len(one) == 1 and v[2] is None else None

    x, y = split(a), split(b)
    if x is None:
        return None
    if y is None:
        # 2 - 2 F(z) is 2 F(-z)
        d = A.terms(b)
        k = [(f, c) for (f, e), c in d.items() if f]
        const = d.get(((), None), 0)
        if len(k) != 1 or len(k[0][0]) != 1 or k[0][1] != -const:
            return None
        base = k[0][0][0][0]
        if base[0] not in ("ndtr", "stdtr"):
            return None
        y = (const, (*base[:-1], A.neg(base[-1])))
    if x[0] != y[0] or x[1][:-1] != y[1][:-1]:
        return False if x[0] != y[0] else None
    z, w = x[1][-1], y[1][-1]
    if (z[0] > 0) != (w[0] > 0):
        return False
    return A.equal(A.mul(z, z), A.mul(w, w), boxes(A.symbols(z) | A.symbols(w)))


def sampling(P, rep, base):
    """The second column is drawn given the first, or the other way round."""
    f = base.find_method("sample")
    if f is None:
        return
    ev = Evaluator(P)
    r = ev.run(f, cls=base)
    rep.saw(ev)
    draws = [
        e.data[-1]
        for e in ev.effects
        if e.kind == "call" and e.data[0].op in ("bound", "meth", "attr") and "inverse_partial_derivative" in show(e.data[0], 2)
    ]
    sets = [e for e in ev.effects if e.kind == "setitem"]
    for i, x in enumerate(draws):
        kw = dict(x.args[2])
        fm = kw.get("first_margin", x.args[1][1] if len(x.args[1]) > 1 else FALSE)
        if not is_const(fm):
            rep.undecided("sample", f"draw{i}", f.loc, "the margin is not known")
            continue
        col = 1 if cval(fm) else 0
        ok = None
        for e in sets:
            k, v = e.data[1], e.data[2]
            if v is x and k.op == "tuple" and len(k.args) == 2 and is_const(k.args[1]):
                ok = cval(k.args[1]) in (col, col - 2)
        for y in walk(r):
            if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] == "numpy.column_stack":
                items = seq_items(y.args[1][0]) if y.args[1] else None
                if items and len(items) == 2 and x in items:
                    ok = items.index(x) == col
        rep.check(
            ok,
            "sample",
            f"draw{i}",
            f.loc,
            "what is drawn given one margin is put in place of that margin",
        )


def univariate(P, rep):
    base = P.cls("BaseUnivariateDist")
    for c in sorted((c for c in P.classes.values() if base in c.repo_mro() and not c.is_abstract()), key=lambda c: c.name):
        me = selfterm(c)
        models, params = {}, {}
        for m, fn in (("cdf", "cdf"), ("ppf", "ppf"), ("score_samples", "logpdf"), ("sample", "rvs")):
            f = c.find_method(m)
            if f is None or f.is_abstract:
                continue
            ev = Evaluator(P)
            ev.run(f, cls=c)
            rep.saw(ev)
            calls = [
                e
                for e in ev.effects
                if e.kind == "call" and e.data[0].op == "ext" and e.data[0].args[0].startswith("scipy.stats.")
            ]
            calls = [
                e
                for e in calls
                if e.data[0].args[0].rsplit(".", 1)[-1] in ("cdf", "ppf", "logpdf", "pdf", "rvs", "sf", "isf", "logcdf")
            ]
            if len(calls) != 1:
                rep.undecided("parameters", f"{c.name}.{m}", f.loc, "the model is not known")
                continue
            name = calls[0].data[0].args[0]
            models[m], got = name.rsplit(".", 1)[0], name.rsplit(".", 1)[1]
            kw = {k: v for k, v in dict(calls[0].data[2]).items() if k not in ("size", "random_state")}
            params[m] = kw
            rep.check(
                got == fn,
                "parameters",
                f"{c.name}.{m}",
                calls[0].loc,
                f"{m} evaluates {got} of the model",
            )
        if not params:
            continue
        ref = "score_samples" if "score_samples" in params else next(iter(params))
        for m in params:
            if m == ref:
                continue
            ok = models[m] == models[ref] and params[m] == params[ref]
            rep.check(ok, "parameters", f"{c.name}.{m}.same", c.find_method(m).loc, f"{m} and {ref} have different models")
        order = MODELS.get(models[ref])
        f = c.find_method("fit")
        ev = Evaluator(P)
        ev.run(f, cls=c)
        rep.saw(ev)
        if order is None:
            continue
        for e in ev.effects:
            if e.kind != "store" or e.data[0] is not me:
                continue
            v, a = e.data[2], e.data[1]
            names = [k for k, x in params[ref].items() if x.op == "attr" and x.args[0] is me and x.args[1] == a]
            if not names or v.op != "sub" or not is_const(v.args[1]):
                continue
            src = v.args[0]
            if src.op != "call" or not (src.args[0].op == "ext" and src.args[0].args[0] == models[ref] + ".fit"):
                continue
            k = cval(v.args[1])
            rep.check(
                names == [order[k]],
                "fitted",
                f"{c.name}.{a}",
                e.loc,
                f"{a} is the fitted {order[k]} and is used as {', '.join(names)}",
            )
