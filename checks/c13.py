"""C13: uncertainty sets make the optimisation more cautious."""

from sa.affine import rebuild
from sa.convex import (
    Model, enum_member, fixed_by_constructor, is_call, is_variable, options_off,
)  # fmt: skip
from sa.folds import Polarity, constraint_polarity, orient
from sa.vg import Evaluator, T, const, is_const, cval, mk, walk

SCALE = mk("given", "scale")
#: a permutation whatever the values of its argument, and a resampling
OPAQUE = ("commutation_matrix", "stationary_bootstrap")


def check(P, rep):
    rep.rule("used", "an uncertainty set that was given is part of the problem", need=5)
    rep.rule("worst-return", "the uncertainty on expected returns lowers the return considered", need=5)
    rep.rule("worst-variance", "the uncertainty on the covariance raises the variance considered", need=4)
    rep.rule("magnitude", "the penalty is the size times a norm of the root of the shape", need=4)
    rep.rule("bounded", "the auxiliary matrices of the worst case are kept positive semidefinite", need=2)
    rep.rule("own-data", "the set is fitted on the data the optimiser was fitted on", need=2)
    rep.rule("size-grows", "the size grows with the confidence level", need=4)
    rep.rule("size-formula", "the size is the root of a chi-square quantile with the dimension of "
             "the uncertain quantity", need=4)
    rep.rule("siblings", "estimators of the same kind use the same size", need=2)
    rep.rule("shape", "the shape is a covariance of the estimation error, reduced to its diagonal "
             "only when asked", need=6)
    for kind, opt in (("mu", "mu_uncertainty_set_estimator"), ("cov", "covariance_uncertainty_set_estimator")):
        problem(P, rep, kind, opt)
    sizes(P, rep)


def problem(P, rep, kind, opt):
    cls = P.cls("MeanRisk")
    rule = "worst-return" if kind == "mu" else "worst-variance"
    for o in P.cls("ObjectiveFunction").enum_members():
        if kind == "cov" and o == "MAXIMIZE_RETURN":
            continue
        for keep in ((opt,), (opt, "min_return" if kind == "mu" else "max_variance")):
            base = fixed_by_constructor(P, cls)
            base["risk_measure"] = enum_member(P, "RiskMeasure", "VARIANCE")
            if kind == "cov" and len(keep) == 2:
                base["risk_measure"] = enum_member(P, "RiskMeasure", "CVAR")
            if kind == "mu" and o == "MINIMIZE_RISK" and len(keep) == 1:
                continue
            base["objective_function"] = enum_member(P, "ObjectiveFunction", o)
            base["risk_aversion"] = mk("given", "risk_aversion")
            base["scale_constraints"] = base["scale_objective"] = SCALE
            m = Model(P, cls, options_off(cls, base, keep))
            rep.saw(m.ev)
            inst = f"{kind}[{o}{'+limit' if len(keep) == 2 else ''}]"
            decide(P, rep, m, kind, opt, rule, inst)


def owner(t, opt):
    """Is the term an attribute of the uncertainty set of this estimator?"""
    return any(
        (x.op == "attr" and x.args[0].op == "self" and x.args[1].rstrip("_") == opt)
        or (x.op == "given" and x.args[0] == opt)
        for x in walk(t)
    )


def decide(P, rep, m, kind, opt, rule, inst):
    def field(t, name):
        return t.op == "attr" and t.args[1] == name and t.args[0].op == "attr" and t.args[0].args[1] == "uncertainty_set_" and owner(t.args[0], opt)

    pol = Polarity(lambda t: field(t, "k"), is_variable)
    places = []
    for sense, obj, _ in m.problem.objectives():
        if pol.depends(obj):
            s = pol(obj)
            want = {"-"} if sense == "Maximize" else {"+"}
            places.append((obj, m.problem.loc, s, want))
    for c, _ in m.constraints:
        if pol.depends(c) and orient(c)[0] in ("<=", "=="):
            places.append((c, c.loc, constraint_polarity(c, pol), {"+"}))
    rep.check(bool(places), "used", inst, m.problem.loc, f"`{opt}` has no influence on the problem")
    for t, loc, s, want in places:
        if orient(t)[0] == "==":
            # only under the condition that the return is affine, which excludes a norm
            rep.undecided(rule, inst + ".eq", loc, "equality for affine returns")
            continue
        rep.check(None if "?" in s or not s else set(s) == want, rule, inst, loc,
                  "the worst case enters with the wrong sign: the uncertainty is rewarded")
        for x in walk(t):
            if x.op == "bin" and x.args[0] == "*" and any(pol.target(y) for y in x.args[1:]):
                other = x.args[2] if pol.target(x.args[1]) else x.args[1]
                norm = is_call(other, "cvxpy.pnorm", "cvxpy.norm", "cvxpy.norm2")
                sig = any(
                    is_call(y, "scipy.linalg.sqrtm", "numpy.linalg.cholesky", "scipy.linalg.cholesky")
                    and any(field(z, "sigma") for z in walk(y))
                    for y in walk(other)
                )
                var = {y for y in walk(other) if is_variable(y)}
                ok = norm and sig and bool(var) and (kind == "cov" or var == {m.w})
                if norm and len(other.args[1]) > 1:
                    p = other.args[1][1]
                    ok = ok and is_const(p) and cval(p) == 2
                rep.check(ok, "magnitude", inst, x.loc or loc, "the penalty is not the size times a norm "
                          "of the root of the shape applied to the weights")
    if kind == "cov":
        for t, loc, _, _ in places:
            free = {
                y for x in walk(t) if is_call(x, "cvxpy.pnorm", "cvxpy.norm", "cvxpy.norm2")
                and any(field(z, "sigma") for z in walk(x))
                for y in walk(x) if is_variable(y)
            } - {m.w}  # fmt: skip
            psd = {y for c, _ in m.constraints if orient(c)[0] == "psd" for y in walk(c) if is_variable(y)}
            traced = {y for x in walk(t) if is_call(x, "cvxpy.trace") for y in walk(x) if is_variable(y)}
            if not free:
                continue
            rep.check(free <= psd, "bounded", inst, loc, "a worst-case matrix is not constrained")
            rep.check(free == traced - {m.w}, "bounded", inst + ".trace", loc,
                      "the nominal and the worst-case variance use different matrices")
            linked = any(orient(c)[0] == "psd" and m.w in set(walk(c)) for c, _ in m.constraints)
            rep.check(linked, "bounded", inst + ".weights", loc, "the worst case is not tied to the weights")
    # data ----------------------------------------------------------------------
    for e in m.ev.effects:
        if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op in ("meth", "attr", "bound") and \
                e.data[0].args[1].rsplit(".", 1)[-1] == "fit" and owner(e.data[0].args[0], opt):
            args = list(e.data[1]) + [v for k, v in e.data[2] if k in ("X", "y")]
            names = [raw_param(a) for a in args[:2]]
            rep.check(names == ["X", "y"], "own-data", inst, e.loc,
                      f"the uncertainty set is fitted on {names} instead of X and y")


def raw_param(t):
    """Name of the fit parameter a term is or was validated from."""
    if t.op == "in":
        return t.args[0]
    ps = {x.args[0] for x in walk(t) if x.op == "in"}
    if len(ps) == 1 and is_call(t, "sklearn.utils.validation.validate_data", "sklearn.utils.validation.check_array"):
        return next(iter(ps))
    return "?"


class Size(Polarity):
    """Sign with which the confidence level enters; quantiles are increasing."""

    def _eval(self, t):
        if t.op == "call" and t.args[0].op in ("ext", "meth", "attr"):
            name = str(t.args[0].args[-1] if t.args[0].op != "ext" else t.args[0].args[0])
            last = name.rsplit(".", 1)[-1]
            if last in ("ppf", "isf", "sf", "cdf"):
                r = frozenset()
                for x in [*t.args[1], *(v for _, v in t.args[2])]:
                    if self.depends(x):
                        r |= self(x)
                if last in ("isf", "sf"):
                    r = frozenset({"+": "-", "-": "+"}.get(s, s) for s in r)
                return r
        return super()._eval(t)


def sizes(P, rep):
    groups = {}
    for b, kind in (("BaseMuUncertaintySet", "mu"), ("BaseCovarianceUncertaintySet", "cov")):
        for cls in P.subclasses(P.cls(b).qual):
            if cls.is_abstract():
                continue
            mro = {k.qual for k in cls.repo_mro()}
            for diagonal in (True, False):
                ev = Evaluator(P, budget=2_000_000, self_attrs={"diagonal": const(diagonal)},
                               inline=lambda f: f.cls is None and f.name not in OPAQUE or f.cls and f.cls.qual in mro)
                ev.run(cls.find_method("fit"), cls=cls)
                rep.saw(ev)
                sets = [e for e in ev.effects if e.kind == "store" and e.data[0].op == "self" and e.data[1] == "uncertainty_set_"]
                for e in sets:
                    k, sigma = fields(e.data[2])
                    if k is None:
                        rep.undecided("size-grows", cls.name, e.loc, "unrecognised set")
                        continue
                    if diagonal:
                        size(rep, cls, kind, k, e.loc, groups)
                    shape(rep, cls, kind, sigma, e.loc, diagonal)
    for kind, by in groups.items():
        rep.check(len(set(by.values())) == 1, "siblings", kind, None,
                  f"estimators {sorted(by)} of the {kind} uncertainty set use different sizes")


def fields(t):
    if t.op in ("new", "call"):
        kw = dict(t.args[2])
        pos = list(t.args[1])
        k = kw.get("k", pos[0] if pos else None)
        s = kw.get("sigma", pos[1] if len(pos) > 1 else None)
        return k, s
    return None, None


def size(rep, cls, kind, k, loc, groups):
    s = Size(lambda t: t.op == "attr" and t.args[0].op == "self" and t.args[1] == "confidence_level")(k)
    rep.check(None if "?" in s else set(s) == {"+"}, "size-grows", cls.name, loc,
              "the size does not grow with the confidence level")
    root = is_call(k, "numpy.sqrt", "math.sqrt") or (k.op == "bin" and k.args[0] == "**" and is_const(k.args[2]) and cval(k.args[2]) == 0.5)
    inner = k.args[1][0] if k.op == "call" and k.args[1] else k.args[1] if k.op == "bin" else k
    quant = [x for x in walk(k) if is_call(x, "scipy.stats.chi2.ppf", "scipy.stats.chi2.isf")]
    if not quant:
        rep.undecided("size-formula", cls.name, loc, "no chi-square quantile found")
        return
    q = quant[0]
    kw = dict(q.args[2])
    pos = list(q.args[1])
    df = kw.get("df", pos[1] if len(pos) > 1 else None)
    ok = root and inner is q
    rep.check(ok, "size-formula", cls.name + ".root", loc, "the size is not the root of the quantile")
    n = columns(df)
    want = 1 if kind == "mu" else 2
    rep.check(None if n is None else n == want, "size-formula", cls.name + ".dimension", loc,
              f"the quantile has {n} times the number of assets as exponent of its dimension, {want} expected")
    groups.setdefault(kind, {})[cls.name] = (root, n, q.args[0].args[0])


def columns(t):
    """Exponent of the number of assets in a term."""
    if t is None:
        return None
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return 1 if is_const(t.args[1]) and cval(t.args[1]) in (1, -1) else None
    if is_call(t, "len"):
        x = t.args[1][0]
        return 1 if x.op == "attr" and x.args[1] == "mu" else None
    if t.op == "bin" and t.args[0] == "**" and is_const(t.args[2]):
        n = columns(t.args[1])
        return None if n is None else n * cval(t.args[2])
    if t.op == "bin" and t.args[0] == "*":
        a, b = columns(t.args[1]), columns(t.args[2])
        return None if None in (a, b) else a + b
    return None


def rows(t):
    """The number of observations."""
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return any(x.op == "attr" and x.args[1] == "returns" for x in walk(t))
    return is_call(t, "len") and t.args[1] and any(x.op == "attr" and x.args[1] == "returns" for x in walk(t.args[1][0]))


def permutation(t):
    return t.op == "call" and t.args[0].op == "fn" and t.args[0].args[0].endswith("." + OPAQUE[0])


def per_observation(t):
    """The power of the number of observations a shape grows with, or None."""
    f = per_observation
    if not any(rows(x) for x in walk(t)):
        return 0
    if rows(t):
        return 1
    if t.op == "neg":
        return f(t.args[0])
    if t.op == "bin":
        op, a, b = t.args[0], f(t.args[1]), f(t.args[2])
        if op in ("+", "-"):
            # an identity plus a permutation, n minus a number
            if a is None or b is None:
                return None
            return max(a, b) if (a >= 0 and b >= 0) or a == b else None
        if a is None or b is None:
            return None
        if op in ("*", "@"):
            return a + b
        if op == "/":
            return a - b
        if op == "**" and is_const(t.args[2]):
            return a * cval(t.args[2])
        return None
    if is_call(t, "numpy.diag", "numpy.asarray", "numpy.array", "numpy.real", "numpy.diagonal") and t.args[1]:
        return f(t.args[1][0])
    if is_call(t, "numpy.kron", "numpy.dot", "numpy.matmul", "numpy.multiply") and len(t.args[1]) == 2:
        a, b = f(t.args[1][0]), f(t.args[1][1])
        return None if a is None or b is None else a + b
    if is_call(t, "numpy.sqrt"):
        a = f(t.args[1][0])
        return None if a is None else a / 2
    if permutation(t):
        return 0
    if is_call(t, "numpy.cov"):
        # the covariance of a sample of estimates
        return 0 if not any(x.op == "bin" and x.args[0] in "*/" and any(rows(y) for y in x.args[1:]) for x in walk(t)) else None
    return None


def shape(rep, cls, kind, sigma, loc, diagonal):
    if sigma is None:
        rep.undecided("shape", cls.name, loc, "no shape")
        return
    inst = f"{cls.name}[diagonal={diagonal}]"
    # covariance entering, other than through the simulated or estimation-error sample
    err = [x for x in walk(sigma) if is_call(x, "numpy.cov")]
    if err:
        rep.ok("shape", inst, loc)
        arg = err[0]
        dev = [x for x in walk(arg) if x.op == "bin" and x.args[0] == "-"]
        rep.check(bool(dev), "shape", inst + ".error", loc,
                  "the shape is not the covariance of the deviation from the estimate")
    else:
        pol = Polarity(lambda t: t.op == "attr" and t.args[1] == "covariance")
        s = pol(rebuild(sigma, lambda x: const(1) if permutation(x) else x))
        rep.check(None if "?" in s or not s else set(s) <= {"+", "m+"}, "shape", inst, loc,
                  "the covariance enters the shape with a negative sign")
        rows = Polarity(lambda t: t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape"
                        and is_const(t.args[1]) and cval(t.args[1]) == 0)
        rep.check(rows.depends(sigma), "shape", inst + ".observations", loc,
                  "the shape does not depend on the number of observations")
    n = per_observation(sigma)
    # a bootstrapped error has the size it has, a closed form shrinks with the sample
    rep.check(None if n is None else n == (0 if err else -1), "shape", inst + ".sample", loc,
              f"the shape grows with the number of observations to the power {n}")
    outer = is_call(sigma, "numpy.diag") and is_call(sigma.args[1][0], "numpy.diag")
    some = any(is_call(x, "numpy.diag") and x.args[1] and is_call(x.args[1][0], "numpy.diag") for x in walk(sigma))
    if diagonal:
        rep.check(some, "shape", inst + ".diagonal", loc, "the shape is not reduced to its diagonal")
    elif kind == "mu" or err:
        rep.check(not outer, "shape", inst + ".full", loc,
                  "the shape is reduced to its diagonal although this was not asked for")
