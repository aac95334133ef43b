"""C10: costs and fees are subtracted from returns, once, everywhere."""

from sa.convex import (
    OPTIMISERS, Model, Pretty, enum_member, fixed_by_constructor, is_call, options_off,
)  # fmt: skip
from sa.folds import IDENTITY, PRODUCT, Polarity, cone, occurrences, orient
from sa.vg import Evaluator, T, const, cval, guard_atoms, is_const, mk, walk

COSTS = ("transaction_costs", "management_fees")
#: risk measures whose return series is net of costs
NET_RISKS = (
    "CVAR", "EVAR", "WORST_REALIZATION", "MAX_DRAWDOWN", "AVERAGE_DRAWDOWN", "CDAR",
    "EDAR", "ULCER_INDEX", "GINI_MEAN_DIFFERENCE",
)  # fmt: skip
PASSED = ("transaction_costs", "management_fees", "previous_weights", "risk_free_rate")
PLUS, MINUS = {"+", "m+"}, {"-", "m-"}


def check(P, rep):
    rep.rule("net-expected-return", "wherever the optimiser uses the expected return, costs and "
             "fees enter once with the opposite sign", need=14)
    rep.rule("net-series", "wherever a tail or drawdown risk uses the return series, costs and "
             "fees enter once with the opposite sign", need=24)
    rep.rule("traded-volume", "transaction costs are charged on the absolute difference between "
             "weights and previous weights", need=4)
    rep.rule("charged", "costs are left out of the problem only where all of them are zero", need=0)
    rep.rule("portfolio-net", "portfolio returns are net of costs and fees", need=3)
    rep.rule("predict-passes", "the predicted portfolio gets the optimiser's costs, fees and "
             "previous weights", need=8)
    rep.rule("risk-net", "portfolios built to measure risk get the optimiser's costs and fees", need=0)
    for name in OPTIMISERS:
        cls = P.cls(name)
        params = cls.init().params()
        fixed = fixed_by_constructor(P, cls)
        for prm in COSTS:
            if prm not in params:
                continue
            if "objective_function" in params:
                for o in P.cls("ObjectiveFunction").enum_members():
                    if o == "MINIMIZE_RISK":
                        continue
                    expected(P, rep, cls, fixed, prm, {
                        "objective_function": enum_member(P, "ObjectiveFunction", o)}, o)
            elif name == "MaximumDiversification":
                pass
            if "min_return" in params and name != "MaximumDiversification":
                expected(P, rep, cls, fixed, prm, {}, "min_return", ("min_return",))
            if "risk_measure" in params:
                for r in NET_RISKS:
                    series(P, rep, cls, fixed, prm, r)
    portfolio(P, rep)
    from_assets(P, rep)
    for c in P.classes.values():
        if c.is_subclass(P.cls("BaseOptimization").qual) and not c.is_abstract():
            predict(P, rep, c)
            inner(P, rep, c)


def inner(P, rep, cls):
    """Portfolios an optimisation builds to measure its own risk bear the same costs."""
    f, mro = cls.find_method("fit"), {k.qual for k in cls.repo_mro()}
    params = cls.init().params()
    if not set(PASSED) & set(params):
        return
    ev = Evaluator(P, budget=2_000_000, inline=lambda f: f.cls is None or f.cls.qual in mro)
    ev.run(f, cls=cls)
    rep.saw(ev)
    for e in ev.effects:
        if e.kind == "call" and e.data[0].op == "cls" and e.data[0].args[0] == P.cls("Portfolio").qual:
            for prm in PASSED[:3]:
                if prm in params:
                    rep.check(passes(given(P, e), prm), "risk-net", f"{cls.name}[{prm}]", e.loc,
                              f"the risk is that of a portfolio without `{prm}`")


def target_given(m, name):
    g = mk("given", name)
    tied = {p for p, vs in m.bound.items() if any(x is g for v in vs for x in walk(v))}
    return lambda t: t is g or t in tied


def scalar(v):
    """Configuration value that makes the option a given array."""
    return mk("given", v)


def weighted(field):
    """Product of a prior model's field with something else (the weights)."""

    def pred(t):
        if t.op == "bin" and t.args[0] in ("@", "*"):
            xs = t.args[1:]
        elif is_call(t, *PRODUCT):
            xs = t.args[1]
        else:
            return False
        return any(is_field(x, field) for x in xs)

    return pred


def is_field(t, field):
    while (t.op == "attr" and t.args[1] in ("T", "values")) or (
        is_call(t, *IDENTITY) and t.args[1]
    ):
        t = t.args[0] if t.op == "attr" else t.args[1][0]
    return t.op == "attr" and t.args[1] == field


def parts(m):
    """Expressions of the problem whose sign is meaningful: (expr pairs, loc)."""
    for s, o, _ in m.problem.objectives():
        yield (o, None), o.loc
    for c, _ in m.constraints:
        k, ab = orient(c)
        if k in ("<=", "=="):
            yield ab, c.loc
        elif cone(c):
            for x in c.args[1]:
                if hasattr(x, "op"):
                    yield (x, None), c.loc


def pair_polarity(ab, pol):
    a, b = ab
    r = set(pol(a))
    if b is not None:
        flip = {"+": "-", "-": "+", "m+": "m-", "m-": "m+", "?": "?"}
        r |= {flip[x] for x in pol(b)}
    return r


def opposite(rep, rule, m, prm, base, inst):
    """In each expression reading ``base`` and being net, costs have its opposite sign."""
    pb, pc = Polarity(base), Polarity(target_given(m, prm))
    pp = Pretty()
    n = 0
    for ab, loc in parts(m):
        b, c = pair_polarity(ab, pb), pair_polarity(ab, pc)
        if not c or not b:
            continue
        n += 1
        if "?" in b or "?" in c or len(b) != 1:
            rep.undecided(rule, inst, loc, f"signs {sorted(b)} and {sorted(c)}")
            continue
        want = MINUS if b <= PLUS else PLUS
        rep.check(c <= want, rule, inst, loc,
                  f"`{prm}` does not reduce the return: sign {sorted(c)} where the return has {sorted(b)}")
        k = sum(occurrences(x, target_given(m, prm)) for x in ab if x is not None)
        kb = sum(occurrences(x, base) for x in ab if x is not None)
        rep.check(k == kb, rule, inst, loc,
                  f"`{prm}` enters {k} times for {kb} occurrence(s) of the return")
    return n


def expected(P, rep, cls, fixed, prm, extra, label, also=()):
    inst = f"{cls.name}[{label}].{prm}"
    keep = (prm, "previous_weights", *also) if prm == "transaction_costs" else (prm, *also)
    attrs = options_off(cls, {**fixed, **extra}, keep)
    if "risk_measure" in cls.init().params():
        attrs["risk_measure"] = enum_member(P, "RiskMeasure", "STANDARD_DEVIATION")
    m = Model(P, cls, attrs)
    rep.saw(m.ev)
    mu = weighted("mu")
    n = opposite(rep, "net-expected-return", m, prm, mu, inst)
    rep.check(n > 0, "net-expected-return", inst, m.problem.loc,
              f"`{prm}` does not enter the expected return that is optimised or limited")
    charged(rep, m, prm, inst)
    if prm == "transaction_costs":
        volume(rep, m, inst)


def charged(rep, m, prm, inst):
    """Where one of two alternatives is zero, the condition says that every cost is."""
    g = mk("given", prm)
    seen = set()
    for ab, loc in parts(m):
        for x in ab:
            for t in walk(x, into_cond=False) if x is not None else ():
                if t.op != "phi" or t in seen:
                    continue
                seen.add(t)
                for a, b, pol in ((t.args[1], t.args[2], True), (t.args[2], t.args[1], False)):
                    if not nothing(a) or not any(y is g for y in walk(b, into_cond=False)):
                        continue
                    got = [truth(t.args[0], v, g) for v in ((0, 1), (1, 1), (1, 0))]
                    left = [v is not None and v == pol for v in got]
                    rep.check(
                        False if any(left) else None if None in got else True,
                        "charged", inst, t.loc or loc,
                        f"`{prm}` is left out of the problem although some of it is not zero",
                    )  # fmt: skip


def nothing(t):
    if is_call(t, "cvxpy.Constant") and t.args[1]:
        t = t.args[1][0]
    return is_const(t) and cval(t) == 0


COMPARE = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}  # fmt: skip


def truth(c, v, g):
    """A condition for given costs of the assets: a truth value, a tuple of them, or None."""
    if c.op == "not" or c.op == "un" and c.args[0] in ("not", "~"):
        r = truth(c.args[-1], v, g)
        return None if r is None else tuple(not x for x in r) if isinstance(r, tuple) else not r
    if c.op in ("and", "or"):
        rs = [truth(x, v, g) for x in c.args]
        rs = [x if not isinstance(x, tuple) else None for x in rs]
        stop = c.op == "or"
        return stop if stop in rs else None if None in rs else not stop
    if c.op == "cmp":
        op, a, b = c.args
        if op in ("is", "is not"):
            return (op == "is not") if is_const(b) and cval(b) is None else None
        if op in COMPARE and is_const(b) and isinstance(cval(b), (int, float)):
            x = truth(a, v, g)
            if x is None:
                return None
            return tuple(COMPARE[op](y, cval(b)) for y in x) if isinstance(x, tuple) else COMPARE[op](x, cval(b))
        return None
    if c.op == "call":
        f, args = c.args[0], list(c.args[1])
        name = str(f.args[-1]).rsplit(".", 1)[-1]
        arg = f.args[0] if f.op == "meth" else args[0] if len(args) == 1 else None
        if name in ("any", "all", "count_nonzero", "sum", "max", "min", "bool") and arg is not None and not c.args[2]:
            x = truth(arg, v, g)
            if not isinstance(x, tuple):
                return x
            fn = {"any": any, "all": all, "count_nonzero": lambda y: sum(map(bool, y)), "sum": sum, "max": max, "min": min}
            return fn[name](x) if name in fn else None
        if name in ("abs", "absolute") and arg is not None:
            return truth(arg, v, g)
    if any(x is g for x in walk(c)) and c.op not in ("bin", "sub"):
        return v
    return None


def volume(rep, m, inst):
    """|previous - w|, order one, somewhere below the costs."""
    gp = mk("given", "previous_weights")
    seen = set()
    for ab, loc in parts(m):
        for x in ab:
            if x is None:
                continue
            for t in walk(x, into_cond=False):
                if t in seen or not is_call(t, "cvxpy.norm", "cvxpy.norm1", "cvxpy.abs", "cvxpy.pnorm"):
                    continue
                seen.add(t)
                if not any(y is gp for y in walk(t, into_cond=False)):
                    continue
                pw, pv = Polarity(lambda y: y is m.w), Polarity(lambda y: y is gp)
                a = t.args[1][0]
                s, v = pw(a), pv(a)
                order = True
                if is_call(t, "cvxpy.norm", "cvxpy.pnorm"):
                    o = dict(t.args[2]).get("p") or (t.args[1][1] if len(t.args[1]) > 1 else None)
                    order = o is not None and o.op == "const" and o.args[0].v == 1
                ok = len(s) == len(v) == 1 and s != v and order
                rep.check(None if "?" in s | v else bool(ok), "traded-volume", inst, t.loc,
                          "the cost is not charged on |previous weights - weights|")


def series(P, rep, cls, fixed, prm, r):
    inst = f"{cls.name}[{r}].{prm}"
    keep = (prm, "previous_weights") if prm == "transaction_costs" else (prm,)
    attrs = options_off(cls, fixed, keep)
    attrs["risk_measure"] = enum_member(P, "RiskMeasure", r)
    if "objective_function" in cls.init().params():
        attrs["objective_function"] = enum_member(P, "ObjectiveFunction", "MINIMIZE_RISK")
    m = Model(P, cls, attrs)
    rep.saw(m.ev)
    ret = weighted("returns")
    n = opposite(rep, "net-series", m, prm, ret, inst)
    warned = n == 0 and warns(m) - warns(Model(P, cls, {**attrs, prm: const(0)}))
    if warned:  # a relaxation the user is told about
        rep.undecided("net-series", inst, m.problem.loc, "left out with a warning")
    else:
        rep.check(n > 0, "net-series", inst, m.problem.loc,
                  f"`{prm}` does not enter the return series of the risk measure")
    if prm == "transaction_costs":
        volume(rep, m, inst)


def warns(m):
    return {
        e.loc for e in m.ev.effects
        if e.kind == "call" and e.data[0].op == "ext" and e.data[0].args[0] == "warnings.warn"
    }  # fmt: skip


def portfolio(P, rep):
    cls = P.cls("Portfolio")
    ev = Evaluator(P, budget=2_000_000)
    args = {p: mk("given", p) for p in ("transaction_costs", "management_fees",
                                        "previous_weights", "weights")}
    ev.run(cls.init(), cls=cls, args=args)
    rep.saw(ev)
    stores = [e for e in ev.effects if e.kind == "store" and e.data[1] == "returns" and e.data[0].op == "self"]
    if not stores:
        rep.bad("portfolio-net", "Portfolio.returns", cls.loc, "returns is never set")
    for e in stores:
        v = e.data[2]
        for prm in COSTS:
            g = mk("given", prm)
            pol = Polarity(lambda t, g=g: t is g)
            p = pol(v)
            if "?" in p:
                rep.undecided("portfolio-net", f"Portfolio.{prm}", e.loc, "")
                continue
            k = occurrences(v, lambda t, g=g: t is g)
            rep.check(p != set() and p <= MINUS and k == 1, "portfolio-net", f"Portfolio.{prm}", e.loc,
                      f"portfolio returns contain `{prm}` with sign {sorted(p)}, {k} time(s)")
            gap = missing(v, g)
            rep.check(None if gap is UNCLEAR else gap is None, "portfolio-net", f"Portfolio.{prm}:always", e.loc,
                      f"portfolio returns leave `{prm}` out although it is not zero")
        gp, gw = mk("given", "previous_weights"), mk("given", "weights")
        n = 0
        for t in walk(v, into_cond=False):
            if is_call(t, "abs", "numpy.abs", "numpy.linalg.norm"):
                a = t.args[1][0]
                s, q = Polarity(lambda y: y is gw)(a), Polarity(lambda y: y is gp)(a)
                if q:
                    n += 1
                    rep.check(None if "?" in s | q else len(s) == len(q) == 1 and s != q,
                              "portfolio-net", "Portfolio.previous_weights", t.loc,
                              "costs are not charged on |previous weights - weights|")
        rep.check(n > 0, "portfolio-net", "Portfolio.previous_weights", e.loc,
                  "costs do not depend on the traded volume")


UNCLEAR = object()


def missing(t, g, path=()):
    """Conditions under which a value does not contain the cost ``g`` although it is not zero."""
    if t is g:
        return None
    has = lambda x: isinstance(x, T) and any(y is g for y in walk(x, into_cond=False))  # noqa: E731
    if t.op == "phi":
        for x, pol in ((t.args[1], True), (t.args[2], False)):
            here = (*path, *guard_atoms(t.args[0], pol))
            r = missing(x, g, here) if has(x) else (None if any(zero(c, p, g) for c, p in here) else here)
            if r is not None:
                return r
        return None
    if t.op == "bin" and t.args[0] == "*" and any(is_const(x) and cval(x) == 0 for x in t.args[1:]):
        return None if any(zero(c, p, g) for c, p in path) else path
    inside = [x for x in flat(t.args) if has(x)]
    if len(inside) != 1:
        return UNCLEAR
    return missing(inside[0], g, path)


def flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flat(y)
        else:
            yield y


def zero(c, pol, g):
    """Whether a condition says that the cost is zero, absent or empty."""
    if c.op in ("or", "and"):
        if (c.op == "or") == pol:
            return all(zero(x, pol, g) for x in c.args)
        return any(zero(x, pol, g) for x in c.args)
    if c.op == "not":
        return zero(c.args[0], not pol, g)
    if not any(x is g for x in walk(c)):
        return False
    if c.op == "cmp":
        op, a, b = c.args
        if any(is_const(x) and cval(x) in (0, None) for x in (a, b)):
            return op in ("==", "is") if pol else op in ("!=", "is not", ">")
        return False
    if c.op == "call":
        name = str(c.args[0].args[-1]).rsplit(".", 1)[-1]
        return not pol and name in ("any", "count_nonzero", "bool") or pol and name in ("allclose", "isclose")
    return c is g and not pol


def from_assets(P, rep):
    """The expected return of a portfolio computed from expected asset returns is net as well."""
    cls = P.cls("Portfolio")
    f = cls.find_method("expected_returns_from_assets")
    if f is None:
        return
    ev = Evaluator(P)
    v = ev.run(f, cls=cls)
    rep.saw(ev)
    for prm, names in (("transaction_costs", ("total_cost", "transaction_costs")), ("management_fees", ("total_fee", "management_fees"))):
        p = Polarity(lambda t, names=names: t.op == "attr" and t.args[0].op == "self" and t.args[1] in names)(v)
        rep.check(None if "?" in p else p != set() and p <= MINUS, "portfolio-net", f"Portfolio.{f.name}.{prm}", f.loc,
                  f"the expected return contains `{prm}` with sign {sorted(p)}")


def predict(P, rep, cls):
    f = cls.find_method("predict")
    ev = Evaluator(P, budget=2_000_000, inline=lambda f: f.cls is None or cls.is_subclass(f.cls.qual))
    ev.run(f, cls=cls)
    rep.saw(ev)
    params = cls.init().params()
    news = [e for e in ev.effects if e.kind == "call" and e.data[0].op == "cls"
            and e.data[0].args[0] == P.cls("Portfolio").qual]
    for e in news:
        kw = given(P, e)
        for prm in PASSED:
            if prm not in params:
                continue
            inst = f"{cls.name}.predict[{prm}]"
            ok = passes(kw, prm)
            rep.check(ok, "predict-passes", inst, e.loc,
                      f"the predicted portfolio does not get `{prm}` of the optimiser")


def given(P, e):
    """The arguments of a constructor call by name."""
    init = P.classes[e.data[0].args[0]].init()
    return dict(zip(init.params() if init is not None else (), e.data[1])) | dict(e.data[2])


def passes(kw, prm):
    me = lambda t: t.op == "attr" and t.args[0].op == "self" and t.args[1] == prm  # noqa: E731
    if prm in kw:
        return any(me(t) for t in walk(kw[prm]))
    for k, v in kw.items():
        if k.startswith("**"):
            if any(me(t) for t in walk(v)):
                return True
            return None if v.op in ("top", "in") else False
    return False
