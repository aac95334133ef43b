"""C38: the optimisation problem accepts and values weights as the options say.

The problem an optimiser builds is extracted from the source for each option; at arbitrary
data and weights, whether its constraints can be met, and the least value its risk can take,
are compared with the documented meaning of the option and with the definition of the measure.
"""

import math

from checks import c36
from sa import matrix as mx
from sa.convex import OPTIMISERS, Model, enum_member, fixed_by_constructor, is_call, is_variable, options_off
from sa.index import AnalysisBroken
from sa.matrix import A, Points, Unknown, close, matmul, scalar, transpose, vector
from sa.program import Aff, Reader, least
from sa.vg import const, cval, is_const, mk, walk

N, OBS = 3, 7
UNSAID = {"members", "most", "a_eq", "b_eq", "a_ineq", "b_ineq"}
SCALE = mk("given", "scale")
FAILED = (Unknown, ArithmeticError, AttributeError, LookupError, TypeError, ValueError)
OPAQUE = ("input_to_array", "group_cardinalities_to_matrix", "equations_to_matrix")
COSTS = {
    "no costs": {},
    "costs": {"transaction_costs": 0.03, "previous_weights": vector([0.5, -0.1, 0.2]), "management_fees": 0.02},
    "costs by asset": {
        "transaction_costs": vector([0.03, 0.0, 0.05]), "previous_weights": vector([0.5, -0.1, 0.2]), "management_fees": vector([0.01, 0.04, 0.0]),
    },
}  # fmt: skip


def check(P, rep):
    rep.rule("risk-value", "the value minimised for given weights is the risk measure of the net returns", need=8)
    rep.rule("accepted", "weights are accepted exactly when they respect the limit that is set", need=15)
    rep.rule("objective-value", "expected return, utility and ratio are those of the net returns", need=2)
    for r, meaning in RISKS.items():
        for label, costs in COSTS.items():
            risk(P, rep, "MeanRisk", r, meaning, label, costs)
            risk(P, rep, "MeanRisk", r, meaning, label, costs, "MAXIMIZE_RATIO")
            risk(P, rep, "RiskBudgeting", r, meaning, label, costs)
    for one in OPTIMISERS:
        cls = P.cls(one)
        for label, options, meaning in limits():
            if set(options) - UNSAID <= {*cls.init().params()}:
                for objective in ("MINIMIZE_RISK", "MAXIMIZE_RATIO") if one == "MeanRisk" else (None,):
                    limit(P, rep, cls, label, options, meaning, objective)
    for label, costs in COSTS.items():
        returns(P, rep, label, costs)
        ratio(P, rep, label, costs)


class World:
    def __init__(self, seed, options, base):
        p = Points(seed)
        self.X = p.matrix(OBS, N, -0.3, 0.3)
        if options.get("rising"):
            self.X = A(self.X.shape, [abs(v) + 0.05 for v in self.X.data])
        self.y = p.vector(OBS, -0.3, 0.3)
        self.mu = vector([math.fsum(c) / OBS for c in cols(self.X)])
        self.cov = mx.cov(self.X, 1, False)
        self.options = {
            "scale": 1.0,
            "cvar_beta": 0.7,
            "cdar_beta": 0.7,
            "risk_budget": None,
            "risk_free_rate": 0.0,
            **base,
            **options,
        }
        self.fixed = {}

    def __call__(self, t):
        for k, v in self.fixed.items():
            if t is k:
                return (v,)
        if t.op == "given":
            return (self.options[t.args[0]],) if t.args[0] in self.options else None
        if t.op == "in":
            n = t.args[0] if isinstance(t.args[0], str) else t.args[-1]
            return (getattr(self, n),) if n in ("X", "y") else None
        if t.op == "attr":
            obj, n = t.args
            if obj.op == "self" and n in self.options:
                return (self.options[n],)
            if n in ("returns", "mu", "covariance", "cholesky") and obj.op == "attr" and obj.args[1] == "prior_model_":
                return ({"returns": self.X, "mu": self.mu, "covariance": self.cov, "cholesky": None}[n],)
            return None
        if t.op == "enum":
            return (str(t.args[-1]),)
        if t.op == "call":
            n = name_of(t)
            if n == "validate_data":
                return ((self.X, self.y),) if len(t.args[1]) > 2 else (self.X,)
            if n == "group_cardinalities_to_matrix":
                return ((self.options["members"], self.options["most"]),)
            if n == "equations_to_matrix":
                return (tuple(self.options[k] for k in ("a_eq", "b_eq", "a_ineq", "b_ineq")),)
            if n == "hasattr":
                return (False,)
            if n == "input_to_array":
                items = dict(t.args[2]).get("items") or (t.args[1][0] if t.args[1] else None)
                if items is not None and items.op == "given":
                    v = self.options.get(items.args[0])
                    return (v,) if isinstance(v, A) else None
        return None

    def net(self, x):
        """Net returns of weights."""
        cost = self.costs(x)
        return [r - cost for r in matmul(self.X, x).data]

    def costs(self, x):
        o = self.options
        tc, mf = each(o.get("transaction_costs", 0.0)), each(o.get("management_fees", 0.0))
        prev = each(o.get("previous_weights", 0.0))
        return sum(c * abs(a - b) for c, a, b in zip(tc, x.data, prev, strict=True)) + sum(
            f * a for f, a in zip(mf, x.data, strict=True)
        )


def cols(x):
    return [r.data for r in mx.rows(transpose(x))]


def each(v):
    return list(v.data) if isinstance(v, A) else [v or 0.0] * N


def name_of(t):
    f = t.args[0]
    if f.op in ("ext", "fn"):
        return str(f.args[0]).rpartition(".")[2]
    return f.args[1] if f.op in ("meth", "attr", "bound") and isinstance(f.args[1], str) else ""


def build(P, cls, options, extra, solver=None):
    base = fixed_by_constructor(P, cls)
    base["scale_constraints"] = base["scale_objective"] = SCALE
    for k in ("l1_coef", "l2_coef"):
        if k in cls.init().params() and k not in options:
            base[k] = const(0)
    if solver:
        base["solver"] = const(solver)
    if "risk_free_rate" in cls.init().params():
        base["risk_free_rate"] = mk("given", "risk_free_rate")
    base.update(extra)
    base.update({k: mk("given", k) for k in options})
    f = [f.qual for f in P.funcs.values() if f.cls is None and f.name in OPAQUE]
    m = Model(P, cls, options_off(cls, base), no_inline=tuple(f))
    return m, {k: cval(v) for k, v in base.items() if is_const(v)}


def live(m, read, kept=None):
    """Constraints that are part of the problem under the chosen options."""
    return [c for c, g in m.constraints if (kept is None or any(c is d for d in kept)) and all(read.truth(t) == p for t, p in g)]


def depends(m, c, stop):
    todo, seen = [c], set()
    while todo:
        for x in walk(todo.pop()):
            if stop(x):
                return True
            if is_call(x, "cvxpy.Parameter") and x not in seen:
                seen.add(x)
                todo += list(m.bound.get(x, ()))
    return False


def about(m, options):
    """Constraints that state the options, with those that say what their variables stand for."""
    known = [m.w, *m.factor_terms()]
    rest = [c for c, _ in m.constraints if not depends(m, c, lambda t: t is given("risk_free_rate"))]
    parts = {id(c): {t for t in walk(c) if is_variable(t) and not any(t is v for v in known)} for c in rest}
    kept = [c for c in rest if depends(m, c, lambda t: t.op == "given" and t.args[0] in options)]
    while True:
        used = set().union(*(parts[id(c)] for c in kept))
        more = [c for c in rest if not any(c is d for d in kept) and parts[id(c)] & used]
        if not more:
            return kept
        kept += more


def given(n):
    return mk("given", n)


def reader(m, w, x, k):
    w.fixed = {m.w: A(x.shape, [k * v for v in x.data])}
    if m.factor is not None:
        for f in m.factor_terms():
            if is_variable(f):
                w.fixed[f] = k
    return Reader(w, m.bound)


def points(seed, positive=False):
    p = Points(1000 + seed)
    out = [vector([0.5, 0.3, 0.2]), vector([0.7, 0.3, 0.0]), vector([1.0, 0.0, 0.0]), vector([0.05, 0.15, 0.8]), vector([0.31, 0.29, 0.4]),
           vector([0.6, 0.6, 0.1]), vector([0.2, 0.1, 0.15])]  # fmt: skip
    if not positive:
        out += [
            vector([0.8, -0.3, 0.5]),
            vector([-0.05, 0.55, 0.5]),
            vector([-0.4, 0.9, 0.5]),
            vector([0.0, 1.3, -0.3]),
            vector([0.6, -0.15, 0.0]),
        ]
    out += [p.vector(N, 0.02 if positive else -0.6, 0.9) for _ in range(8)]
    return [x for x in out if not positive or min(x.data) > 0]


def risk(P, rep, one, r, meaning, label, costs, objective="MINIMIZE_RISK"):
    cls = P.cls(one)
    inst = f"{one}[{r}, {label}{', ratio' if objective == 'MAXIMIZE_RATIO' else ''}]"
    if not set(costs) <= set(cls.init().params()):
        return
    extra = {"risk_measure": enum_member(P, "RiskMeasure", r)}
    if "objective_function" in cls.init().params():
        extra["objective_function"] = enum_member(P, "ObjectiveFunction", objective)
    try:
        m, base = build(P, cls, costs, extra)
    except AnalysisBroken as e:
        rep.undecided("risk-value", inst, cls.loc, str(e))
        return
    rep.saw(m.ev)
    k = 100.0 if one == "RiskBudgeting" else 1.7 if any(is_variable(f) for f in m.factor_terms()) else 1.0
    for seed, opt in enumerate(OPTIONS.get(r, [{}])):
        w = World(seed, {**costs, **opt}, {"min_acceptable_return": None, **base})
        for x in points(seed, one == "RiskBudgeting")[:9]:
            try:
                got = value(m, w, x, k)
            except FAILED as e:
                rep.undecided("risk-value", inst, m.problem.loc, f"not decided: {e}")
                return
            want = meaning(w, x) * k ** (2 if r in ("VARIANCE", "SEMI_VARIANCE") else 1)
            if got is None or not close(got, want, 1e-5):
                rep.bad(
                    "risk-value", inst, m.problem.loc,
                    f"weights {[round(v, 2) for v in x.data]} get the value {show(got)} where the measure of their net returns is {want:.6g}{note(opt)}",
                )  # fmt: skip
                return
    rep.ok("risk-value", inst)


def note(opt):
    return "" if not opt else " with " + ", ".join(f"{k}={v}" for k, v in opt.items())


def show(v):
    return "none" if v is None else f"{v:.6g}"


def value(m, w, x, k=1.0):
    read = reader(m, w, x, k)
    objs = [(s, o) for s, o, cond in m.problem.objectives() if all(read.truth(t) == p for t, p in cond)]
    if len(objs) != 1:
        raise Unknown("several objectives")
    sense, o = objs[0]
    obj = scalar(read(o))
    if isinstance(obj, A) and len(obj.data) == 1:
        obj = obj.data[0]
    rels = [v for c in live(m, read) for v in read.relations(c) if not isinstance(v[1], (int, float))]
    if sense == "Maximize":
        if not isinstance(obj, (int, float, Aff)):
            raise Unknown("objective")
        obj = -obj
    v = least(obj, rels, read.nonneg, read.boolean)
    return v if v is None or sense == "Minimize" else -v


def limit(P, rep, cls, label, options, meaning, objective):
    inst = f"{cls.name}[{label}{', ' + objective if objective else ''}]"
    extra = {}
    if objective:
        extra["objective_function"] = enum_member(P, "ObjectiveFunction", objective)
    if "risk_measure" in cls.init().params():
        extra["risk_measure"] = enum_member(
            P, "RiskMeasure", "WORST_REALIZATION" if label.startswith("max_") and "variance" in label else "VARIANCE"
        )
    if (
        cls.name == "RiskBudgeting"
        and "risk_measure" in extra
        and any(k.startswith("max_") and k[4:] in LIMITED for k in options)
    ):
        return
    mip = {"cardinality", "group_cardinalities", "threshold_long", "threshold_short"} & set(options)
    try:
        m, base = build(P, cls, options, extra, "SCIP" if mip else None)
    except AnalysisBroken as e:
        rep.undecided("accepted", inst, cls.loc, str(e))
        return
    rep.saw(m.ev)
    positive = cls.name == "RiskBudgeting"
    k = 100.0 if positive else 1.7 if any(is_variable(f) for f in m.factor_terms()) else 1.0
    kept = about(m, options)
    seen = set()
    for seed in range(2):
        w = World(seed, options, {"min_acceptable_return": None, **base})
        for x in points(seed, positive):
            want = meaning(w, x)
            if want is None:
                continue
            try:
                read = reader(m, w, x, k)
                rels = [v for c in live(m, read, kept) for v in read.relations(c)]
                got = least(0.0, rels, read.nonneg, read.boolean) is not None
            except FAILED as e:
                rep.undecided("accepted", inst, m.problem.loc, f"not decided: {e}")
                return
            if got != want:
                rep.bad(
                    "accepted", inst, m.problem.loc,
                    f"weights {[round(v, 2) for v in x.data]} are {'accepted' if got else 'refused'} though they {'break' if got else 'respect'} the limit",
                )  # fmt: skip
                return
            seen.add(got)
    if len(seen) == 2:
        rep.ok("accepted", inst)
    else:
        rep.undecided("accepted", inst, m.problem.loc, f"the limit is always {'met' if True in seen else 'broken'}")


def returns(P, rep, label, costs):
    """Expected return and utility."""
    cls = P.cls("MeanRisk")
    for objective in ("MAXIMIZE_RETURN", "MAXIMIZE_UTILITY"):
        for reg in ({}, {"l1_coef": 0.07, "l2_coef": 0.11}):
            inst = f"MeanRisk[{objective}, {label}{', regularised' if reg else ''}]"
            options = {**costs, **reg}
            if objective == "MAXIMIZE_UTILITY":
                options["risk_aversion"] = 2.5
            extra = {
                "objective_function": enum_member(P, "ObjectiveFunction", objective),
                "risk_measure": enum_member(P, "RiskMeasure", "CVAR"),
            }
            try:
                m, base = build(P, cls, options, extra)
            except AnalysisBroken as e:
                rep.undecided("objective-value", inst, cls.loc, str(e))
                continue
            rep.saw(m.ev)
            w = World(3, {**options, "cvar_beta": 0.7}, {"min_acceptable_return": None, **base})
            verdict, why = True, ""
            for x in points(3):
                try:
                    got = value(m, w, x)
                except FAILED as e:
                    verdict, why = None, f"not decided: {e}"
                    break
                want = sum(a * b for a, b in zip(w.mu.data, x.data, strict=True)) - w.costs(x)
                want -= reg.get("l1_coef", 0) * sum(abs(v) for v in x.data) + reg.get("l2_coef", 0) * sum(v * v for v in x.data)
                if objective == "MAXIMIZE_UTILITY":
                    want -= 2.5 * c36.cvar(w.net(x), 0.7)
                if got is None or not close(got, want, 1e-6):
                    verdict, why = (
                        False,
                        f"weights {[round(v, 2) for v in x.data]} are worth {show(got)} where they should be worth {want:.6g}",
                    )
                    break
            rep.check(verdict, "objective-value", inst, m.problem.loc, why)


def ratio(P, rep, label, costs):
    """Under the ratio objective, weights are scaled by their own excess return."""
    cls = P.cls("MeanRisk")
    inst = f"MeanRisk[MAXIMIZE_RATIO, {label}]"
    options = {**costs, "risk_free_rate": 0.015}
    extra = {
        "objective_function": enum_member(P, "ObjectiveFunction", "MAXIMIZE_RATIO"),
        "risk_measure": enum_member(P, "RiskMeasure", "VARIANCE"),
    }
    try:
        m, base = build(P, cls, options, extra)
    except AnalysisBroken as e:
        rep.undecided("objective-value", inst, cls.loc, str(e))
        return
    rep.saw(m.ev)
    w = World(5, options, {"min_acceptable_return": None, **base})
    kept = [c for c, g in m.constraints if depends(m, c, lambda t: t.op == "given" and t.args[0] == "risk_free_rate")]
    found = set()
    for x in points(5):
        excess = sum(a * b for a, b in zip(w.mu.data, x.data, strict=True)) - w.costs(x) - 0.015
        if abs(excess) < 1e-3:
            continue
        try:
            ends = []
            for k in (1.0, 2.0):
                read = reader(m, w, x, k)
                rels = [v for c in live(m, read, kept) for v in read.relations(c)]
                if len(rels) != 1 or not isinstance(rels[0][1], (int, float)):
                    raise Unknown("no single scaling")
                ends.append(rels[0][1])
        except FAILED as e:
            rep.undecided("objective-value", inst, m.problem.loc, f"not decided: {e}")
            return
        slope, start = ends[1] - ends[0], 2 * ends[0] - ends[1]
        found.add((round(slope / excess, 6), round(start, 9)))
    if not found:
        rep.undecided("objective-value", inst, m.problem.loc, "no scaling found")
        return
    rep.check(
        len(found) == 1 and abs(next(iter(found))[0]) > 1e-9,
        "objective-value",
        inst,
        m.problem.loc,
        "the scaling is not by the excess of the net expected return",
    )


# -- meanings -------------------------------------------------------------------------------


def near(slack):
    return None if abs(slack) < 1e-6 else slack > 0


def every(slacks):
    s = min(slacks)
    return None if abs(s) < 1e-6 else s > 0


def lower(name):
    return lambda w, x: every([v - b for v, b in zip(x.data, each(w.options[name]), strict=True)])


def upper(name):
    return lambda w, x: every([b - v for v, b in zip(x.data, each(w.options[name]), strict=True)])


def held(x):
    return sum(1 for v in x.data if abs(v) > 1e-9)


def within(w, x):
    return all(
        a - 1e-9 <= v <= b + 1e-9
        for v, a, b in zip(x.data, each(w.options["min_weights"]), each(w.options["max_weights"]), strict=True)
    )


def thresholds(w, x):
    if not within(w, x):
        return False
    o = w.options
    for v, a, b in zip(x.data, each(o.get("threshold_long", 0.0)), each(o.get("threshold_short", 0.0)), strict=True):
        if abs(v) < 1e-9:
            continue
        if v > 0 and v < a or v < 0 and v > b:
            return False
    return "cardinality" not in o or held(x) <= o["cardinality"]


def grouped(w, x):
    held = [float(abs(v) > 1e-9) for v in x.data]
    return thresholds(w, x) and all(
        a <= b for a, b in zip(matmul(w.options["members"], vector(held)).data, w.options["most"].data, strict=True)
    )


def tracking(w, x):
    e = [a - b for a, b in zip(matmul(w.X, x).data, w.y.data, strict=True)]
    return near(w.options["max_tracking_error"] - math.sqrt(sum(v * v for v in e) / (OBS - 1)))


def expected(w, x):
    return near(sum(a * b for a, b in zip(w.mu.data, x.data, strict=True)) - w.costs(x) - w.options["min_return"])


def inequalities(w, x):
    left = matmul(w.options["left_inequality"], x).data
    return every([b - a for a, b in zip(left, w.options["right_inequality"].data, strict=True)])


def total(x):
    return math.fsum(x.data)


def drawdowns(w, x):
    """Drawdowns of the cumulated net returns, from the start."""
    c = best = 0.0
    out = []
    for r in w.net(x):
        c += r
        best = max(best, c)
        out.append(c - best)
    return out


def gross(w, x):
    return matmul(w.X, x).data


def beta(w, name):
    return w.options[name]


RISKS = {
    "MEAN_ABSOLUTE_DEVIATION": lambda w, x: c36.deviation(gross(w, x)),
    "FIRST_LOWER_PARTIAL_MOMENT": lambda w, x: below(w, x, 1) / OBS,
    "VARIANCE": lambda w, x: c36.variance(gross(w, x)),
    "STANDARD_DEVIATION": lambda w, x: math.sqrt(c36.variance(gross(w, x))),
    "SEMI_VARIANCE": lambda w, x: below(w, x, 2) / (OBS - 1),
    "SEMI_DEVIATION": lambda w, x: math.sqrt(below(w, x, 2) / (OBS - 1)),
    "WORST_REALIZATION": lambda w, x: -min(w.net(x)),
    "CVAR": lambda w, x: c36.cvar(w.net(x), beta(w, "cvar_beta")),
    "MAX_DRAWDOWN": lambda w, x: -min(drawdowns(w, x)),
    "AVERAGE_DRAWDOWN": lambda w, x: -c36.mean(drawdowns(w, x)),
    "CDAR": lambda w, x: c36.cvar(drawdowns(w, x), beta(w, "cdar_beta")),
    "ULCER_INDEX": lambda w, x: math.sqrt(c36.mean([v * v for v in drawdowns(w, x)])),
    "GINI_MEAN_DIFFERENCE": lambda w, x: c36.gini(w.net(x)),
}
LIMITED = {r.lower() for r in RISKS}
OPTIONS = {
    "WORST_REALIZATION": [{}, {"rising": True}],
    "CVAR": [*({"cvar_beta": b} for b in (0.95, 0.7, 0.4)), {"cvar_beta": 0.7, "rising": True}],
    "CDAR": [{"cdar_beta": b} for b in (0.95, 0.7, 0.4)],
    "FIRST_LOWER_PARTIAL_MOMENT": [{}, {"min_acceptable_return": 0.02}, {"min_acceptable_return": vector([0.01, -0.02, 0.03])}],
    "SEMI_VARIANCE": [{}, {"min_acceptable_return": 0.02}, {"min_acceptable_return": vector([0.01, -0.02, 0.03])}],
    "SEMI_DEVIATION": [{}, {"min_acceptable_return": 0.02}, {"min_acceptable_return": vector([0.01, -0.02, 0.03])}],
}


def below(w, x, k):
    """Shortfall below the target of the portfolio, the weighted target of its assets."""
    t = w.options.get("min_acceptable_return")
    target = sum(a * b for a, b in zip(x.data, w.mu.data if t is None else each(t), strict=True))
    return c36.below(gross(w, x), target, k)


def limits():
    yield "min_weights", {"min_weights": 0.1}, lower("min_weights")
    yield "min_weights by asset", {"min_weights": vector([0.1, 0.2, -0.1])}, lower("min_weights")
    yield "max_weights", {"max_weights": 0.6}, upper("max_weights")
    yield "max_weights by asset", {"max_weights": vector([0.75, 0.4, 0.9])}, upper("max_weights")
    yield "budget", {"budget": 1.0}, lambda w, x: abs(total(x) - 1.0) < 1e-9
    yield "other budget", {"budget": 0.45}, lambda w, x: abs(total(x) - 0.45) < 1e-9
    yield "min_budget", {"min_budget": 0.9}, lambda w, x: near(total(x) - 0.9)
    yield "max_budget", {"max_budget": 1.1}, lambda w, x: near(1.1 - total(x))
    yield "max_long", {"max_long": 1.15}, lambda w, x: near(1.15 - sum(max(v, 0) for v in x.data))
    yield "max_short", {"max_short": 0.2}, lambda w, x: near(0.2 - sum(max(-v, 0) for v in x.data))
    prev = vector([0.4, 0.4, 0.2])
    yield (
        "max_turnover",
        {"max_turnover": 0.35, "previous_weights": prev},
        lambda w, x: every([0.35 - abs(a - b) for a, b in zip(x.data, prev.data, strict=True)]),
    )
    yield (
        "max_turnover from one value",
        {"max_turnover": 0.35, "previous_weights": 0.3},
        lambda w, x: every([0.35 - abs(a - 0.3) for a in x.data]),
    )
    yield "max_tracking_error", {"max_tracking_error": 0.22}, tracking
    yield "min_return", {"min_return": 0.01}, expected
    yield "min_return net of costs", {"min_return": 0.0, **COSTS["costs"]}, expected
    yield (
        "left_inequality",
        {"left_inequality": mx.matrix([[1.0, -1.0, 0.0], [0.5, 0.5, 1.0]]), "right_inequality": vector([0.3, 0.7])},
        inequalities,
    )
    box = {"min_weights": 0.0, "max_weights": 0.75}
    short = {"min_weights": -0.5, "max_weights": 0.75}
    yield "cardinality", {"cardinality": 2, **box}, thresholds
    yield "cardinality and shorts", {"cardinality": 2, **short}, thresholds
    yield "threshold_long", {"threshold_long": 0.25, **box}, thresholds
    yield "threshold_long by asset", {"threshold_long": vector([0.25, 0.1, 0.3]), **box}, thresholds
    yield "thresholds", {"threshold_long": 0.25, "threshold_short": -0.2, **short}, thresholds
    yield "thresholds and cardinality", {"threshold_long": 0.25, "threshold_short": -0.2, "cardinality": 2, **short}, thresholds
    named = {
        "groups": mx.matrix([[0.0, 1.0, 1.0]]),
        "members": mx.matrix([[1.0, 0.0, 0.0], [0.0, 1.0, 1.0]]),
        "most": vector([1.0, 1.0]),
    }
    yield "group_cardinalities", {"group_cardinalities": True, **named, **box}, grouped
    yield (
        "group_cardinalities and thresholds",
        {"group_cardinalities": True, "threshold_long": 0.25, "threshold_short": -0.2, **named, **short},
        grouped,
    )
    none = {"a_eq": A((0, N), []), "b_eq": A((0,), []), "a_ineq": A((0, N), []), "b_ineq": A((0,), [])}
    left, right = mx.matrix([[1.0, -1.0, 0.0], [0.5, 0.5, 1.0]]), vector([0.3, 0.7])
    linear = {"linear_constraints": True, "groups": named["groups"], **none}
    yield (
        "linear_constraints",
        {**linear, "a_ineq": left, "b_ineq": right},
        lambda w, x: every([b - a for a, b in zip(matmul(left, x).data, right.data, strict=True)]),
    )
    yield (
        "linear equality",
        {**linear, "a_eq": mx.matrix([[1.0, 1.0, 2.0]]), "b_eq": vector([1.2])},
        lambda w, x: abs(x.data[0] + x.data[1] + 2 * x.data[2] - 1.2) < 1e-9,
    )
    for r, meaning in RISKS.items():
        for label, costs in (("", {}), (" net of costs", COSTS["costs"])):
            name = f"max_{r.lower()}"
            yield name + label, {name: LEVELS.get(r, 0.05), **costs}, lambda w, x, f=meaning, n=name: near(w.options[n] - f(w, x))


LEVELS = {"VARIANCE": 0.015, "SEMI_VARIANCE": 0.008, "STANDARD_DEVIATION": 0.12, "SEMI_DEVIATION": 0.09, "WORST_REALIZATION": 0.2, "CVAR": 0.2,
          "MAX_DRAWDOWN": 0.3, "AVERAGE_DRAWDOWN": 0.15, "CDAR": 0.3, "ULCER_INDEX": 0.18, "GINI_MEAN_DIFFERENCE": 0.15, "MEAN_ABSOLUTE_DEVIATION": 0.1}  # fmt: skip
