"""C34: estimates, distances and measures scale and shift with the returns."""

from fractions import Fraction

from sa.affine import cases
from sa.estimators import ctor_params, estimators, inliner, selfterm
from sa.units import ANY, Mixed, Scale, Shift, called
from sa.vg import FALSE, NONE, Evaluator, T, cval, is_const, show, walk

#: powers of the returns' units, by documented attribute or field
FITTED = {
    "mu_": 1, "covariance_": 2, "distance_": 0, "codependence_": 0, "loading_matrix_": 0, "intercepts_": 1,
    "pred_realised_vols_": 1, "mu_target_": 1, "labels_": 0, "weights_": 0,
}  # fmt: skip
FIELDS = {"mu": 1, "covariance": 2, "returns": 1, "cholesky": 1}
SETS = {"BaseMuUncertaintySet": {"k": 0, "sigma": 2}, "BaseCovarianceUncertaintySet": {"k": 0, "sigma": 4}}
OTHERS = {"coef_": 0, "intercept_": 1, "weights_": 0}
#: options that are not pure numbers
OPTIONS = {"risk_aversion": -1, "risk_free_rate": 1, "min_acceptable_return": 1}
#: how fitted attributes move when a constant is added to all returns
MOVES = {"mu_": 1, "covariance_": 0, "distance_": 0, "codependence_": 0, "mu_target_": 1}
MEASURES = {
    "mean": (1, 1), "mean_absolute_deviation": (1, 0), "first_lower_partial_moment": (1, 0), "variance": (2, 0),
    "semi_variance": (2, 0), "standard_deviation": (1, 0), "semi_deviation": (1, 0), "third_central_moment": (3, 0),
    "skew": (0, 0), "fourth_central_moment": (4, 0), "kurtosis": (0, 0), "fourth_lower_partial_moment": (4, 0),
    "worst_realization": (1, -1), "value_at_risk": (1, -1), "cvar": (1, -1), "gini_mean_difference": (1, 0),
    "get_drawdowns": (1, None), "get_cumulative_returns": (1, None), "drawdown_at_risk": (1, None), "max_drawdown": (1, None),
    "average_drawdown": (1, None), "cdar": (1, None), "ulcer_index": (1, None), "effective_number_assets": (None, None),
}  # fmt: skip
UNITS = {"returns": 1, "drawdowns": 1, "min_acceptable_return": 1, "cumulative_returns": 1, "covariance": 2, "cov": 2, "std": 1, "corr": 0}


def check(P, rep):
    rep.rule("scale", "an estimate is multiplied by the power of the factor that its units say", need=20)
    rep.rule("units", "only quantities in the same units are added, compared or chosen between", need=0)
    rep.rule("shift", "an estimate moves with a constant added to all returns, or not at all", need=0)
    for c in estimators(P):
        fitted(P, rep, c)
    measures(P, rep)


def fitted(P, rep, c):
    f, mro = c.find_method("fit"), {k.name for k in c.repo_mro()}
    if f is None:
        return
    module = c.qual.split(".")[1:2]
    if module not in (["moments"], ["prior"], ["distance"], ["uncertainty_set"], ["optimization"]):
        return
    if c.is_subclass(P.cls("ConvexOptimization").qual):
        return
    me, params = selfterm(c), set(ctor_params(c))
    fixed = {}
    if "is_log_normal" in params:
        fixed["is_log_normal"] = FALSE
    if "compounded" in params:
        fixed["compounded"] = FALSE
    own = inliner(c)
    ev = Evaluator(P, budget=1_500_000, self_attrs=fixed, inline=lambda g, *a: g.name not in KEPT and own(g))
    ev.run(f, cls=c)
    rep.saw(ev)
    goals = []
    for e in ev.effects:
        if e.kind == "store" and e.data[0] is me and isinstance(e.data[2], T):
            name, v = e.data[1], e.data[2]
            if name in FITTED:
                goals.append((e, name, v, FITTED[name], MOVES.get(name)))
            for x in walk(v):
                if is_class(x, "PriorModel"):
                    for k, w in keywords(x):
                        if k in FIELDS:
                            goals.append((e, f"{name}.{k}", w, FIELDS[k], {"mu": 1, "covariance": 0, "returns": 1}.get(k)))
                if is_class(x, "UncertaintySet"):
                    for base, units in SETS.items():
                        if base in mro:
                            goals += [(e, f"{name}.{k}", w, units[k], None) for k, w in keywords(x) if k in units]
    scale = Scale(lambda t: known(t, me, params, 0))
    shift = Shift(lambda t: known(t, me, params, 1))
    for e, name, v, want, moves in goals:
        judge(rep, f"{c.name}.{name}", e, v, scale, want, shift, moves)


KEPT = {"cov_nearest", "commutation_matrix", "stationary_bootstrap", "equations_to_matrix", "input_to_array"}


def is_class(t, name):
    if t.op == "new":
        return str(t.args[0]).endswith("." + name)
    return t.op == "call" and t.args[0].op == "cls" and str(t.args[0].args[0]).endswith("." + name)


def keywords(t):
    if t.op == "call":
        return list(t.args[2])
    return [kv for kv in t.args[2]] if len(t.args) > 2 else []


def known(t, me, params, kind):
    """The units (0) or the movement (1) of inputs, options and nested results."""
    if t.op == "in":
        n = t.args[0] if isinstance(t.args[0], str) else t.args[-1]
        if n in ("X", "y"):
            return (Fraction(1),)
        if n == "implied_vol":
            return (Fraction(1 if kind == 0 else 0),)
        return None
    if t.op == "attr":
        obj, n = t.args
        if obj is me:
            if n in params:
                d = OPTIONS.get(n, 0) if kind == 0 else 0
                return (Fraction(d),)
            if n in ("covariance_", "location_", "precision_"):
                # set by a base class of another library
                return (Fraction({"covariance_": 2, "location_": 1, "precision_": -2}[n] if kind == 0 else 0),)
            return None
        table = {**FITTED, **FIELDS, **OTHERS} if kind == 0 else {**MOVES, "mu": 1, "covariance": 0, "returns": 1, "weights_": 0}
        if n in table and not from_data(obj):
            return (Fraction(table[n]),)
        return None
    name, _ = called(t)
    if name == "validate_data" and len(t.args[1]) > 1:
        return (Fraction(1),)
    if t.op == "call" and t.args[0].op == "fn":
        q = str(t.args[0].args[0]).rpartition(".")[2]
        if q == "cov_nearest":
            return None
    if t.op == "sub" and is_const(t.args[1]) and t.args[0].op == "call" and t.args[0].args[0].op == "fn":
        q = str(t.args[0].args[0].args[0]).rpartition(".")[2]
        if q == "equations_to_matrix":
            return (Fraction({0: 0, 1: 1}.get(cval(t.args[1]), 0) if kind == 0 else 0),)
    return None


def from_data(t):
    return t.op == "in"


def judge(rep, inst, e, v, scale, want, shift, moves):
    done = cases(v, e.guard, limit=32)
    if done is None:
        done = [((), v)]
    for i, (_, x) in enumerate(done):
        try:
            d = scale.of(x)
        except Mixed as m:
            rep.bad("units", inst, e.loc, f"{show(m.term, 4)[:160]} mixes quantities in powers {m.a} and {m.b} of the returns")
            continue
        if d is None:
            rep.undecided("scale", inst, e.loc, "the units are not known")
        else:
            rep.check(d is ANY or d == want, "scale", inst, e.loc, f"it is in power {d} of the units of returns, not {want}")
        if moves is not None:
            s = shift.of(x)
            if s is not None:
                rep.check(s is ANY or s == moves or s == 0 and not averages(x), "shift", inst, e.loc, f"it moves by {s} times what is added to returns, not {moves}")


def averages(t):
    """Whether the data themselves enter, and not only their covariance."""
    return any(
        x.op == "in" or called(x)[0] == "validate_data"
        for x in walk(t, into_cond=False, stop=lambda y: y.op == "attr" and y.args[1] in ("shape", "covariance_", "covariance"))
    )


def measures(P, rep):
    for name, (want, moves) in MEASURES.items():
        f = next((f for f in P.funcs.values() if f.cls is None and f.name == name and ".measures." in f.qual), None)
        if f is None or want is None:
            continue
        ps = f.params()
        for given in (False, True):
            args = {p: NONE for p in ("min_acceptable_return", "sample_weight") if p in ps and not given}
            if "compounded" in ps:
                args["compounded"] = FALSE
            ev = Evaluator(P, budget=300_000)
            v = ev.run(f, args=args)
            rep.saw(ev)

            def base(t, kind):
                if t.op == "in":
                    n = t.args[0] if isinstance(t.args[0], str) else t.args[-1]
                    if kind == 0:
                        return (Fraction(UNITS.get(n, 0)),)
                    return (Fraction(1 if n in ("returns", "min_acceptable_return") else 0),)
                return None

            scale = Scale(lambda t: base(t, 0))
            shift = Shift(lambda t: base(t, 1))
            e = type("E", (), {"guard": (), "loc": f.loc})
            judge(rep, f"{name}[{'given' if given else 'default'}]", e, v, scale, want, shift, moves)


