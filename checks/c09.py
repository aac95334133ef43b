"""C09: constraints keep their meaning for the weights that are returned.

When the problem is solved in rescaled variables (ratio objectives, risk
budgeting) the weights are the solution divided by a positive factor, so every
constraint has to be homogeneous in the rescaled variables.
"""

from sa.convex import (
    OPTIMISERS, Model, Pretty, enum_member, fixed_by_constructor, is_call, is_variable, options_off,
)  # fmt: skip
from sa.folds import Conflict, Degree, Polarity
from sa.vg import NONE, cval, is_const, mk, walk

LIMITS = (
    "min_weights", "max_weights", "budget", "min_budget", "max_budget", "max_short",
    "max_long", "max_turnover", "max_tracking_error", "min_return", "cardinality",
    "threshold_long", "threshold_short", "right_inequality", "linear_constraints",
    "group_cardinalities", "transaction_costs", "management_fees",
)  # fmt: skip
PARTNER = {
    "right_inequality": ("left_inequality",),
    "transaction_costs": ("previous_weights",),
    "max_turnover": ("previous_weights",),
    "threshold_long": ("min_weights", "max_weights"),
    "threshold_short": ("min_weights", "max_weights", "threshold_long"),
    "cardinality": ("min_weights", "max_weights"),
    "group_cardinalities": ("min_weights", "max_weights", "groups"),
}
COSTS = ("transaction_costs", "management_fees")
ALTERS = (
    "round", "around", "rint", "fix", "trunc", "floor", "ceil", "clip", "abs", "absolute", "maximum",
    "minimum", "where", "nan_to_num", "sign",
)  # fmt: skip
BIG = 100  # constants at least this large times an indicator are big-M terms


def check(P, rep):
    rep.rule("homogeneous-limit", "a constraint imposed by an option is homogeneous in the "
             "rescaled weights and factor, so it holds after division by the factor", need=24)
    rep.rule("homogeneous-risk", "the auxiliary constraints behind each risk measure are "
             "homogeneous in the rescaled variables", need=16)
    rep.rule("normalised", "one normalisation fixes the scale of the rescaled problem", need=10)
    rep.rule("weights-rescaled", "the stored weights are the solution divided by the same "
             "factor that scales the constraints", need=3)
    risks = [m for m in P.cls("RiskMeasure").enum_members()]
    for name in OPTIMISERS:
        cls = P.cls(name)
        params = cls.init().params()
        base = fixed_by_constructor(P, cls)
        if "overwrite_expected_return" in params:
            base["overwrite_expected_return"] = NONE
        if "objective_function" in params:
            base["objective_function"] = enum_member(P, "ObjectiveFunction", "MAXIMIZE_RATIO")
        rescaled(P, rep, cls, base)
        for prm in LIMITS:
            if prm not in params:
                continue
            if prm in COSTS and "risk_measure" in params:
                for r in risks:
                    if not r.startswith("ANNUALIZED"):
                        one(P, rep, cls, base, prm, r)
            else:
                one(P, rep, cls, base, prm)
        if "risk_measure" in params:
            for r in risks:
                prm = "max_" + r.lower()
                if prm in params:
                    one(P, rep, cls, base, prm)
            for r in risks:
                if r.startswith("ANNUALIZED"):
                    continue
                auxiliary(P, rep, cls, base, r)
        else:
            auxiliary(P, rep, cls, base, None)


def solved(m):
    deg = {m.w: 1}
    scaled = False
    for f in m.factor_terms():
        if is_variable(f):
            deg[f] = 1
            scaled = True
        else:
            deg[f] = 0
    for v in m.variables():
        if "boolean" in dict(v.args[2]):
            deg[v] = 0
    if not scaled:
        return None, None

    def wild(t):
        if t.op == "bin" and t.args[0] == "*":
            for x in t.args[1:]:
                if is_const(x) and isinstance(cval(x), (int, float)) and abs(cval(x)) >= BIG:
                    return True
        return False

    D = Degree(deg, wild)
    return D, D.solve([c for c, _ in m.constraints])


def has_mu(c):
    return any(t.op == "attr" and t.args[1] in ("mu", "covariance") for t in walk(c))


def expected_norm(c, d, limit_dep):
    """The constraint that sets the scale: expected return tied to a constant."""
    return isinstance(d, Conflict) and {d.a, d.b} == {0, 1} and has_mu(c) and not limit_dep


def one(P, rep, cls, base, prm, risk=None):
    inst = f"{cls.name}.{prm}" + (f"[{risk}]" if risk else "")
    keep = (prm, *PARTNER.get(prm, ()))
    if risk:
        base = {**base, "risk_measure": enum_member(P, "RiskMeasure", risk)}
    m = Model(P, cls, options_off(cls, base, keep))
    rep.saw(m.ev)
    D, res = solved(m)
    if res is None:
        return
    gs = {mk("given", k) for k in keep}
    tied = {p for p, vs in m.bound.items() if any(x in gs for v in vs for x in walk(v))}
    pol = Polarity(lambda t: t in gs or t in tied)
    g = mk("given", prm)
    mine = {p for p, vs in m.bound.items() if any(x is g for v in vs for x in walk(v))}
    own = Polarity(lambda t: t is g or t in mine)
    pp = Pretty()
    for c, d in res:
        if not pol.depends(c):
            continue
        lim = prm not in COSTS and own.depends(c)
        if expected_norm(c, d, lim):
            continue
        if isinstance(d, Conflict):
            rep.bad("homogeneous-limit", inst, c.loc,
                    f"terms of degree {d.a} and {d.b} in the rescaled variables are compared: "
                    f"{pp(d.what, 6)[:140]}")
        elif d is None:
            rep.undecided("homogeneous-limit", inst, c.loc, pp(c, 5)[:120])
        else:
            rep.ok("homogeneous-limit", inst, c.loc)
    for s, o, _ in m.problem.objectives():
        if prm in COSTS and pol.depends(o):
            for t in walk(o, into_cond=False):
                if pol.depends(t) and t.op == "bin" and t.args[0] in "+-":
                    try:
                        D.of(t)
                    except Conflict as e:
                        if not any(is_variable(x) for x in walk(e.what)):
                            continue
                        if innermost(D, t):
                            rep.bad("homogeneous-limit", inst, t.loc,
                                    f"objective mixes degrees {e.a} and {e.b}: {pp(e.what, 6)[:140]}")
                            break


def innermost(D, t):
    for x in t.args[1:]:
        try:
            D.of(x)
        except Conflict:
            return False
    return True


def auxiliary(P, rep, cls, base, r):
    attrs = options_off(cls, base)
    inst = f"{cls.name}[{r}]"
    if r is not None:
        attrs["risk_measure"] = enum_member(P, "RiskMeasure", r)
    m = Model(P, cls, attrs)
    rep.saw(m.ev)
    D, res = solved(m)
    if res is None:
        return
    pp = Pretty()
    norms = []
    for c, d in res:
        if expected_norm(c, d, False) or (d is None and logarithmic(c)):
            norms.append(c)
        elif isinstance(d, Conflict):
            rep.bad("homogeneous-risk", inst, c.loc,
                    f"terms of degree {d.a} and {d.b} in the rescaled variables are compared: "
                    f"{pp(d.what, 6)[:140]}")
        elif d is None:
            rep.undecided("homogeneous-risk", inst, c.loc, pp(c, 5)[:120])
        else:
            rep.ok("homogeneous-risk", inst, c.loc)
    rep.check(bool(norms), "normalised", inst, m.problem.loc,
              "no constraint fixes the scale of the rescaled problem")


def logarithmic(c):
    return any(is_call(t, "cvxpy.log") for t in walk(c))


def rescaled(P, rep, cls, base):
    m = Model(P, cls, options_off(cls, base))
    vars_ = [f for f in m.factor_terms() if is_variable(f)]
    if not vars_:
        return
    inst = cls.name
    used = {v for v in vars_ if any(x is v for c, _ in m.constraints for x in walk(c))}
    rep.check(len(used) == len(vars_), "weights-rescaled", inst, m.weights_term.loc,
              "the factor dividing the weights does not occur in the constraints")
    # every store of weights_ must come from the rescaled expression
    for e in m.stores("weights_"):
        t = e.data[2]
        rep.check(any(x is m.weights_term for x in walk(t)), "weights-rescaled", inst, e.loc,
                  "weights_ is stored without dividing by the factor")
        altered = {n for x in walk(t, into_cond=False) for n in [changes(x)] if n
                   and any(y is m.weights_term for y in walk(x))}
        rep.check(not altered, "weights-rescaled", inst + ".kept", e.loc,
                  f"the solution is altered after the solve ({', '.join(sorted(altered))}), "
                  "so it need not satisfy the constraints")


def changes(t):
    """Functions that move a solution off the constraints."""
    if t.op != "call":
        return None
    f = t.args[0]
    name = str(f.args[0] if f.op == "ext" else f.args[1] if f.op == "meth" else "").rsplit(".", 1)[-1]
    return name if name in ALTERS else None
