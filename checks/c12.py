"""C12: the risk measure asked for is the one optimised and limited."""

import sa.algebra as A
from sa.affine import cases
from sa.convex import (
    Model, canon, enum_member, fixed_by_constructor, is_call, is_variable, options_off, reads,
)  # fmt: skip
from sa.folds import Conflict, Degree, Polarity, cone, constraint_polarity, is_zero, orient
from sa.index import AnalysisBroken
from sa.linear import HALF, Reader, Unknown, difference, same
from sa.vg import Evaluator, const, cval, is_const, mk, walk

TAIL = {"CVAR": "cvar_beta", "EVAR": "evar_beta", "CDAR": "cdar_beta", "EDAR": "edar_beta"}
SQUARED = {"VARIANCE", "SEMI_VARIANCE"}
DRAWDOWN = {"CDAR", "MAX_DRAWDOWN", "AVERAGE_DRAWDOWN", "EDAR", "ULCER_INDEX"}
TARGETED = {"SEMI_VARIANCE", "SEMI_DEVIATION", "MEAN_ABSOLUTE_DEVIATION", "FIRST_LOWER_PARTIAL_MOMENT"}
SCALE = mk("given", "scale")
FROM_COVARIANCE = {"VARIANCE", "STANDARD_DEVIATION"}


def check(P, rep):
    rep.rule("supported", "every non-annualised risk measure gives a problem whose objective is "
             "that measure", need=24)
    rep.rule("own-parameter", "a measure's formula uses its own confidence level, growing with "
             "it, and no other measure's", need=24)
    rep.rule("own-formula", "no two measures share a formula, and each has the degree, series and "
             "target its definition requires", need=60)
    rep.rule("limit-same-formula", "the limit option of a measure bounds the same formula that is "
             "the objective when that measure is selected", need=12)
    rep.rule("same-across-optimisers", "risk budgeting uses the same formula as mean-risk", need=10)
    rep.rule("losses-are-risk", "returns enter the risk with negative sign", need=20)
    rep.rule("own-scale", "sums and norms are weighted as in the measure's definition", need=0)
    rep.rule("epigraph", "auxiliary variables bound the quantities they stand for with equal weights", need=0)
    rep.rule("root", "the root of the covariance is applied on the side that gives back the covariance", need=0)
    rep.rule("objective-direction", "risk is minimised, weighted positively by risk aversion, and "
             "regularisation penalises", need=8)
    rep.rule("hierarchical", "cluster allocations read the selected measure of the portfolio", need=20)
    rep.rule("type-rejected", "a risk measure of another type is rejected", need=3)
    risks = [r for r in P.cls("RiskMeasure").enum_members() if not r.startswith("ANNUALIZED")]
    forms = {}
    for name in ("MeanRisk", "RiskBudgeting"):
        cls = P.cls(name)
        for r in risks:
            forms[name, r] = formula(P, rep, cls, r)
    for name in ("MeanRisk", "RiskBudgeting"):
        by = {}
        for r in risks:
            f = forms[name, r]
            if f is None:
                continue
            by.setdefault(f["canon"], []).append(r)
        for rs in by.values():
            rep.check(len(rs) == 1, "own-formula", f"{name}[{'/'.join(sorted(rs))}]", P.cls(name).loc,
                      f"measures {rs} are optimised with one formula")
    for r in risks:
        a, b = forms["MeanRisk", r], forms["RiskBudgeting", r]
        if a and b:
            rep.check(a["canon"] == b["canon"], "same-across-optimisers", r, b["loc"],
                      f"RiskBudgeting and MeanRisk use different formulas for {r}")
        limit(P, rep, P.cls("MeanRisk"), r, risks, a)
    directions(P, rep)
    robust(P, rep)
    hierarchical(P, rep)


def config(P, cls, extra, keep=()):
    base = fixed_by_constructor(P, cls)
    base["scale_constraints"], base["scale_objective"] = SCALE, SCALE
    for k in ("l1_coef", "l2_coef"):
        if k in cls.init().params():
            base[k] = const(0)
    base.update(extra)
    return options_off(cls, base, keep)


def risk_part(t):
    """Drop unit factors and vanishing summands."""
    while True:
        if t.op == "bin" and t.args[0] == "*":
            a, b = t.args[1:]
            if is_one(a):
                t = b
                continue
            if is_one(b):
                t = a
                continue
        if t.op == "bin" and t.args[0] in "+-":
            a, b = t.args[1:]
            if is_zero(b):
                t = a
                continue
            if is_zero(a) and t.args[0] == "+":
                t = b
                continue
        return t


def is_one(t):
    return t is SCALE or (t.op == "const" and t.args[0].v == 1) or (
        is_call(t, "cvxpy.Constant") and is_one(t.args[1][0])
    )


def auxiliary(m, risk):
    """Constraints reachable from the variables of the risk expression."""
    seen = {t for t in walk(risk) if is_variable(t)} - {m.w} - set(m.factor_terms())
    todo = list(m.constraints)
    out = []
    while True:
        more = [c for c, _ in todo if any(t in seen for t in walk(c))]
        if not more:
            return out
        for c in more:
            seen |= {t for t in walk(c) if is_variable(t)} - {m.w} - set(m.factor_terms())
        out += more
        todo = [(c, g) for c, g in todo if c not in more]


def formula(P, rep, cls, r):
    inst = f"{cls.name}[{r}]"
    extra = {"risk_measure": enum_member(P, "RiskMeasure", r)}
    if "objective_function" in cls.init().params():
        extra["objective_function"] = enum_member(P, "ObjectiveFunction", "MINIMIZE_RISK")
    try:
        m = Model(P, cls, config(P, cls, extra))
    except AnalysisBroken as e:
        rep.bad("supported", inst, cls.loc, f"no problem is built for this measure: {e}")
        return None
    rep.saw(m.ev)
    objs = list(m.problem.objectives())
    if len(objs) != 1:
        rep.undecided("supported", inst, m.problem.loc, "several objectives")
        return None
    sense, obj, _ = objs[0]
    risk = risk_part(obj)
    own_vars = [t for t in walk(risk) if is_variable(t)]
    rep.check(sense == "Minimize" and bool(own_vars), "supported", inst, obj.loc or m.problem.loc,
              "the objective does not minimise the risk measure")
    aux = auxiliary(m, risk)
    loc = (aux[0].loc if aux else obj.loc) or m.problem.loc
    everything = [risk, *aux]
    # own tail parameter ------------------------------------------------------
    tails = {p for p in TAIL.values() for t in everything if reads(t, p)}
    want = {TAIL[r]} if r in TAIL else set()
    rep.check(tails == want, "own-parameter", inst, loc,
              f"formula uses {sorted(tails) or 'no confidence level'} instead of {sorted(want) or 'none'}")
    if want and tails == want:
        pol = Polarity(lambda t: t.op == "attr" and t.args[0].op == "self" and t.args[1] == TAIL[r])
        s = pol(risk)
        rep.check(None if "?" in s or not s else s == {"+"}, "own-parameter", inst + ".grows", loc,
                  f"the risk does not grow with {TAIL[r]}")
    rep.check(not any(reads(t, "risk_free_rate") for t in everything), "own-parameter",
              inst + ".rate", loc, "the risk depends on the risk-free rate")
    # degree ------------------------------------------------------------------
    deg = {m.w: 1}
    for f in m.factor_terms():
        deg[f] = 1
    D = Degree(deg)
    try:
        D.solve([c for c in aux])
        d = D.of(risk)
    except Conflict:
        d = None
    rep.check(None if d is None or d == "any" else d == (2 if r in SQUARED else 1), "own-formula",
              inst + ".degree", loc, f"the formula has degree {d} in the weights")
    # series ------------------------------------------------------------------
    uses_cov = any(t.op == "attr" and t.args[1] in ("covariance", "cholesky")
                   for x in everything for t in walk(x))
    rep.check(uses_cov == (r in FROM_COVARIANCE), "own-formula", inst + ".moments", loc,
              "the covariance is used by exactly the variance and the standard deviation")
    target = any(reads(x, "min_acceptable_return") for x in everything)
    rep.check(target == (r in TARGETED), "own-formula", inst + ".target", loc,
              f"the minimum acceptable return is {'' if target else 'not '}used")
    rec = any(recursive(c) for c in aux)
    rep.check(rec == (r in DRAWDOWN), "own-formula", inst + ".drawdown", loc,
              f"the formula is {'' if rec else 'not '}computed on drawdowns")
    exp = any(cone(c) == "ExpCone" for c in aux)
    rep.check(exp == (r in ("EVAR", "EDAR")), "own-formula", inst + ".entropic", loc,
              f"the formula is {'' if exp else 'not '}entropic")
    # direction of returns ----------------------------------------------------
    if r not in FROM_COVARIANCE and r != "GINI_MEAN_DIFFERENCE":
        pol = Polarity(lambda t: t.op == "attr" and t.args[1] == "returns", is_variable)
        for c in aux:
            if cone(c) and c.args[1]:
                s = pol(c.args[1][0])
            else:
                s = constraint_polarity(c, pol)
            if s is None or not pol.depends(c) or only_shape(c):
                continue
            if orient(c)[0] == "==":
                continue
            if not s:
                continue
            rep.check(None if "?" in s else s == {"-"}, "losses-are-risk", inst, c.loc,
                      "gains, not losses, increase the risk")
    a, b = scale(inst, r, risk, loc), epigraph(rep, inst, r, aux)
    if a and a[1] is False and any(x[1] is False for x in b):
        # a factor may have been moved from the formula to the constraints
        a, b = (a[0], None, *a[2:]), [(x[0], None, *x[2:]) for x in b]
    if a:
        rep.check(a[1], "own-scale", *a[0], *a[2:])
    for x in b:
        rep.check(x[1], "epigraph", *x[0], *x[2:])
    return {"canon": fingerprint(m, risk, aux), "loc": loc}


N = A.sym("n")
OVER_N = A.div(A.num(1), N)
OVER_N1 = A.div(A.num(1), A.sub(N, A.num(1)))


def tail(r):
    """Number of observations in the tail."""
    return A.mul(N, A.sub(A.num(1), A.sym(TAIL[r])))


def weights(r):
    """What each measure's definition multiplies its sums, norms and quantiles with."""
    one = A.num(1)
    return {
        "VARIANCE": [("square", one)],
        "STANDARD_DEVIATION": [("", one)],
        "SEMI_VARIANCE": [("squares", OVER_N1)],
        "SEMI_DEVIATION": [("norm", A.power(OVER_N1, HALF))],
        "MEAN_ABSOLUTE_DEVIATION": [("sum", A.mul(A.num(2), OVER_N))],
        "FIRST_LOWER_PARTIAL_MOMENT": [("sum", OVER_N)],
        "CVAR": lambda: [("", one), ("sum", A.div(one, tail(r)))],
        "CDAR": lambda: [("", one), ("sum", A.div(one, tail(r)))],
        "EVAR": lambda: [("", one), ("", A.neg(A.log(tail(r))))],
        "EDAR": lambda: [("", one), ("", A.neg(A.log(tail(r))))],
        "WORST_REALIZATION": [("", one)],
        "MAX_DRAWDOWN": [("", one)],
        "AVERAGE_DRAWDOWN": [("sum", OVER_N)],
        "ULCER_INDEX": [("norm", A.power(OVER_N, HALF))],
    }.get(r)  # fmt: skip


def observations(t):
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return "n" if has_returns(t.args[0]) else None
    if is_call(t, "len") and t.args[1]:
        return "n" if has_returns(t.args[1][0]) else None
    return None


def has_returns(t):
    return any(x.op == "attr" and x.args[1] == "returns" for x in walk(t))


READER = Reader(lambda t: t is SCALE, observations)


def scale(inst, r, risk, loc):
    want = weights(r)
    if want is None:
        return None
    want = want() if callable(want) else want
    try:
        got = READER.combo(risk)
    except Unknown:
        return (inst, loc), None, "the formula has another form"
    kind = lambda k: k[0] if isinstance(k, tuple) else ""  # noqa: E731
    got = [(kind(k), v) for k, v in got.items()]
    if sorted(k for k, _ in got) != sorted(k for k, _ in want):
        return (inst, loc), None, "the formula has another form"
    ok, msg = True, ""
    for ws in ([want, want[::-1]] if len(want) == 2 and want[0][0] == want[1][0] else [want]):
        ok, msg = True, ""
        for k, v in ws:
            g = [x for x in got if x[0] == k]
            g = g[ws.index((k, v)) if len(g) > 1 else 0]
            e = same(g[1], v)
            if e is not True:
                ok = e if ok is True or e is False else ok
                msg = f"the {k or 'variable'} is weighted by {A.text(g[1])}, the definition has {A.text(v)}"
        if ok is True:
            break
    return (inst, loc), ok, msg


def epigraph(rep, inst, r, aux):
    out = []
    for i, c in enumerate(aux):
        if cone(c):
            parts = list(c.args[1])
            if len(parts) == 2 and cone(c) == "SOC":
                root(rep, inst, parts[1], c.loc)
        else:
            k, ab = orient(c)
            if k not in ("<=", "=="):
                continue
            parts = [difference(*ab)]
        for p in parts:
            try:
                got = READER.combo(p)
            except Unknown:
                continue
            vals = [v for k, v in got.items() if k is not None]
            if len(vals) < 2:
                continue
            first = vals[0]
            oks = [equal_size(first, v) for v in vals[1:]]
            ok = False if False in oks else None if None in oks else True
            out.append(((f"{inst}#{i}", c.loc), ok, f"the weights {', '.join(A.text(v) for v in vals)} differ"))
    return out


def equal_size(a, b):
    x = same(A.mul(a, a), A.mul(b, b))
    return x


def root(rep, inst, t, loc):
    """``root' w`` has the variance as its square, ``root w`` has not."""
    for x in walk(t):
        if x.op != "bin" or x.args[0] != "@":
            continue
        left, right = x.args[1:]
        m, turned = (left, True) if is_variable(right) else (right, False) if is_variable(left) else (None, None)
        if m is None:
            continue
        while True:
            if m.op == "attr" and m.args[1] == "T":
                m, turned = m.args[0], not turned
            elif is_call(m, "numpy.transpose") and len(m.args[1]) == 1:
                m, turned = m.args[1][0], not turned
            else:
                break
        for _, a in cases(m) or ():
            lower = is_call(a, "numpy.linalg.cholesky") and not dict(a.args[2]) or a.op == "attr" and a.args[1] == "cholesky"
            if is_call(a, "scipy.linalg.cholesky"):
                kw = dict(a.args[2])
                low = kw.get("lower", a.args[1][1] if len(a.args[1]) > 1 else None)
                if low is not None and not is_const(low):
                    continue
                upper = low is None or not cval(low)
                rep.check(turned if upper else not turned, "root", inst, loc, "the root is applied on the wrong side")
            elif lower:
                rep.check(not turned, "root", inst, loc, "the root is applied on the wrong side")


def fingerprint(m, risk, aux):
    factors = set(m.factor_terms())
    names = {m.w: "w", **dict.fromkeys(factors, "factor")}
    return canon([risk, *aux], names, lambda t: t not in factors and is_one(t), is_zero)


def only_shape(c):
    return not any(
        t.op == "bin" and t.args[0] in ("@", "*", "-") and any(
            y.op == "attr" and y.args[1] == "returns" for y in t.args[1:])
        for t in walk(c)
    )  # fmt: skip


def recursive(c):
    """One variable at two different positions: v[1:] against v[:-1]."""
    subs = {}
    for t in walk(c):
        if t.op == "sub" and is_variable(t.args[0]):
            subs.setdefault(t.args[0], set()).add(t.args[1])
        elif is_call(t, "cvxpy.cumsum", "cvxpy.diff"):
            return True
    return any(len(v) > 1 for v in subs.values())


def limit(P, rep, cls, r, risks, form):
    prm = "max_" + r.lower()
    if prm not in cls.init().params() or form is None:
        return
    inst = f"{cls.name}.{prm}"
    other = "CVAR" if r in ("STANDARD_DEVIATION", "VARIANCE") else "STANDARD_DEVIATION"
    extra = {
        "risk_measure": enum_member(P, "RiskMeasure", other),
        "objective_function": enum_member(P, "ObjectiveFunction", "MINIMIZE_RISK"),
    }
    m = Model(P, cls, config(P, cls, extra, (prm,)))
    rep.saw(m.ev)
    g = mk("given", prm)
    tied = {p for p, vs in m.bound.items() if any(x is g for v in vs for x in walk(v))}
    pol = Polarity(lambda t: t is g or t in tied)
    hits = [c for c, _ in m.constraints if pol.depends(c)]
    if not hits:
        rep.bad("limit-same-formula", inst, m.problem.loc, "the limit is not part of the problem")
        return
    for c in hits:
        k, ab = orient(c)
        s = constraint_polarity(c, pol)
        if k != "<=" or s != {"-"}:
            rep.bad("limit-same-formula", inst, c.loc, "the limit does not bound from above")
            continue
        risk = risk_part(ab[0])
        aux = [x for x in auxiliary(m, risk) if x not in hits]
        same = fingerprint(m, risk, aux) == form["canon"]
        rep.check(same, "limit-same-formula", inst, c.loc,
                  f"`{prm}` limits another formula than the one optimised for {r}")


def directions(P, rep):
    cls = P.cls("MeanRisk")
    for o in P.cls("ObjectiveFunction").enum_members():
        extra = {
            "risk_measure": enum_member(P, "RiskMeasure", "CVAR"),
            "objective_function": enum_member(P, "ObjectiveFunction", o),
            "l1_coef": mk("given", "l1_coef"), "l2_coef": mk("given", "l2_coef"),
            "risk_aversion": mk("given", "risk_aversion"),
        }  # fmt: skip
        m = Model(P, cls, config(P, cls, extra))
        rep.saw(m.ev)
        for sense, obj, _ in m.problem.objectives():
            maximise = sense == "Maximize"
            inst = f"MeanRisk[{o}]"
            for k in ("l1_coef", "l2_coef"):
                s = Polarity(lambda t, k=k: t is mk("given", k))(obj)
                want = {"-"} if maximise else {"+"}
                rep.check(s == want, "objective-direction", f"{inst}.{k}", m.problem.loc,
                          f"`{k}` does not penalise the objective")
            s = Polarity(lambda t: t is mk("given", "risk_aversion"))(obj)
            if o == "MAXIMIZE_UTILITY":
                rep.check(maximise and s == {"-"}, "objective-direction", f"{inst}.risk_aversion",
                          m.problem.loc, "risk aversion does not penalise risk")
            beta = Polarity(lambda t: t.op == "attr" and t.args[0].op == "self" and t.args[1] == "cvar_beta")(obj)
            mu = Polarity(lambda t: t.op == "attr" and t.args[1] == "mu")(obj)
            want_beta = {
                "MINIMIZE_RISK": {"+"}, "MAXIMIZE_RATIO": {"+"},
                "MAXIMIZE_UTILITY": {"-"}, "MAXIMIZE_RETURN": set(),
            }.get(o)  # fmt: skip
            want_mu = {"MAXIMIZE_UTILITY": {"+"}, "MAXIMIZE_RETURN": {"+"}}.get(o, set())
            if want_beta is None:
                rep.undecided("objective-direction", inst, m.problem.loc, "unknown objective")
                continue
            rep.check(set(beta) == want_beta and maximise == bool(want_mu), "objective-direction",
                      f"{inst}.risk", m.problem.loc, "the risk enters the objective with the wrong sign")
            rep.check(set(mu) == want_mu, "objective-direction", f"{inst}.return", m.problem.loc,
                      "the expected return enters the objective with the wrong sign")


def robust(P, rep):
    cls = P.cls("DistributionallyRobustCVaR")
    m = Model(P, cls, config(P, cls, {}))
    rep.saw(m.ev)
    xs = [o for _, o, _ in m.problem.objectives()] + [c for c, _ in m.constraints]
    tails = {p for p in TAIL.values() for t in xs if reads(t, p)}
    rep.check(tails == {"cvar_beta"}, "own-parameter", cls.name, m.problem.loc,
              f"uses {sorted(tails)} instead of cvar_beta")


def is_half_power(t):
    if is_call(t, "numpy.power", "numpy.float_power", "pow"):
        n = t.args[1][1] if len(t.args[1]) > 1 else None
    else:
        n = t.args[2] if t.op == "bin" and t.args[0] == "**" else None
    return n is not None and is_const(n) and cval(n) == 0.5


def hierarchical(P, rep):
    ptf = P.cls("Portfolio")
    for name in ("HierarchicalRiskParity", "HierarchicalEqualRiskContribution"):
        cls = P.cls(name)
        mro = {k.qual for k in cls.repo_mro()}
        for enum in ("RiskMeasure", "ExtraRiskMeasure"):
            for r in P.cls(enum).enum_members():
                if r in ("SKEW", "KURTOSIS"):
                    continue
                ev = Evaluator(P, budget=3_000_000,
                               inline=lambda f: f.cls is None or f.cls.qual in mro or f.cls.is_enum(),
                               self_attrs={"risk_measure": enum_member(P, enum, r)})
                ev.run(cls.find_method("fit"), cls=cls)
                rep.saw(ev)
                got = set()
                root = False
                for e in ev.effects:
                    if e.kind == "read" or e.kind == "call":
                        for t in [x for x in e.data if hasattr(x, "op")]:
                            for y in walk(t):
                                if y.op == "attr" and is_ptf(y.args[0], ptf):
                                    got.add(y.args[1])
                                elif y.op == "bound" and is_ptf(y.args[0], ptf):
                                    got.add(y.args[1].rsplit(".", 1)[-1])
                                if (is_call(y, "numpy.sqrt", "math.sqrt") or is_half_power(y)) and any(
                                    z.op in ("attr", "bound") and is_ptf(z.args[0], ptf) for z in walk(y)
                                ):
                                    root = True
                for e in ev.effects:
                    if e.kind == "call" and e.data[0].op == "cls" and e.data[0].args[0] == ptf.qual:
                        x = dict(e.data[2]).get("X", e.data[1][0] if e.data[1] else None)
                        cut = x is not None and any(
                            y.op == "sub" and any(z.op == "attr" and z.args[1] == "returns" for z in walk(y.args[0]))
                            for y in walk(x, into_cond=False))
                        rep.check(not cut, "hierarchical", f"{name}:returns", e.loc,
                                  "the risk of a cluster is measured on a part of the returns only")
                inst = f"{name}[{r}]"
                if not got:
                    rep.undecided("hierarchical", inst, cls.loc, "no measure read found")
                    continue
                v = r.lower()
                if got == {v} and not root:
                    rep.ok("hierarchical", inst, cls.loc)
                else:
                    ok = got == {"variance_from_assets"} and (
                        (v == "variance" and not root) or (v == "standard_deviation" and root))
                    rep.check(ok, "hierarchical", inst, cls.loc,
                              f"allocates by {sorted(got)} although {v} was asked for")
    for name in ("MeanRisk", "RiskBudgeting", "HierarchicalRiskParity", "HierarchicalEqualRiskContribution"):
        cls = P.cls(name)
        ev = Evaluator(P, budget=3_000_000, inline=lambda f: True)
        mro = {k.qual for k in cls.repo_mro()}
        ev.inline_pred = lambda f, mro=mro: f.cls is None or f.cls.qual in mro
        ev.run(cls.find_method("fit"), cls=cls)
        rep.saw(ev)
        ok = any(
            e.kind == "raise" and any(
                t.op == "call" and is_call(t, "isinstance") and reads(t, "risk_measure") and p is False
                for t, p in e.guard)
            for e in ev.effects
        )  # fmt: skip
        rep.check(ok, "type-rejected", name, cls.loc, "no error for a value that is not a risk measure")


def is_ptf(t, ptf):
    if t.op == "new":
        return ptf.qual in str(t.args)
    return t.op == "call" and t.args[0].op == "cls" and t.args[0].args[0] == ptf.qual
