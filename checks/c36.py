"""C36: every measure is the quantity its name and documentation define.

The formula of each public measure function is extracted from the source and compared,
by identity testing, with the textbook definition written down here independently.
"""

import math

from sa.matrix import Interpreter, Points, Unknown, close, scalar, vector
from sa.vg import Evaluator

#: no proportion below is a whole number of observations, where quantiles are not unique
SIZES = (7, 23, 41)
BETAS = (0.99, 0.95, 0.9, 0.75, 0.5, 0.33, 0.04)


def check(P, rep):
    rep.rule("definition", "a measure function computes the documented quantity", need=10)
    for name, (inputs, options, ref) in DEFINITIONS.items():
        f = P.funcs.get(P.canonical(f"skfolio.measures.{name}"))
        if f is not None:
            measure(P, rep, f, inputs, options, ref)


def measure(P, rep, f, inputs, options, ref):
    ev = Evaluator(P, budget=300_000)
    t = ev.run(f)
    rep.saw(ev)
    if not {inputs, *(k for o in options for k in o)} <= set(f.params()):
        return
    if t is None:
        rep.undecided("definition", f.name, f.loc, "the formula is not known")
        return
    for i, opt in enumerate(options):
        label = ",".join(f"{k}={v}" for k, v in opt.items())
        inst = f"{f.name}({label})"
        verdict, why = compare(t, inputs, opt, ref, 100 * i)
        if verdict is None:
            rep.undecided("definition", inst, f.loc, why)
        else:
            rep.check(verdict, "definition", inst, f.loc, why)


def compare(t, inputs, opt, ref, seed):
    for n in SIZES:
        p = Points(seed + n)
        x = p.vector(n, -0.1, 0.12)
        if inputs == "drawdowns":
            x = vector([-abs(v) for v in x.data])
        if inputs == "weights":
            x = p.vector(n, 0.0, 0.4)
        given = {inputs: x, **opt}
        if inputs == "n_observations":
            given[inputs] = n
        if ref is None:
            continue

        def env(s, given=given):
            if s.op == "in":
                k = s.args[0] if isinstance(s.args[0], str) else s.args[-1]
                if k in given:
                    return (given[k],)
            return None

        try:
            got = Interpreter(env)(t)
        except Unknown as e:
            return None, f"not decided: {e}"
        want = ref(list(x.data) if inputs != "n_observations" else n, **opt)
        if isinstance(want, list):
            want = vector(want)
        if not close(got, want):
            return False, f"with {n} values it gives {short(got)} where the definition gives {short(want)}"
    return True, "it agrees with the definition"


def short(v):
    v = scalar(v)
    return f"{v:.6g}" if isinstance(v, (int, float)) else str([round(x, 5) for x in v.data[:4]])


def mean(r):
    return math.fsum(r) / len(r)


def central(r, k):
    m = mean(r)
    return mean([(x - m) ** k for x in r])


def variance(r):
    return central(r, 2) * len(r) / (len(r) - 1)


def below(r, target, k):
    m = mean(r) if target is None else target
    return math.fsum(max(m - x, 0.0) ** k for x in r)


def deviation(r, min_acceptable_return=None):
    m = mean(r) if min_acceptable_return is None else min_acceptable_return
    return mean([abs(x - m) for x in r])


def value_at_risk(r, beta):
    """The loss that is not exceeded except in a proportion 1 - beta of the cases."""
    s = sorted(r)
    for i, x in enumerate(s):
        if (i + 1) / len(s) >= 1 - beta - 1e-12:
            return -x
    return -s[-1]


def cvar(r, beta):
    """The mean of the worst proportion 1 - beta of the cases, the last one counted in part."""
    left, total = (1 - beta) * len(r), 0.0
    k = left
    for x in sorted(r):
        w = min(1.0, left)
        total, left = total - w * x, left - w
        if left <= 1e-12:
            break
    return total / k


def cumulative(r, compounded):
    out, c = [], 1000.0 if compounded else 0.0
    for x in r:
        c = c * (1 + x) if compounded else c + x
        out.append(c)
    return out


def drawdowns(r, compounded):
    out, best = [], None
    for c in cumulative(r, compounded):
        best = c if best is None else max(best, c)
        out.append(c / best - 1 if compounded else c - best)
    return out


def gini(r):
    n = len(r)
    return sum(abs(x - y) for i, x in enumerate(r) for y in r[:i]) / (n * (n - 1) / 2)


def entropic(r, theta, beta):
    return theta * math.log(mean([math.exp(-x / theta) for x in r]) / (1 - beta))


MAR = [{"min_acceptable_return": None}, {"min_acceptable_return": 0.01}, {"min_acceptable_return": -0.03}, {"min_acceptable_return": 0.0}]
BETA = [{"beta": b} for b in BETAS]
CUM = [{"compounded": False}, {"compounded": True}]

DEFINITIONS = {
    "mean": ("returns", [{}], mean),
    "mean_absolute_deviation": ("returns", MAR, deviation),
    "first_lower_partial_moment": ("returns", MAR, lambda r, min_acceptable_return: below(r, min_acceptable_return, 1) / len(r)),
    "variance": ("returns", [{}], variance),
    "semi_variance": ("returns", MAR, lambda r, min_acceptable_return: below(r, min_acceptable_return, 2) / (len(r) - 1)),
    "standard_deviation": ("returns", [{}], lambda r: math.sqrt(variance(r))),
    "semi_deviation": ("returns", MAR, lambda r, min_acceptable_return: math.sqrt(below(r, min_acceptable_return, 2) / (len(r) - 1))),
    "third_central_moment": ("returns", [{}], lambda r: central(r, 3)),
    "skew": ("returns", [{}], lambda r: central(r, 3) / math.sqrt(variance(r)) ** 3),
    "fourth_central_moment": ("returns", [{}], lambda r: central(r, 4)),
    "kurtosis": ("returns", [{}], lambda r: central(r, 4) / variance(r) ** 2),
    "fourth_lower_partial_moment": ("returns", MAR, lambda r, min_acceptable_return: below(r, min_acceptable_return, 4) / len(r)),
    "worst_realization": ("returns", [{}], lambda r: -min(r)),
    "value_at_risk": ("returns", BETA, value_at_risk),
    "cvar": ("returns", BETA, cvar),
    "entropic_risk_measure": ("returns", [{"theta": h, "beta": b} for h in (1.0, 0.3, 12.0) for b in (0.95, 0.7, 0.999, 0.02)], entropic),
    "get_cumulative_returns": ("returns", CUM, cumulative),
    "get_drawdowns": ("returns", CUM, drawdowns),
    "drawdown_at_risk": ("drawdowns", BETA, value_at_risk),
    "max_drawdown": ("drawdowns", [{}], lambda r: -min(r)),
    "average_drawdown": ("drawdowns", [{}], lambda r: -mean(r)),
    "cdar": ("drawdowns", BETA, cvar),
    "ulcer_index": ("drawdowns", [{}], lambda r: math.sqrt(mean([x * x for x in r]))),
    "gini_mean_difference": ("returns", [{}], gini),
    "effective_number_assets": ("weights", [{}], lambda w: 1 / sum(x * x for x in w)),
}
