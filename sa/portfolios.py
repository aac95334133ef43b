"""Portfolio classes, measures and what is publicly known about them."""

from __future__ import annotations

from .vg import Evaluator, cval, is_const, mk

ENUMS = ("PerfMeasure", "RiskMeasure", "ExtraRiskMeasure", "RatioMeasure")
#: ratios whose name is not that of their risk measure
LINKED = {"SHARPE_RATIO": "STANDARD_DEVIATION", "SORTINO_RATIO": "SEMI_DEVIATION", "CALMAR_RATIO": "MAX_DRAWDOWN"}


def classes(P):
    base = P.cls("BasePortfolio")
    return [c for c in P.classes.values() if c is not base and c.is_subclass(base.qual)]


def measures(P):
    """(enum class, member name) of every measure."""
    return [(P.cls(n), m) for n in ENUMS for m in P.cls(n).enum_members()]


def member(c, m):
    return mk("enum", c.qual, m)


def plain(m):
    return m.removeprefix("ANNUALIZED_")


def annual_degree(m):
    """Power of the annualisation factor in an annualised measure."""
    if not m.startswith("ANNUALIZED_"):
        return 0
    return 1 if m.endswith(("MEAN", "VARIANCE")) else 0.5


def linked(m):
    """Risk measure in the denominator of a ratio."""
    p = plain(m)
    r = LINKED.get(p, p.removesuffix("_RATIO"))
    return ("ANNUALIZED_" if m != p else "") + r


def slots(P, cls):
    """Names of all slots, or None when they are not a plain display."""
    out = set()
    for c in cls.repo_mro():
        if "__slots__" not in c.attrs:
            continue
        v = Evaluator(P).class_attr(c, c.attrs["__slots__"])
        xs = [x for x in v.args if hasattr(x, "op")] if v.op in ("set", "list", "tuple") else None
        if xs is None or not all(is_const(x) for x in xs):
            return None
        out |= {cval(x) for x in xs}
    return out
