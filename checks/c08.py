"""C08: every constraint the user sets reaches the problem, in its direction."""

from fractions import Fraction
from itertools import product

from sa.convex import (
    OPTIMISERS, Model, Pretty, enum_member, fixed_by_constructor, is_call, is_variable, options_off, reads, satisfiable_gap,
)  # fmt: skip
from sa.folds import Polarity, constraint_polarity, orient
from sa.index import AnalysisBroken
from sa.poly import Reader, Unknown, feasible, name, number
from sa.vg import NONE, T, cval, is_const, mk, walk

#: option -> (side of the option, partner options set together with it)
UPPER, LOWER, EQUAL = "upper", "lower", "equal"
LIMITS = {
    "min_weights": (LOWER, ()),
    "max_weights": (UPPER, ()),
    "budget": (EQUAL, ()),
    "min_budget": (LOWER, ()),
    "max_budget": (UPPER, ()),
    "max_short": (UPPER, ()),
    "max_long": (UPPER, ()),
    "max_turnover": (UPPER, ()),
    "max_tracking_error": (UPPER, ()),
    "min_return": (LOWER, ()),
    "cardinality": (UPPER, ()),
    "threshold_long": (LOWER, ()),
    "threshold_short": (UPPER, ()),
    "right_inequality": (UPPER, ("left_inequality",)),
}
#: what the limit acts on, and the formal sign with which it must occur in
#: g <= 0: (kind, accepted signs)
QUANTITY = {
    "min_weights": ("w", {"-"}),
    "max_weights": ("w", {"+"}),
    "budget": ("w", {"+", "-"}),
    "min_budget": ("w", {"-"}),
    "max_budget": ("w", {"+"}),
    "max_short": ("w", {"-"}),
    "max_long": ("w", {"+"}),
    "max_turnover": ("w", {"m+"}),
    "max_tracking_error": ("w", {"m+"}),
    "min_return": ("mu", {"-"}),
    "cardinality": ("bool", {"+"}),
    "threshold_long": ("w", {"-"}),
    "threshold_short": ("w", {"+"}),
    "right_inequality": ("w", {"+"}),
}
#: a limit that is vacuous unless the other option leaves room for it
VACUOUS_WITHOUT = {"threshold_short": {"min_weights"}}
#: limits of one asset, for the options that make an asset held or not held
HOLDINGS = {
    "cardinality": {"cardinality": 1, "min_weights": 0, "max_weights": "3/5"},
    "cardinality with short": {"cardinality": 1, "min_weights": "-2/5", "max_weights": "3/5"},
    "threshold_long": {"threshold_long": "1/5", "min_weights": 0, "max_weights": "3/5"},
    "threshold_short": {"threshold_long": "1/5", "threshold_short": "-1/10", "min_weights": "-2/5", "max_weights": "3/5"},
}
HOLDINGS |= {f"cardinality and {k}": {"cardinality": 1, **v} for k, v in HOLDINGS.items() if k.startswith("threshold")}
OBJECTIVES = ("MINIMIZE_RISK", "MAXIMIZE_RATIO")
MATRIX = "equations_to_matrix"
GROUPS = "group_cardinalities_to_matrix"


def check(P, rep):
    rep.rule("limit-present", "a limit that is set is part of the solved problem whatever the other options are", need=34)
    rep.rule(
        "limit-direction", "lower limits bound from below, upper limits from above, on the quantity they are named after", need=34
    )
    rep.rule(
        "linear-constraints",
        "textual linear constraints: equality and inequality "
        "systems are imposed as such, coefficients against weights, constants on the "
        "other side",
        need=8,
    )
    rep.rule(
        "integer-link",
        "the indicator variables counted by cardinality options "
        "bound the weights, and an asset is either not held or held beyond its threshold",
        need=2,
    )
    rep.rule("custom-constraints", "constraints returned by the user's function are part of the problem", need=3)
    for one in OPTIMISERS:
        cls = P.cls(one)
        params = cls.init().params()
        for prm in LIMITS:
            if prm in params:
                limit(P, rep, cls, prm)
        if "linear_constraints" in params:
            linear(P, rep, cls)
        if "group_cardinalities" in params:
            groups(P, rep, cls)
            for label, values in HOLDINGS.items():
                if set(values) <= set(params):
                    for objective in OBJECTIVES if "objective_function" in params else (None,):
                        holdings(P, rep, cls, label, values, objective)
        if "add_constraints" in params:
            custom(P, rep, cls)


def model(P, cls, prm, extra=(), **kw):
    attrs = {prm: mk("given", prm), **{x: mk("given", x) for x in extra}}
    if "overwrite_expected_return" in cls.init().params():
        attrs.setdefault("overwrite_expected_return", NONE)
    return Model(P, cls, attrs, **kw), attrs[prm]


def limit(P, rep, cls, prm):
    side, partners = LIMITS[prm]
    inst = f"{cls.name}.{prm}"
    try:
        m, g = model(P, cls, prm, partners)
    except AnalysisBroken as e:
        rep.undecided("limit-present", inst, cls.loc, str(e))
        return
    rep.saw(m.ev)
    tied = {p for p, vs in m.bound.items() if any(x is g for v in vs for x in walk(v))}
    pol = Polarity(lambda t: t is g or t in tied)
    found = [(c, cond) for c, cond in m.constraints if pol.depends(c)]
    pp = Pretty()
    loc = found[0][0].loc if found else m.problem.loc
    if not found:
        rep.bad("limit-present", inst, m.problem.loc, f"no constraint of the solved problem depends on `{prm}`")
        return
    # direction ----------------------------------------------------------
    kind, accept = QUANTITY[prm]
    mu = lambda t: t.op == "attr" and t.args[1] == "mu"  # noqa: E731
    target = {
        "w": lambda t: t is m.w,
        "mu": mu,
        "bool": lambda t: is_variable(t) and "boolean" in dict(t.args[2]),
    }[kind]
    qpol = Polarity(target)
    good = []
    for c, cond in found:
        k, _ = orient(c)
        ps, qs = constraint_polarity(c, pol), constraint_polarity(c, qpol)
        if ps is None or qs is None or "?" in ps or "?" in qs:
            rep.undecided("limit-direction", inst, c.loc, pp(c, 5)[:120])
            good.append(cond)
            continue
        if not qs:
            # couples the option to something else (e.g. an auxiliary variable)
            continue
        if side != EQUAL and len(qs) > 1:
            # a combination of signs and magnitudes, whose direction is not formal
            rep.undecided("limit-direction", inst, c.loc, pp(c, 5)[:120])
            good.append(cond)
            continue
        want = {UPPER: {"-"}, LOWER: {"+"}, EQUAL: {"-", "+"}}[side]
        if side == EQUAL:
            okk = k == "==" and len(ps) == 1 and len(qs) == 1 and ps != qs
        else:
            okk = k == "<=" and ps == want and qs <= accept and bool(qs)
        # a budget given as equality may also be imposed by both inequalities
        rep.check(
            okk,
            "limit-direction",
            inst,
            c.loc,
            f"`{prm}` is a{'n' if side != LOWER else ''} {side} limit but the constraint is {pp(c, 6)[:160]}",
        )
        if okk:
            good.append(cond)
    # presence -------------------------------------------------------------
    if not good:
        rep.bad("limit-present", inst, loc, f"no constraint bounds the weights by `{prm}`")
        return
    own = {prm, *partners} | VACUOUS_WITHOUT.get(prm, set())

    options = {p for p in cls.init().params() if not p.endswith("estimator")}

    def is_own(t):
        others = {x.args[1] for x in walk(t) if x.op == "attr" and x.args[0].op == "self"} & options - own
        data = any(x.op == "given" for x in walk(t)) or any(reads(t, o) for o in own)
        return data and not others and t.op not in ("and", "or")

    guards = [tuple(a for a in cond) for cond in good]
    gap = satisfiable_gap(guards, is_own)
    if gap == "too many conditions":
        rep.undecided("limit-present", inst, loc, gap)
        return
    why = ""
    if gap is not None:
        why = ", ".join(f"{pp(t, 4)[:60]}={v}" for t, v in gap.items())
    rep.check(gap is None, "limit-present", inst, loc, f"`{prm}` is dropped from the problem when {why}")


def calls_to(t, fname):
    for x in walk(t):
        if x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0].endswith("." + fname):
            yield x


def system_part(t, fname, i):
    """Is ``t`` the i-th array returned by the conversion function?"""
    while is_call(t, "numpy.asarray", "numpy.array"):
        t = t.args[1][0]
    return (
        t.op == "sub" and t.args[1].op == "const" and t.args[1].args[0].v == i
        and t.args[0].op == "call" and t.args[0].args[0].op == "fn"
        and t.args[0].args[0].args[0].endswith("." + fname)
    )  # fmt: skip


def system(rep, rule, m, inst, fname, il, ir, kind, target, own):
    """coef @ target - const (kind) 0 must be in the problem."""
    pl = Polarity(lambda t: system_part(t, fname, il))
    pr = Polarity(lambda t: system_part(t, fname, ir))
    pt = Polarity(target)
    pp = Pretty()
    hits = [(c, g) for c, g in m.constraints if pl.depends(c) or pr.depends(c)]
    if not hits:
        rep.bad(rule, inst, m.problem.loc, "the converted system is not part of the problem")
        return
    good = []
    for c, g in hits:
        k, _ = orient(c)
        a, b, t = (constraint_polarity(c, x) for x in (pl, pr, pt))
        if a is None or "?" in a | b | t:
            rep.undecided(rule, inst, c.loc, pp(c, 5)[:120])
            good.append(g)
            continue
        if k == "==":
            okk = kind == "==" and a and b and a != b
        else:
            okk = kind == "<=" and a == {"+"} and b == {"-"} and t == {"+"}
        rep.check(bool(okk), rule, inst, c.loc, f"wrong use of the converted system: {pp(c, 6)[:160]}")
        if okk:
            good.append(g)
    if good:

        def is_own(t):
            if any(calls_to(t, fname)):
                # a condition on this system's own arrays (e.g. no row at all)
                return not any(system_part(x, fname, i) for x in walk(t) for i in range(4) if i not in (il, ir))
            return any(y.op == "given" and y.args[0] == own for y in walk(t))

        gap = satisfiable_gap([tuple(g) for g in good], is_own)
        if gap is not None and gap != "too many conditions":
            why = ", ".join(f"{pp(t, 4)[:60]}={v}" for t, v in gap.items())
            rep.bad(rule, inst, hits[0][0].loc, f"dropped when {why}")


def linear(P, rep, cls):
    f = P.func(MATRIX)
    m, _ = model(P, cls, "linear_constraints", no_inline=(f.qual,))
    rep.saw(m.ev)
    w = lambda t: t is m.w  # noqa: E731
    system(
        rep, "linear-constraints", m, f"{cls.name}.linear_constraints[equalities]", MATRIX, 0, 1, "==", w, "linear_constraints"
    )
    system(
        rep, "linear-constraints", m, f"{cls.name}.linear_constraints[inequalities]", MATRIX, 2, 3, "<=", w, "linear_constraints"
    )


def groups(P, rep, cls):
    f = P.func(GROUPS)
    m, _ = model(P, cls, "group_cardinalities", no_inline=(f.qual,))
    rep.saw(m.ev)
    isbool = lambda t: is_variable(t) and "boolean" in dict(t.args[2])  # noqa: E731
    system(rep, "linear-constraints", m, f"{cls.name}.group_cardinalities", GROUPS, 0, 1, "<=", isbool, "group_cardinalities")
    # indicators must bound the weights ---------------------------------------
    m, g = model(P, cls, "cardinality")
    rep.saw(m.ev)
    wpol = Polarity(lambda t: t is m.w)
    counted = {}
    for c, cond in m.constraints:
        if any(x is g for x in walk(c)) and orient(c)[0] == "<=":
            for x in walk(c, into_cond=False):
                if isbool(x):
                    counted[x] = c
    for b, c in counted.items():
        reach = closure(m, b)
        up = any(
            "+" in (constraint_polarity(k, wpol) or ())
            and any(x in reach for x in walk(side_without(k, m.w), into_cond=False))
            for k, _ in m.constraints if orient(k)[0] == "<=" and wpol.depends(k)
        )  # fmt: skip
        lo = any(
            "-" in (constraint_polarity(k, wpol) or ())
            and any(x in reach for x in walk(side_without(k, m.w), into_cond=False))
            for k, _ in m.constraints if orient(k)[0] == "<=" and wpol.depends(k)
        )  # fmt: skip
        rep.check(
            up or lo,
            "integer-link",
            f"{cls.name}.cardinality#{list(counted).index(b)}",
            c.loc,
            "the counted indicator never bounds a weight",
        )


def side_without(c, w):
    _, (a, b) = orient(c)
    return b if any(x is w for x in walk(a)) else a


def closure(m, b):
    """Indicator and the variables bounded above by it."""
    out = {b}
    for _ in range(2):
        for c, _g in m.constraints:
            k, ab = orient(c)
            if k == "<=" and is_variable(ab[0]) and any(x in out for x in walk(ab[1])):
                out.add(ab[0])
    return out


class Asset:
    """The limits on the weight of one asset, for given limits and a given rescaling factor."""

    def __init__(self, m, values, factor):
        self.m, self.values, self.scale, self.names = m, values, factor, {}
        self.factors = set(m.factor_terms())
        self.reader = Reader(self.atom)

    def atom(self, t):
        if t is self.m.w:
            return name("w")
        if t in self.factors and is_variable(t):
            return number(self.scale)
        if is_variable(t):
            return name(self.named(t))
        if is_call(t, "cvxpy.Constant") and len(t.args[1]) == 1:
            return self.atom(t.args[1][0]) or (number(Fraction(cval(t.args[1][0]))) if is_const(t.args[1][0]) else None)
        if is_call(t, "cvxpy.multiply") and len(t.args[1]) == 2:
            ((c, x),) = self.reader.cases(t.args[1][0])
            ((d, y),) = self.reader.cases(t.args[1][1])
            if c or d:
                raise Unknown
            return self.reader.arith("*", x, y)
        if t.op in ("bin", "neg", "un") or is_const(t):
            return None
        of = {x.args[0] for x in walk(t) if x.op == "given"}
        if any(is_variable(x) for x in walk(t)):
            return None
        if len(of) == 1 and of <= set(self.values):
            return number(Fraction(self.values[of.pop()]))
        if not of and any(x.op == "attr" and x.args[1] == "scale_constraints" for x in walk(t)):
            return number(1)
        return None

    def named(self, v):
        return self.names.setdefault(v, f"v{len(self.names)}")

    def linear(self, t):
        cs = self.reader.cases(t)
        if len(cs) != 1 or cs[0][0]:
            raise Unknown
        return cs[0][1]

    def holds(self, t):
        """Whether a condition on the limits holds, or None."""
        if t.op == "not":
            v = self.holds(t.args[0])
            return None if v is None else not v
        if t.op in ("and", "or"):
            vs = [self.holds(x) for x in t.args]
            stop = t.op == "or"
            return stop if stop in vs else None if None in vs else not stop
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.any", "numpy.all") and len(t.args[1]) == 1:
            return self.holds(t.args[1][0])
        if t.op == "cmp":
            op, a, b = t.args
            if op in ("is", "is not") and b is NONE:
                try:
                    self.linear(a)
                except Unknown:
                    return None
                return op == "is not"
            if op in ("<", "<=", ">", ">="):
                given = {x.args[0] for x in walk(t) if x.op == "given"}
                if given == {"cardinality"}:
                    return True
            try:
                v = self.linear(a).value, self.linear(b).value
            except Unknown:
                return None
            if None in v:
                return None
            x, y = v
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}.get(op)
        return None

    def read(self):
        """Constraints on the asset, counted expressions and the indicators."""
        cons, counted = [], []
        indicators = [v for v in self.m.variables() if "boolean" in dict(v.args[2])]
        linked = set(indicators)
        while True:
            more = {
                v for c, _ in self.m.constraints for v in walk(c)
                if is_variable(v) and v is not self.m.w and v not in self.factors and v not in linked
                and any(x in linked for x in walk(c))
            }  # fmt: skip
            if not more:
                break
            linked |= more
        for c, cond in self.m.constraints:
            about = any(x in linked for x in walk(c))
            if not about and not any(x is self.m.w for x in walk(c)):
                continue
            try:
                kind, ab = orient(c)
                if kind not in ("<=", "=="):
                    raise Unknown
                live = [self.holds(g[0]) if isinstance(g[0], T) else None for g in cond]
                if any(v is not None and v != g[1] for v, g in zip(live, cond)):
                    continue
                if None in live:
                    raise Unknown
                if is_call(ab[0], "cvxpy.sum") and about:
                    counted.append((self.linear(ab[0].args[1][0]), c))
                    continue
                d = self.linear(ab[1]) - self.linear(ab[0])
            except (Unknown, ValueError):
                if about:
                    raise Unknown from None
                continue
            cons.append((d, False))
            if kind == "==":
                cons.append((d.scale(-1), False))
        for v in linked:
            if "nonneg" in dict(v.args[2]) or v in indicators:
                cons.append((name(self.named(v)), False))
        return cons, counted, [self.named(v) for v in indicators]


def holdings(P, rep, cls, label, values, objective):
    base = fixed_by_constructor(P, cls)
    if objective is not None:
        base["objective_function"] = enum_member(P, "ObjectiveFunction", objective)
    m = Model(P, cls, options_off(cls, base, tuple(values)))
    rep.saw(m.ev)
    inst = f"{cls.name}.{label}" + (f"[{objective}]" if objective else "")
    try:
        found = None
        for f in (Fraction(1, 2), Fraction(2)):
            if not any(is_variable(x) for x in m.factor_terms()):
                f = Fraction(1)
            found = found or held(Asset(m, values, f), values, f)
    except Unknown:
        rep.check(None, "integer-link", inst, m.problem.loc, "the limits of one asset are not linear")
        return
    if found == "none":
        rep.check(None, "integer-link", inst, m.problem.loc, "no indicator variables")
        return
    rep.check(found is None, "integer-link", inst, m.problem.loc, f"{found}")


def held(asset, values, f):
    """What an asset may be held at though the options exclude it, or None."""
    cons, counted, indicators = asset.read()
    if not indicators or len(indicators) > 4:
        return "none"
    w = name("w")
    gaps = []
    if "threshold_long" in values:
        gaps.append(
            ("long position below `threshold_long`", w, name("w").scale(-1) + number(Fraction(values["threshold_long"]) * f))
        )
    if "threshold_short" in values:
        gaps.append(("short position above `threshold_short`", w.scale(-1), w - number(Fraction(values["threshold_short"]) * f)))
    for bits in product((0, 1), repeat=len(indicators)):
        fixed = list(cons)
        for b, v in zip(indicators, bits):
            d = name(b) - number(v)
            fixed += [(d, False), (d.scale(-1), False)]
        for what, lo, hi in gaps:
            if feasible([*fixed, (lo, True), (hi, True)]):
                return f"the constraints let an asset have a {what}"
        if "cardinality" in values:
            for form, _ in counted:
                none = number(0)
                for k, c in form.d.items():
                    none = none + (
                        number(c) if k is None else number(c * bits[indicators.index(k)]) if k in indicators else name(k).scale(c)
                    )
                if none.value is not None and none.value <= 0:
                    for sign in (1, -1):
                        if feasible([*fixed, (w.scale(sign), True)]):
                            return "the constraints let an asset be held that `cardinality` does not count"
    return None


def custom(P, rep, cls):
    m, g = model(P, cls, "add_constraints")
    rep.saw(m.ev)
    hits = [
        (c, cond) for c, cond in m.constraints
        if c.op == "call" and any(x is g for x in walk(c.args[0]))
    ]  # fmt: skip
    inst = f"{cls.name}.add_constraints"
    if not hits:
        rep.bad("custom-constraints", inst, m.problem.loc, "the user's constraints are not part of the problem")
        return
    gap = satisfiable_gap([tuple(cd) for _, cd in hits], lambda t: False)
    rep.check(gap is None, "custom-constraints", inst, hits[0][0].loc, "the user's constraints are dropped on some path")
