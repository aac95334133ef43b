"""C11: a failed solve never yields a portfolio silently."""

from sa.convex import (
    OPTIMISERS, Model, enum_member, fixed_by_constructor, is_call, is_variable, options_off,
)  # fmt: skip
from sa.folds import ANY, UNK, Conflict, Degree
from sa.index import AnalysisBroken
from sa.vg import Evaluator, T, const, is_const, mk, walk

SOLVER_ERROR = ("cvxpy.SolverError", "cvxpy.error.SolverError", "Exception", "BaseException")


def check(P, rep):
    rep.rule("caught", "every solve runs where a solver error is handled", need=8)
    rep.rule("raises", "a failed solve raises a solver error when asked to raise", need=4)
    rep.rule("warns", "a failed solve warns when asked not to raise", need=4)
    rep.rule("not-muted", "warnings are only muted around the solver call", need=8)
    rep.rule("no-solution", "a solve without a value counts as failed before its value is used", need=8)
    rep.rule("inaccurate", "a solution that is not optimal gives a warning", need=8)
    rep.rule("same-solve", "weights and problem values are recorded together, after the solve", need=8)
    rep.rule("result-present", "a result is only taken from solves that succeeded", need=1)
    rep.rule("own-row", "each predicted portfolio gets the weights of its own problem", need=0)
    rep.rule("values-scaled", "problem values are rescaled according to their homogeneity", need=15)
    for name in OPTIMISERS:
        cls = P.cls(name)
        for flag in (True, False):
            base = fixed_by_constructor(P, cls)
            base["raise_on_failure"] = const(flag)
            solve(P, rep, cls, Model(P, cls, options_off(cls, base)), flag)
        if "min_return" in cls.init().params():
            # several solves, one for each value
            m = Model(P, cls, options_off(cls, fixed_by_constructor(P, cls), ("min_return",)))
            rep.saw(m.ev)
            told(rep, m, muted_regions(m.ev.effects), f"{cls.name}[several]")
        own_row(P, rep, cls)
    values(P, rep)


def own_row(P, rep, cls):
    """Predicting from several sets of weights gives one portfolio for each of them."""
    f = cls.find_method("predict")
    ev = Evaluator(P, budget=2_000_000, inline=lambda f: f.cls is None or cls.is_subclass(f.cls.qual))
    ev.run(f, cls=cls)
    rep.saw(ev)
    for e in ev.effects:
        if e.kind != "call" or e.data[0].op != "cls" or e.data[0].args[0] != P.cls("Portfolio").qual:
            continue
        loops = [g.args[0] for g, _ in e.guard if isinstance(g, T) and g.op == "inloop"]
        w = dict(e.data[2]).get("weights")
        if w is None or not loops:
            continue
        own = any(x.op == "elem" and x.args[1] in loops for x in walk(w))
        rep.check(own, "own-row", f"{cls.name}.predict", e.loc, "all predicted portfolios get the same weights")


def terms_of(e):
    for x in e.data if isinstance(e.data, tuple) else (e.data,):
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    yield from (z for z in y if isinstance(z, T))


def is_solve(e, problem):
    if e.kind != "call" or not isinstance(e.data[0], T):
        return False
    f = e.data[0]
    return f.op in ("meth", "attr") and f.args[1] == "solve" and f.args[0] is problem.term


def value_is_none(t, w):
    return (
        t.op == "cmp" and t.args[0] in ("is", "==") and is_const(t.args[2]) and t.args[2].args[0].v is None
        and t.args[1].op == "attr" and t.args[1].args[1] == "value" and t.args[1].args[0] is w
    )  # fmt: skip


def solve(P, rep, cls, m, flag):
    effs = m.ev.effects
    rep.saw(m.ev)
    inst = f"{cls.name}[raise_on_failure={flag}]"
    solves = [i for i, e in enumerate(effs) if is_solve(e, m.problem)]
    if not solves:
        raise AnalysisBroken(f"{cls.name}.fit: the problem is never solved")
    handlers = [
        (i, e) for i, e in enumerate(effs)
        if e.kind == "handler" and any(s in e.data[2] for s in solves)
        and any(t in SOLVER_ERROR for t in e.data[1])
    ]  # fmt: skip
    for s in solves:
        rep.check(any(s in e.data[2] for _, e in handlers), "caught", inst, effs[s].loc, "a solver error is not handled here")
    # what the handler does -------------------------------------------------
    muted = muted_regions(effs)
    for i, h in handlers:
        end, dead = next((j, e.data[1]) for j, e in enumerate(effs) if e.kind == "endhandler" and e.data[0] == i)
        body = effs[i + 1 : end]
        if flag:
            raises = [e for e in body if e.kind == "raise"]
            ok = dead and all(raise_name(e.data) in SOLVER_ERROR[:2] or e.data.op == "reraise" for e in raises)
            rep.check(ok, "raises", inst, h.loc, "the failure is swallowed although raising was asked for")
        else:
            warn = [
                (j, e) for j, e in enumerate(effs[i + 1 : end], i + 1)
                if e.kind == "call" and is_ext(e.data[0], "warnings.warn") and len(e.guard) <= len(h.guard)
            ]  # fmt: skip
            ok = any(not any(a < j < b for a, b in muted) for j, _ in warn)
            rep.check(ok, "warns", inst, h.loc, "no warning is given for a failed solve")
    # muting ------------------------------------------------------------------
    for j, e in enumerate(effs):
        if e.kind == "call" and is_ext(e.data[0], "warnings.simplefilter", "warnings.filterwarnings"):
            if not any(is_const(t) and t.args[0].v == "ignore" for t in terms_of(e)):
                continue
            region = [(a, b) for a, b in with_regions(effs) if a < j < b]
            rep.check(bool(region), "not-muted", inst, e.loc, "warnings stay muted after the solve")
            for a, b in region:
                hidden = [x for x in effs[a:b] if x.kind == "call" and is_ext(x.data[0], "warnings.warn")]
                rep.check(not hidden, "not-muted", inst + ".warn", e.loc, "the warning about a failed solve is muted")
    # value present -------------------------------------------------------------
    tested = [
        j for j, e in enumerate(effs)
        if e.kind == "raise" and any(value_is_none(t, m.w) and p for t, p in e.guard)
    ]  # fmt: skip
    records = []
    for j, e in enumerate(effs):
        if e.kind not in ("mutcall", "store", "setitem"):
            continue
        if e.kind == "store" and (e.data[0].op != "self" or e.data[1] == "problem_"):
            continue
        vals = [
            y for t in terms_of(e) for y in walk(t, into_cond=False)
            if y.op == "attr" and y.args[1] == "value"
            and (y.args[0] is m.w or y.args[0] is m.problem.term)
        ]  # fmt: skip
        if vals and e.kind != "store":
            records.append((j, e, vals))
    for j, e, vals in records:
        ok = any(value_is_none(t, m.w) and p is False for t, p in e.guard)
        rep.check(
            ok and bool(tested),
            "no-solution",
            inst,
            e.loc,
            "a value is recorded without having checked that the solver returned one",
        )
        rep.check(
            all(s < j for s in solves), "same-solve", inst + ".after", e.loc, "a value is recorded before the problem was solved"
        )
    # together ------------------------------------------------------------------
    appends = [(j, e) for j, e, v in records if e.kind == "mutcall" and e.data[1] == "append"]
    if len(appends) >= 2:
        lists = {}
        for j, e in appends:
            lists.setdefault(e.data[0], []).append((j, e))
        ns = {len(v) for v in lists.values()}
        guards = {e.guard for _, e in appends}
        inside = {tuple(any(j in h.data[2] for _, h in handlers) for j, _ in appends)}
        a, b = min(j for j, _ in appends), max(j for j, _ in appends)
        fallible = [
            e for e in effs[a:b]
            if e.kind in ("raise", "handler") or is_solve(e, m.problem)
        ]  # fmt: skip
        ok = (
            len(ns) == 1 and len(guards) == 1 and inside in ({(True,) * len(appends)}, {(False,) * len(appends)}) and not fallible
        )
        rep.check(ok, "same-solve", inst, appends[0][1].loc, "weights and problem values can come from different solves")
    else:
        rep.undecided("same-solve", inst, m.problem.loc, "weights and values are not collected in lists")
    # inaccurate ------------------------------------------------------------------
    ok = False
    for j, e in enumerate(effs):
        if e.kind == "call" and is_ext(e.data[0], "warnings.warn") and not any(a < j < b for a, b in muted):
            for t, p in e.guard:
                for y in walk(t):
                    if y.op == "attr" and y.args[1] == "status" and y.args[0] is m.problem.term:
                        ok = True
    rep.check(ok, "inaccurate", inst, m.problem.loc, "no warning depends on the status of the solve")
    told(rep, m, muted, inst)
    # empty results -----------------------------------------------------------------
    lists = {e.data[0] for _, e in appends}
    if not lists:
        rep.undecided("result-present", inst, m.problem.loc, "weights and values are not collected in lists")
    for j, e in enumerate(effs):
        if e.kind == "index" and isinstance(e.data[0], T) and is_const(e.data[1]):
            base = [y for y in walk(e.data[0]) if y in lists]
            if not base or e.data[0].op not in ("cat", "list"):
                continue
            swallowed = any(not x.data[1] for x in effs if x.kind == "endhandler" and any(x.data[0] == i for i, _ in handlers))
            guarded = any(any(y in lists for y in walk(t)) for t, _ in e.guard)
            rep.check(
                not swallowed or guarded,
                "result-present",
                f"{e.func.cls.name if e.func and e.func.cls else cls.name}.first_result",
                e.loc,
                "the first result is taken although every solve may have failed",
            )


#: outcomes of consecutive solves with a solution, after which a warning is due
RUNS = {
    "inaccurate": ("optimal_inaccurate",),
    "inaccurate then optimal": ("optimal_inaccurate", "optimal"),
    "optimal then inaccurate": ("optimal", "optimal_inaccurate"),
    "limit reached": ("user_limit",),
}


def told(rep, m, muted, inst):
    """Whether the warning is given for every run of solves with one that is not optimal."""
    status = lambda t: t.op == "attr" and t.args[1] == "status" and t.args[0] is m.problem.term  # noqa: E731
    warns = []
    for j, e in enumerate(m.ev.effects):
        if e.kind == "call" and is_ext(e.data[0], "warnings.warn") and not any(a < j < b for a, b in muted):
            about = [(g[0], g[1]) for g in e.guard if isinstance(g[0], T) and any(status(y) for y in walk(g[0]))]
            if about:
                warns.append((e, about))
    looped = any(
        t.op == "loop" and any(status(y) for y in walk(t.args[3])) for _, about in warns for g, _ in about for t in walk(g)
    )
    for label, run in RUNS.items():
        if len(run) > 1 and not looped:
            continue
        results = []
        for e, about in warns:
            rs = [flag(g, run, status) for g, _ in about]
            if None in rs:
                # inside the loop over the solves
                rs = [any(flag(g, (s,), status) == p for s in run) or None for g, p in about]
                results.append(True if all(rs) else None)
            else:
                results.append(all(bool(r) == p for r, (_, p) in zip(rs, about)))
        if not results:
            continue
        rep.check(
            True if True in results else None if None in results else False,
            "inaccurate",
            f"{inst}.{label}",
            warns[0][0].loc,
            f"no warning is given when the status of the solves is {', '.join(run)}",
        )


def flag(t, run, status):
    """The value of a flag after solves with the given statuses, or None."""

    def value(x, s, prev):
        if is_const(x):
            return x.args[0].v
        if status(x):
            return s
        if x.op == "ext":
            name = x.args[0].rsplit(".", 1)[-1]
            return name.lower() if name.isupper() else None
        if x.op == "prev":
            return prev.get(x.args[:2])
        if x.op == "loop":
            tag, name, init, body = x.args[:4]
            v = value(init, s, prev)
            for one in run:
                if v is None:
                    return None
                v = value(body, one, {**prev, (tag, name): v})
            return v
        if x.op in ("exc", "excpoint"):
            return False
        if x.op == "phi":
            c = value(x.args[0], s, prev)
            return None if c is None else value(x.args[1] if c else x.args[2], s, prev)
        if x.op == "not":
            v = value(x.args[0], s, prev)
            return None if v is None else not v
        if x.op in ("and", "or"):
            vs = [value(y, s, prev) for y in x.args]
            stop = x.op == "or"
            if any(v is not None and bool(v) == stop for v in vs):
                return stop
            return None if None in vs else not stop
        if x.op in ("tuple", "list", "set"):
            vs = [value(y, s, prev) for y in x.args]
            return None if None in vs else tuple(vs)
        if x.op == "bin" and x.args[0] in ("&", "|"):
            a, b = value(x.args[1], s, prev), value(x.args[2], s, prev)
            return None if a is None or b is None else (a and b) if x.args[0] == "&" else (a or b)
        if x.op == "cmp":
            op, a, b = x.args[0], value(x.args[1], s, prev), value(x.args[2], s, prev)
            if a is None or b is None:
                return None
            if op in ("==", "is"):
                return a == b
            if op in ("!=", "is not"):
                return a != b
            if op in ("in", "not in") and isinstance(b, (tuple, str)):
                return (a in b) == (op == "in")
        return None

    try:
        return value(t, run[-1], {})
    except RecursionError:
        return None


def is_ext(t, *names):
    return isinstance(t, T) and t.op == "ext" and t.args[0] in names


def raise_name(t):
    if t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0]
    if t.op == "ext":
        return t.args[0]
    return ""


def with_regions(effs):
    out = []
    for j, e in enumerate(effs):
        if e.kind == "endwith":
            w = effs[e.data[0]]
            if any(is_call(t, "warnings.catch_warnings") for t in w.data):
                out.append((e.data[0], j))
    return out


def muted_regions(effs):
    """Effect ranges in which warnings are ignored."""
    out = []
    regions = with_regions(effs)
    for j, e in enumerate(effs):
        if e.kind == "call" and is_ext(e.data[0], "warnings.simplefilter", "warnings.filterwarnings"):
            if any(is_const(t) and t.args[0].v == "ignore" for t in terms_of(e)):
                ends = [b for a, b in regions if a < j < b]
                out.append((j, min(ends) if ends else len(effs)))
    return out


def values(P, rep):
    """The number of divisions by the factor equals the degree of the expression."""
    cls = P.cls("MeanRisk")
    risks = [r for r in P.cls("RiskMeasure").enum_members() if not r.startswith("ANNUALIZED")]
    for r in [*risks, "VARIANCE+uncertainty"]:
        base = fixed_by_constructor(P, cls)
        base["risk_measure"] = enum_member(P, "RiskMeasure", r.split("+")[0])
        base["objective_function"] = enum_member(P, "ObjectiveFunction", "MAXIMIZE_RATIO")
        base["l1_coef"] = base["l2_coef"] = const(0)
        base["scale_constraints"] = base["scale_objective"] = mk("given", "scale")
        keep = ()
        if "+" in r:
            keep = ("covariance_uncertainty_set_estimator",)
        m = Model(P, cls, options_off(cls, base, keep))
        rep.saw(m.ev)
        factors = m.factor_terms()
        if len(factors) != 1 or not is_variable(factors[0]):
            rep.undecided("values-scaled", r, m.problem.loc, "no single factor")
            continue
        D = Degree({m.w: 1, factors[0]: 1})
        for c, _ in [*m.constraints] * 3:
            try:
                D.constraint(c)
            except Conflict:  # decided by C09
                pass
        for key, t in recorded(m):
            if key in ("factor", "objective", "regularization"):
                continue
            n, x = 0, t
            while x.op == "bin" and x.args[0] == "/" and x.args[2] is mk("attr", factors[0], "value"):
                n, x = n + 1, x.args[1]
            if x.op != "attr" or x.args[1] != "value":
                rep.undecided("values-scaled", f"{r}.{key}", m.problem.loc, "unrecognised value")
                continue
            try:
                d = D.of(x.args[0])
            except Conflict:
                d = UNK
            if d in (ANY, UNK):
                rep.undecided("values-scaled", f"{r}.{key}", m.problem.loc, "unknown degree")
                continue
            rep.check(
                d == n,
                "values-scaled",
                f"{r}.{key}",
                t.loc or m.problem.loc,
                f"the value of `{key}` is divided {n} times by the factor but has degree {d}",
            )


def recorded(m):
    """(key, term) of the problem values that are stored."""
    out = {}
    for e in m.stores("problem_values_"):
        for t in walk(e.data[2], into_cond=False):
            if t.op == "dict":
                for kv in t.args[1:]:
                    if isinstance(kv, tuple) and len(kv) == 2 and isinstance(kv[1], T):
                        k = kv[0].args[0].v if isinstance(kv[0], T) and is_const(kv[0]) else kv[0]
                        out[str(k)] = kv[1]
            if t.op == "upd" and is_const(t.args[1]):
                out[str(t.args[1].args[0].v)] = t.args[2]
    return out.items()
