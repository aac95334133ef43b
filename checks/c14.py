"""C14: every measure is computed from its own definition and settings everywhere."""

from checks.c03 import alternatives
from sa.estimators import selfterm
from sa.folds import ANY, IDENTITY, UNK, Conflict, Degree, Polarity
from sa.index import AnalysisBroken
from sa.portfolios import annual_degree, classes, linked, measures, member, plain, slots
from sa.vg import Evaluator, T, const, cval, is_const, mk, walk

WINDOW = mk("given", "window")


def check(P, rep):
    rep.rule("own-function", "a measure is computed by its own function", need=50)
    rep.rule("own-settings", "the function gets the series and settings that belong to the measure", need=55)
    rep.rule("annualised", "annualised measures carry the right power of the factor", need=40)
    rep.rule("ratio", "a ratio is the excess mean over the linked risk", need=60)
    rep.rule("by-name", "reading a measure by name computes and keeps that measure", need=60)
    rep.rule("has-slot", "every measure has a place to be kept", need=60)
    rep.rule("stored", "every setting is kept under its own name", need=25)
    rep.rule("rolling", "the rolling view computes the same measure on each window", need=60)
    rep.rule("views", "collection views read the measure that is asked for", need=40)
    rep.rule("passed-on", "a measure built on another one hands its parameters on", need=8)
    rep.rule("series", "cumulative returns and drawdowns follow the same compounding", need=4)
    fns = functions(P)
    opaque = set(fns.values())
    for cls in classes(P):
        for c, m in measures(P):
            value(P, rep, cls, c, m, fns, opaque)
            rolling(P, rep, cls, c, m, fns, opaque)
            by_name(P, rep, cls, c, m)
        stored(P, rep, cls)
        series(P, rep, cls)
    population(P, rep)
    delegated(P, rep, fns)


def functions(P):
    """Public measure functions by name."""
    out = {}
    for _, m in measures(P):
        q = P.canonical(f"skfolio.measures.{plain(m).lower()}")
        if q in P.funcs:
            out[plain(m).lower()] = P.funcs[q]
    if len(out) < 20:
        raise AnalysisBroken(f"only {len(out)} measure functions found")
    for n in ("get_drawdowns", "get_cumulative_returns"):
        q = P.canonical(f"skfolio.measures.{n}")
        if q in P.funcs:
            out[n] = P.funcs[q]
    return out


def name_of(c, m):
    """The attribute name of a measure is the value of the member."""
    v = c.attrs.get(m)
    return getattr(v, "value", None) if v is not None and hasattr(v, "value") else m.lower()


def value_arms(t):
    """Values other than the marker for a failed computation."""
    return [x for x in alternatives(t) if not (x.op == "ext" and x.args[0].endswith("nan"))
            and not (is_const(x) and cval(x) != cval(x))]  # fmt: skip


def strip(t):
    while t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in IDENTITY and t.args[1]:
        t = t.args[1][0]
    return t


def setting(t, me):
    """Name of the attribute of the portfolio a term reads."""
    t = strip(t)
    if t.op == "attr" and t.args[0] is me:
        return t.args[1].removeprefix("_")
    return None


def calls_of(t, fns):
    by = {f.qual: n for n, f in fns.items()}
    return [(by[x.args[0].args[0]], x) for x in walk(t, into_cond=False)
            if x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0] in by]  # fmt: skip


def bound(fn, call):
    out = dict(call.args[2])
    for n, v in zip(fn.params(), call.args[1]):
        out.setdefault(n, v)
    return out


def run(P, rep, cls, f, fns, opaque, **args):
    quals = {x.qual for x in opaque}
    ev = Evaluator(P, budget=400_000, inline=lambda g: g.qual not in quals)
    r = ev.run(f, cls=cls, args=args)
    rep.saw(ev)
    return ev, r


def expected_setting(params, value, p):
    """Attribute that belongs to parameter p of the function of a measure."""
    if f"{value}_{p}" in params:
        return f"{value}_{p}"
    return p


def arguments(rep, rule, inst, cls, me, fn, call, value, series_ok):
    params = set(cls.init().params())
    for p in fn.params():
        got = bound(fn, call).get(p)
        want = expected_setting(params, value, p)
        loc = call.loc or fn.loc
        if got is None:
            rep.check(want not in params, rule, f"{inst}.{p}", loc, f"`{p}` is left at its default")
            continue
        if p in ("returns", "drawdowns"):
            rep.check(series_ok(p, got), rule, f"{inst}.{p}", loc, f"`{p}` is not the {p} of the portfolio")
            continue
        s = setting(got, me)
        rep.check(s == want, rule, f"{inst}.{p}", loc, f"`{p}` is taken from `{s or '?'}` instead of `{want}`")


def own_series(me, fns):
    def ok(p, t):
        if setting(t, me) == p:
            return True
        t = strip(t)
        return p == "drawdowns" and is_series(t, "get_drawdowns", me, fns, lambda x: setting(x, me) == "returns")

    return ok


def is_series(t, name, me, fns, returns_ok):
    """get_drawdowns/get_cumulative_returns of the right returns and compounding."""
    if t.op != "call" or t.args[0].op != "fn" or name not in fns or t.args[0].args[0] != fns[name].qual:
        return False
    b = bound(fns[name], t)
    return "returns" in b and returns_ok(b["returns"]) and "compounded" in b and setting(b["compounded"], me) == "compounded"


def degree(t, me, figures=True):
    """Power of the annualisation factor."""
    base = {}
    for x in walk(t):
        if x.op == "attr" and x.args[0] is me:
            n = x.args[1].removeprefix("_")
            if n == "annualized_factor":
                base[x] = 1
            elif n.startswith("annualized_"):
                base[x] = annual_degree(n.upper())
    try:
        d = Degree(base).of(t)
    except Conflict as e:
        return e
    return None if d in (UNK, ANY) else d


def annualised(rep, inst, t, me, want, loc):
    d = degree(t, me)
    if d is None:
        rep.undecided("annualised", inst, loc, "unknown power of the annualisation factor")
    elif isinstance(d, Conflict):
        rep.bad("annualised", inst, loc, "annualised and non-annualised figures are added up")
    else:
        rep.check(abs(d - want) < 1e-9, "annualised", inst, loc,
                  f"carries the annualisation factor to the power {d:g} instead of {want:g}")


def value(P, rep, cls, c, m, fns, opaque):
    me = selfterm(cls)
    f = cls.find_method("get_measure")
    inst = f"{cls.name}.{m}"
    ev, r = run(P, rep, cls, f, fns, opaque, measure=member(c, m))
    arms = value_arms(r)
    if not arms:
        rep.bad("own-function", inst, f.loc, "no value is computed")
        return
    for t in arms:
        loc = t.loc or f.loc
        if c.name == "RatioMeasure":
            ratio(rep, inst, m, t, me, loc)
            annualised(rep, inst, t, me, 0.5 if m != plain(m) else 0, loc)
            continue
        cs = calls_of(t, {k: v for k, v in fns.items() if not k.startswith("get_")})
        want = plain(m).lower()
        names = sorted({n for n, _ in cs})
        if not cs and m != plain(m) and figures(t, me) == {want}:
            names = [want]  # scaled from the figure that is not annualised
        rep.check(names == [want], "own-function", inst, loc, f"computed by {names or 'no measure function'}")
        for n, x in cs:
            if n == want:
                arguments(rep, "own-settings", inst, cls, me, fns[n], x, want, own_series(me, fns))
        annualised(rep, inst, t, me, annual_degree(m), loc)


def figures(t, me):
    out = {x.args[1].removeprefix("_") for x in walk(t, into_cond=False) if x.op == "attr" and x.args[0] is me}
    return out - {"annualized_factor"}


def ratio(rep, inst, m, t, me, loc):
    """Excess mean over risk: formal signs, and which figures enter."""
    mean = "annualized_mean" if m != plain(m) else "mean"
    risk = linked(m).lower()
    figs = figures(t, me)
    if m != plain(m) and figs == {plain(m).lower()}:
        rep.ok("ratio", f"{inst}.figures", loc)
        return
    rep.check(figs == {mean, risk, "risk_free_rate"}, "ratio", f"{inst}.figures", loc,
              f"built from {sorted(figs)} instead of {sorted({mean, risk, 'risk_free_rate'})}")
    for n, s in ((mean, "+"), ("risk_free_rate", "-")):
        p = Polarity(lambda x, n=n: setting(x, me) == n)(t)
        ok = None if "?" in p else p == frozenset(s)
        rep.check(ok, "ratio", f"{inst}.{n}", loc, f"`{n}` enters with the wrong sign")
    base = {x: 1 for x in walk(t) if setting(x, me) == risk}
    try:
        d = Degree(base).of(t)
    except Conflict:
        d = UNK
    rep.check(None if d in (UNK, ANY) else d == -1, "ratio", f"{inst}.{risk}", loc,
              f"`{risk}` does not divide the excess mean")


def by_name(P, rep, cls, c, m):
    """The lookup of a missing attribute computes the measure of that name."""
    me = selfterm(cls)
    inst = f"{cls.name}.{m}"
    n = name_of(c, m)
    have = slots(P, cls)
    rep.check(None if have is None else n in have, "has-slot", inst, cls.loc, f"`{n}` is not among the slots")
    f = cls.find_method("__getattribute__") or cls.find_method("__getattr__")
    if f is None:
        raise AnalysisBroken("portfolios have no attribute lookup")
    ev = Evaluator(P, budget=200_000, inline=lambda g: g.name != "get_measure")
    names = f.all_params()
    ev.run(f, cls=cls, args={names[1]: const(n)})
    rep.saw(ev)
    got = [e for e in ev.effects if e.kind == "call" and is_get(e.data[0], me)]
    kept = [e for e in ev.effects if e.kind == "store" and e.data[0] is me]
    vals = [dict(e.data[2]).get("measure", e.data[1][0] if e.data[1] else None) for e in got]
    ok = vals and all(v is member(c, m) for v in vals)
    rep.check(bool(ok), "by-name", inst, f.loc, f"reading `{n}` does not compute this measure")
    for e in kept:
        rep.check(e.data[1] == n and any(e.data[2] is g.data[3] for g in got), "by-name", f"{inst}.kept", e.loc,
                  f"the value is kept under `{e.data[1]}`")
    rets = [e for e in ev.effects if e.kind == "return" and any(e.data is g.data[3] for g in got)]
    rep.check(bool(rets), "by-name", f"{inst}.returned", f.loc, "the computed value is not returned")


def is_get(t, me):
    return isinstance(t, T) and t.op == "bound" and t.args[0] is me and t.args[1].endswith(".get_measure")


def stored(P, rep, cls):
    """Constructor settings end up in the attribute of their own name only."""
    me = selfterm(cls)
    init = cls.init()
    ev = Evaluator(P, budget=400_000)
    ev.run(init, cls=cls)
    rep.saw(ev)
    for p in init.params():
        if p in ("X", "weights", "portfolios", "returns", "observations"):
            continue
        v = next((ev.st.heap[k] for k in ((me, p), (me, f"_{p}")) if k in ev.st.heap), None)
        if v is None:
            rep.bad("stored", f"{cls.name}.{p}", init.loc, f"`{p}` is not kept")
            continue
        ins = {x.args[0] for x in walk(v, into_cond=False) if x.op == "in"}
        rep.check(p in ins and not ins & (set(init.params()) - {p, "X"}), "stored", f"{cls.name}.{p}", init.loc,
                  f"`{p}` holds {sorted(ins) or 'a constant'}")


def series(P, rep, cls):
    me = selfterm(cls)
    fns = functions(P)
    for n, g in (("drawdowns", "get_drawdowns"), ("cumulative_returns", "get_cumulative_returns")):
        f = cls.find_method(n)
        if f is None:
            raise AnalysisBroken(f"{cls.name} has no {n}")
        ev, r = run(P, rep, cls, f, fns, set(fns.values()))
        for t in alternatives(r):
            ok = is_series(strip(t), g, me, fns, lambda x: setting(x, me) == "returns")
            rep.check(ok, "series", f"{cls.name}.{n}", f.loc, f"`{n}` is not that of the returns with their compounding")


def rolling(P, rep, cls, c, m, fns, opaque):
    me = selfterm(cls)
    f = cls.find_method("rolling_measure")
    inst = f"{cls.name}.{m}"
    ev, r = run(P, rep, cls, f, fns, opaque, measure=member(c, m))
    apps = [x for x in walk(r) if x.op == "call" and x.args[0].op in ("meth", "attr") and x.args[0].args[1] == "apply"
            and x.args[1]]  # fmt: skip
    if len(apps) != 1:
        rep.undecided("rolling", inst, f.loc, "no single function applied to windows")
        return
    app = apps[0]
    recv = app.args[0].args[0]
    rep.check(any(setting(x, me) == "returns" for x in walk(recv)), "rolling", f"{inst}.series", app.loc or f.loc,
              "windows are not taken from the returns")
    done = [e.data for e in ev.effects if e.kind == "applied" and e.data[0] is app]
    if not done:
        rep.undecided("rolling", inst, f.loc, "the function applied to windows is not known")
        return
    _, window, body = done[-1]
    arms = value_arms(body)
    measure_fns = {k: v for k, v in fns.items() if not k.startswith("get_")}
    win = lambda p, x: strip(x) is window if p == "returns" else is_series(strip(x), "get_drawdowns", me, fns, lambda y: strip(y) is window)  # noqa: E731, E501
    for t in arms:
        loc = t.loc or f.loc
        cs = calls_of(t, measure_fns)
        names = sorted({n for n, _ in cs})
        risk = plain(linked(m)).lower() if c.name == "RatioMeasure" else plain(m).lower()
        want = sorted({"mean", risk}) if c.name == "RatioMeasure" else [risk]
        rep.check(names == want, "rolling", inst, loc, f"windows are measured by {names} instead of {want}")
        for n, x in cs:
            if n in want:
                arguments(rep, "rolling", inst, cls, me, fns[n], x, n, win)
        if c.name == "RatioMeasure":
            for what, s in (("mean", "+"), ("risk_free_rate", "-")):
                tgt = (lambda x: x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0] == fns["mean"].qual) if what == "mean" else (lambda x: setting(x, me) == "risk_free_rate")  # noqa: E731, E501
                p = Polarity(tgt)(t)
                rep.check(None if "?" in p else p == frozenset(s), "rolling", f"{inst}.{what}", loc,
                          f"`{what}` enters with the wrong sign")
            base = {x: 1 for n, x in cs if n == risk}
            try:
                d = Degree(base).of(t)
            except Conflict:
                d = UNK
            rep.check(None if d in (UNK, ANY) else d == -1, "rolling", f"{inst}.{risk}", loc,
                      "the risk does not divide the excess mean")
    # annualisation on top of the windows
    base = {x: 1 for x in walk(r) if setting(x, me) == "annualized_factor"}
    try:
        d = Degree({**base, app: 0}).of(r)
    except Conflict:
        d = UNK
    want = (0.5 if m != plain(m) else 0) if c.name == "RatioMeasure" else annual_degree(m)
    rep.check(None if d in (UNK, ANY) else d == want, "rolling", f"{inst}.annualised", f.loc,
              f"windows carry the annualisation factor to the power {d} instead of {want}")


def population(P, rep):
    """Views of a population read the measure they are asked for."""
    cls = P.cls("Population")
    for n in ("measures", "sort_measure", "measures_mean", "measures_std"):
        f = cls.find_method(n)
        if f is None:
            raise AnalysisBroken(f"Population.{n} not found")
        for c, m in measures(P):
            ev = Evaluator(P, budget=100_000, inline=lambda g: g.cls is None or g.cls is cls)
            r = ev.run(f, cls=cls, args={"measure": member(c, m)})
            rep.saw(ev)
            names = read_names(ev, r)
            rep.check(names == {name_of(c, m)}, "views", f"{n}[{m}]", f.loc, f"reads {sorted(names)}")


def read_names(ev, r):
    """Measure names read from the elements of the collection."""
    out = set()
    terms = [r, *[x for e in ev.effects if e.kind == "call" for x in (*e.data[1], *[v for _, v in e.data[2]])]]
    for t in terms:
        for x in walk(t):
            if x.op == "closure":
                b = ev.apply(x, [WINDOW], {}, ev.p.cls("Population").node)
                out |= {y.args[1] for y in walk(b) if y.op == "attr" and y.args[0] is WINDOW}
                out |= dynamic(b)
            if x.op == "attr" and x.args[0].op == "elem":
                out.add(x.args[1])
        out |= dynamic(t)
    return out


def dynamic(t):
    """getattr(x, "name") and x.__getattribute__("name")."""
    out = set()
    for x in walk(t):
        if x.op != "call":
            continue
        f = x.args[0]
        if f.op in ("meth", "attr") and f.args[1] == "__getattribute__" and x.args[1] and is_const(x.args[1][0]):
            out.add(cval(x.args[1][0]))
        if f.op == "ext" and f.args[0] == "getattr" and len(x.args[1]) > 1 and is_const(x.args[1][1]):
            out.add(cval(x.args[1][1]))
    return out


def delegated(P, rep, fns):
    """A measure function that calls another hands on the parameters they share."""
    for n, f in sorted(fns.items()):
        ev = Evaluator(P, budget=100_000, inline=lambda g: False)
        r = ev.run(f)
        rep.saw(ev)
        own = set(f.params())
        calls = [*calls_of(r, fns)]
        for e in ev.effects:
            if e.kind == "call":
                calls += calls_of(e.data[3], fns) if isinstance(e.data[3], T) else []
        seen = set()
        for k, x in calls:
            if id(x) in seen:
                continue
            seen.add(id(x))
            g = fns[k]
            b = bound(g, x)
            for p in g.params():
                if p in ("beta", "theta", "min_acceptable_return", "compounded") and p in own:
                    v = b.get(p)
                    ok = v is not None and strip(v).op == "in" and strip(v).args[0] == p
                    rep.check(ok, "passed-on", f"{n}.{k}.{p}", x.loc or f.loc, f"`{p}` is not handed on to `{k}`")
                elif p in ("returns", "drawdowns"):
                    v = b.get(p)
                    src = {y.args[0] for y in walk(v) if y.op == "in"} if v is not None else set()
                    rep.check(bool(src & {"returns", "drawdowns"}), "passed-on", f"{n}.{k}.{p}", x.loc or f.loc,
                              f"`{k}` is computed on another series")
        for p in sorted(own):
            used = any(y.op == "in" and y.args[0] == p for y in walk(r)) or any(
                y.op == "in" and y.args[0] == p
                for e in ev.effects if e.kind == "call" and isinstance(e.data[3], T) for y in walk(e.data[3])
            )  # fmt: skip
            closed = any(y.op == "closure" for y in walk(r))
            rep.check(True if used else None if closed else False, "passed-on", f"{n}.{p}", f.loc, f"`{p}` is never used")
