"""C23: published covariances went through the validity repair."""

from sa.estimators import is_estimator, selfterm
from sa.index import AnalysisBroken
from sa.vg import FALSE, TRUE, Evaluator, cval, is_const, show, walk

REPAIR = "cov_nearest"
SETTINGS = ("higham", "higham_max_iteration")
TESTS = ("is_cholesky_dec", "is_positive_definite")


def check(P, rep):
    rep.rule("repaired", "the published covariance is the repaired one", need=8)
    rep.rule("settings", "the repair is made with the settings of the user", need=8)
    rep.rule("switched-off", "the repair can be switched off", need=8)
    rep.rule("sanity", "a covariance without positive variances is rejected first", need=8)
    rep.rule("prior", "a prior publishes an estimated covariance as it is or repairs its own", need=3)
    rep.rule("accepts", "the repair leaves only valid matrices alone", need=1)
    rep.rule("repairs", "the repair keeps variances and lifts the eigenvalues", need=0)
    fn = next((f for f in P.funcs.values() if f.cls is None and f.name == REPAIR), None)
    if fn is None:
        raise AnalysisBroken(f"{REPAIR} not found")
    base = P.cls("BaseCovariance")
    todo = [c for c in P.classes.values() if is_estimator(c) and not c.is_abstract() and base in c.repo_mro()]
    if len(todo) < 8:
        raise AnalysisBroken(f"only {len(todo)} covariance estimators found")
    for c in sorted(todo, key=lambda c: c.qual):
        estimator(P, rep, c, fn)
    priors(P, rep, fn)
    algorithm(P, rep, fn)


def repair(t, fn):
    """Keyword arguments of a call of the repair, or None."""
    if t.op != "call" or not (t.args[0].op in ("fn", "ext") and t.args[0].args[0] == fn.qual):
        return None
    kw = dict(zip(fn.params(), t.args[1]))
    kw.update(dict(t.args[2]))
    return kw


def leaves(t):
    if t.op == "phi":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def copied(t):
    """The value behind copies and conversions that keep its content."""
    while t.op == "call":
        if (
            t.args[0].op == "ext"
            and t.args[0].args[0] in ("numpy.asarray", "numpy.array", "numpy.copy", "copy.copy", "copy.deepcopy")
            and t.args[1]
        ):
            t = t.args[1][0]
        elif t.args[0].op == "meth" and t.args[0].args[1] == "copy":
            t = t.args[0].args[0]
        else:
            break
    return t


def run(P, rep, c, f, fn, attrs, skip=()):
    ev = Evaluator(P, self_attrs=attrs, inline=lambda g, *a: g.qual != fn.qual and g.name not in skip)
    ev.run(f, cls=c)
    rep.saw(ev)
    return ev


def estimator(P, rep, c, fn):
    f = c.find_method("fit")
    if f is None:
        rep.undecided("repaired", c.name, f"{c.module.rel}:{c.node.lineno}", "no fit of its own")
        return
    me = selfterm(c)
    ev = run(P, rep, c, f, fn, {"nearest": TRUE})
    v = ev.st.heap.get((me, "covariance_"))
    if v is None:
        rep.bad("repaired", c.name, f.loc, f"{c.name}.fit publishes no covariance")
        return
    for x in leaves(v):
        x = copied(x)
        kw = repair(x, fn)
        rep.check(
            kw is not None,
            "repaired",
            c.name,
            x.loc or f.loc,
            f"{c.name} publishes {show(x, 3)[:90]}, which did not go through {REPAIR}",
        )
        if kw is None:
            continue
        for s in SETTINGS:
            a = kw.get(s)
            ok = a is not None and a.op == "attr" and a.args[0] is me and a.args[1] == s
            rep.check(
                ok,
                "settings",
                f"{c.name}.{s}",
                x.loc or f.loc,
                f"the repair of {c.name} uses {show(a, 2) if a is not None else 'the default'} for {s}",
            )
        m = kw.get(fn.params()[0])
        sane = False
        for e in ev.effects:
            if e.kind == "raise" and e.guard:
                for g, _ in e.guard:
                    if any(t.op == "call" and name(t) in ("diag", "diagonal") and about(t, m) for t in walk(g)):
                        sane = True
        rep.check(sane, "sanity", c.name, x.loc or f.loc, f"{c.name} repairs a covariance whose variances were not checked")
    ev = run(P, rep, c, f, fn, {"nearest": FALSE})
    v = ev.st.heap.get((me, "covariance_"))
    if v is not None:
        rep.check(
            all(repair(copied(x), fn) is None for x in leaves(v)),
            "switched-off",
            c.name,
            f.loc,
            f"{c.name} repairs the covariance although it was told not to",
        )


def name(t):
    g = t.args[0]
    return g.args[0].rpartition(".")[2] if g.op == "ext" else g.args[1] if g.op in ("meth", "bound") else None


def about(t, m):
    """The call reads the matrix itself."""
    args = list(t.args[1]) + ([t.args[0].args[0]] if t.args[0].op == "meth" else [])
    return any(copied(a) is copied(m) for a in args)


# -- priors -----------------------------------------------------------------------


def priors(P, rep, fn):
    base = P.cls("BasePrior")
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if base not in c.repo_mro() or c.is_abstract():
            continue
        f = c.find_method("fit")
        ev = run(P, rep, c, f, fn, {})
        v = ev.st.heap.get((selfterm(c), "prior_model_"))
        if v is None:
            continue
        for m in leaves(v):
            if m.op != "new":
                continue
            cov = dict(m.args[2]).get("covariance")
            if cov is None and len(m.args[1]) > 1:
                cov = m.args[1][1]
            if cov is None:
                continue
            settings = [s for s in (c.init().params() if c.init() else []) if s in (*SETTINGS, "max_iteration")]
            for x in leaves(cov):
                x = copied(x)
                kw = repair(x, fn)
                given = x.op == "attr" and x.args[1] in ("covariance_", "covariance")
                off = switched_off(cov, x)
                rep.check(
                    kw is not None or given or off,
                    "prior",
                    c.name,
                    x.loc or m.loc or f.loc,
                    f"{c.name} publishes {show(x, 3)[:90]}, a covariance of its own that was not repaired",
                )
                if kw is None:
                    continue
                for s in settings:
                    used = any(
                        t.op == "attr" and t.args[0] is selfterm(c) and t.args[1] == s for a in kw.values() for t in walk(a)
                    )
                    rep.check(
                        used, "settings", f"{c.name}.{s}", x.loc or f.loc, f"the repair of {c.name} ignores the {s} of the user"
                    )


def switched_off(t, x):
    """The value is only taken when the user disabled the repair."""
    if t.op != "phi":
        return False
    a, b = t.args[1], t.args[2]
    c = t.args[0]
    if c.op == "attr" and c.args[1] == "nearest" and any(copied(y) is x for y in leaves(b)):
        return not any(copied(y) is x for y in leaves(a))
    return (any(y is x for y in map(copied, leaves(a))) and switched_off(a, x)) or (
        any(y is x for y in map(copied, leaves(b))) and switched_off(b, x)
    )


# -- the repair itself --------------------------------------------------------------


def algorithm(P, rep, fn):
    cov = fn.params()[0]
    ev = Evaluator(P, inline=lambda g, *a: g.name not in TESTS)
    ev.run(fn)
    rep.saw(ev)
    arg = next((e.data for e in ev.effects if e.kind == "return"), None)
    if arg is None:
        raise AnalysisBroken(f"{REPAIR} returns nothing")
    for e in ev.effects:
        if e.kind != "return":
            continue
        for x in leaves(e.data):
            if copied(x).op == "in" and copied(x).args[-1] == cov:
                passed = {n for g, pos in e.guard for n in tests(g, pos, cov)}
                rep.check(
                    set(TESTS) <= passed,
                    "accepts",
                    REPAIR,
                    e.loc,
                    f"a matrix is returned as it is without having passed {' and '.join(t for t in TESTS if t not in passed)}",
                )
            else:
                lift(rep, e, x, cov)


def tests(g, pos, cov):
    if pos and g.op == "and":
        return {n for x in g.args for n in tests(x, True, cov)}
    if not pos and g.op == "or":
        return {n for x in g.args for n in tests(x, False, cov)}
    if g.op == "not":
        return tests(g.args[0], not pos, cov)
    if pos and g.op == "call" and g.args[0].op in ("fn", "ext"):
        n = g.args[0].args[0].rpartition(".")[2]
        if n in TESTS and any(copied(a).op == "in" and copied(a).args[-1] == cov for a in [*g.args[1], *(v for _, v in g.args[2])]):
            return {n}
    return set()


def lift(rep, e, x, cov):
    if x.op in ("raises", "unset") or x.op == "in":
        return
    clip = [t for t in walk(x) if t.op == "call" and name(t) in ("maximum", "clip")]
    if not clip:
        rep.undecided("repairs", REPAIR, e.loc, "eigenvalues are not lifted with maximum")
    for t in clip:
        low = t.args[1][1] if len(t.args[1]) > 1 else None
        if low is None:
            continue
        ok = not is_const(low) or (isinstance(cval(low), (int, float)) and cval(low) > 0)
        rep.check(
            ok,
            "repairs",
            f"{REPAIR}.eigenvalues",
            t.loc or e.loc,
            f"eigenvalues are lifted to {show(low, 2)}, which is not positive",
        )
    std = [
        t
        for t in walk(x)
        if t.op == "call" and name(t) in ("diag", "diagonal") and any(a.op == "in" and a.args[-1] == cov for a in t.args[1])
    ]
    rep.check(
        bool(std), "repairs", f"{REPAIR}.variances", e.loc, "the variances of the given matrix are not used for the repaired one"
    )
