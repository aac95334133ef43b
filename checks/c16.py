"""C16: better is judged in the right direction for every measure."""

from checks.c03 import alternatives
from sa.estimators import selfterm
from sa.folds import Polarity
from sa.index import AnalysisBroken
from sa.portfolios import classes, measures, member
from sa.vg import Evaluator, const, cval, is_const, mk, walk

FLAGS = {"is_perf": "PerfMeasure", "is_ratio": "RatioMeasure", "is_risk": ("RiskMeasure", "ExtraRiskMeasure")}
HIGHER = ("PerfMeasure", "RatioMeasure")
EST = mk("given", "estimator")


def better(c):
    return "+" if c.name in HIGHER else "-"


def check(P, rep):
    rep.rule("kind", "a measure knows whether it is a performance, a risk or a ratio", need=60)
    rep.rule("fitness", "fitness grows with what is better", need=50)
    rep.rule("scorer", "scores grow with what is better, or with what the caller says is better", need=60)
    rep.rule("score", "the default score of an optimisation grows with what is better", need=0)
    rep.rule("dominates", "dominance is 'nowhere worse and somewhere better'", need=1)
    rep.rule("compared", "portfolios are compared by their own fitness, on the same objectives", need=2)
    rep.rule("sorted", "fronts follow from who dominates whom", need=0)
    rep.rule("extremes", "smallest, largest and quantiles follow the ascending order", need=1)
    kinds(P, rep)
    for cls in classes(P):
        fitness(P, rep, cls)
        compared(P, rep, cls)
    scorer(P, rep)
    score(P, rep)
    dominates(P, rep)
    fronts(P, rep)
    extremes(P, rep)


def kinds(P, rep):
    for c, m in measures(P):
        for flag, owner in FLAGS.items():
            f = c.find_method(flag)
            if f is None:
                raise AnalysisBroken(f"measures have no {flag}")
            ev = Evaluator(P)
            r = ev.run(f, cls=c, selfterm=member(c, m))
            rep.saw(ev)
            want = c.name == owner or c.name in owner if isinstance(owner, tuple) else c.name == owner
            ok = None if not is_const(r) else cval(r) is want
            rep.check(ok, "kind", f"{c.name}.{m}.{flag}", f.loc, f"{flag} of {c.name}.{m} is {r}, it should be {want}")  # fmt: skip


def direction(t, target):
    """'+' or '-' when every occurrence of the target has that formal sign."""
    s = Polarity(target)(t)
    if len(s) != 1 or not s <= {"+", "-"}:
        return None if s else ""
    return next(iter(s))


def reads(me, name):
    return lambda t: t.op == "attr" and t.args[0] is me and t.args[1] in (name, "_" + name)


def fitness(P, rep, cls):
    f = cls.find_method("fitness")
    if f is None:
        raise AnalysisBroken(f"{cls.name} has no fitness")
    me = selfterm(cls)
    for c, m in measures(P):
        name = value(c, m)
        ev = Evaluator(P, self_attrs={"_fitness_measures": mk("list", None, member(c, m))})
        got = None
        r = ev.run(f, cls=cls)
        rep.saw(ev)
        for r in alternatives(r):
            # an already kept figure is C15's business
            if r.op == "attr" and r.args[0] is me:
                continue
            d = direction(r, reads(me, name))
            got = d if got in (None, d) else "?"
        want = better(c)
        ok = None if got is None or got == "?" else got == want
        if got == "":
            ok = False
        rep.check(ok, "fitness", f"{cls.name}.{m}", f.loc,
                  f"fitness of {cls.name} for {c.name}.{m} is {shown(got)} in it, it should be {shown(want)}")  # fmt: skip


def shown(d):
    return {"+": "increasing", "-": "decreasing", "": "not dependent"}.get(d, "of unknown direction")


def value(c, m):
    v = c.attrs.get(m)
    return getattr(v, "value", None) if isinstance(getattr(v, "value", None), str) else m.lower()


# -- scorers ------------------------------------------------------------------


def scorer(P, rep):
    q = P.canonical("skfolio.metrics.make_scorer")
    f = P.funcs.get(q)
    if f is None:
        raise AnalysisBroken("no make_scorer")
    for given, sign in ((None, None), (True, "+"), (False, "-")):
        for c, m in measures(P):
            want = sign or better(c)
            got = scored(P, f, member(c, m), given, measured(value(c, m)))
            rep.check(None if got is None else got == want, "scorer", f"{c.name}.{m}:{given}", f.loc,
                      f"make_scorer({c.name}.{m}, greater_is_better={given}) is {shown(got)} in the measure of the prediction, it should be {shown(want)}")  # fmt: skip
        fn = mk("ext", "caller.score")
        got = scored(P, f, fn, given, lambda t: t.op == "call" and t.args[0] is fn)
        want = sign or "+"
        rep.check(None if got is None else got == want, "scorer", f"callable:{given}", f.loc,
                  f"make_scorer(function, greater_is_better={given}) is {shown(got)} in the function, it should be {shown(want)}")  # fmt: skip


def measured(name):
    """The measure of what the estimator predicts."""
    return lambda t: t.op == "attr" and t.args[1] == name and any(x is EST for x in walk(t.args[0]))


def scored(P, f, what, given, target):
    """Direction in which the score of a prediction depends on the target."""
    ev = Evaluator(P)
    r = ev.run(f, args={"score_func": what, "greater_is_better": const(given)})
    outs = set()
    for s in alternatives(r):
        t = called(P, ev, s, [EST, mk("given", "X")])
        if t is None:
            return None
        for x in alternatives(t):
            outs.add(direction(x, target))
    if len(outs) != 1:
        return None if outs - {""} else ""
    return outs.pop()


def called(P, ev, s, args):
    """Result of calling an object, after running its constructor."""
    if s.op == "new":
        c = P.classes.get(s.args[0])
        f = c.find_method("__call__") if c is not None else None
        if f is None:
            return None
        init = c.find_method("__init__")
        if init is not None:
            ev.run(init, cls=c, selfterm=s, args=dict(s.args[2]) | dict(zip(init.params(), s.args[1], strict=False)))
        return ev.run(f, cls=c, selfterm=s, args=dict(zip(f.params(), args, strict=False)))
    return None


def MEASURES(P):
    return {c for c, _ in measures(P)}


def score(P, rep):
    base = P.cls("BaseOptimization")
    todo = {c.find_method("score") for c in P.classes.values() if c is base or c.is_subclass(base.qual)} - {None}
    names = {value(c, m): c for c, m in measures(P)}
    for f in todo:
        ev = Evaluator(P)
        r = ev.run(f, cls=f.cls)
        found = {}
        for t in walk(r):
            if t.op == "attr" and t.args[1] in names:
                found[t.args[1]] = names[t.args[1]]
        for t in {t for t in walk(r) if t.op == "call" and any(x.op == "enum" for x in t.args[1])}:
            (n, c), *_ = [(x.args[-1], P.classes.get(x.args[0])) for x in t.args[1] if x.op == "enum"]
            d = direction(r, lambda x, t=t: x is t)
            if c is not None and c in MEASURES(P):
                rep.check(None if d is None else d == better(c), "score", f"{f.qual}:{n}", f.loc,
                          f"score is {shown(d)} in {n}, it should be {shown(better(c))}")  # fmt: skip
        if not found:
            rep.undecided("score", f.qual, f.loc, "reads no measure")
        for n, c in found.items():
            d = direction(r, lambda t, n=n: t.op == "attr" and t.args[1] == n)
            rep.check(None if d is None else d == better(c), "score", f"{f.qual}:{n}", f.loc,
                      f"score is {shown(d)} in {n}, it should be {shown(better(c))}")  # fmt: skip


# -- dominance ----------------------------------------------------------------

NEG = {">": "<=", ">=": "<", "<": ">=", "<=": ">", "==": "!=", "!=": "=="}
SWAP = {">": "<", ">=": "<=", "<": ">", "<=": ">=", "==": "==", "!=": "!="}
COMPARE = {"numpy.greater": ">", "numpy.greater_equal": ">=", "numpy.less": "<", "numpy.less_equal": "<=",
           "numpy.equal": "==", "numpy.array_equal": "==", "numpy.not_equal": "!="}  # fmt: skip


def literals(t, pos, first, second, out, seen):
    """Comparisons of two operands with the polarity they have in a truth value.

    Appends (operator, mode), operator oriented as ``first op second`` that makes
    the whole more true; False when a part is not understood.
    """
    if (id(t), pos) in seen:
        return True
    seen.add((id(t), pos))
    o, a = t.op, t.args
    rel = any(x is first or x is second for x in walk(t))
    if not rel or o in ("const", "inloop", "prev"):
        return True
    if o == "cmp" and a[0] in NEG or o == "call" and a[0].op == "ext" and a[0].args[0] in COMPARE and len(a[1]) == 2:
        op, x, y = a if o == "cmp" else (COMPARE[a[0].args[0]], *a[1])
        sx = {id(z) for z in walk(x)}
        sy = {id(z) for z in walk(y)}
        fx, gx, fy, gy = id(first) in sx, id(second) in sx, id(first) in sy, id(second) in sy
        if fx and gx or fy and gy:
            # a difference compared with zero
            for u, v, p in ((x, y, op), (y, x, SWAP[op])):
                if is_const(v) and cval(v) == 0 and u.op == "bin" and u.args[0] == "-":
                    return literals(mk("cmp", p, u.args[1], u.args[2]), pos, first, second, out, seen)
            return literals(x, pos, first, second, out, seen) and False
        if not (fx and gy or gx and fy):
            # sizes, kinds and the like
            return True
        if any(z.op == "attr" and z.args[1] in ("ndim", "shape", "size") for z in (x, y)):
            return True
        op = op if fx else SWAP[op]
        out.append(op if pos else NEG[op])
        return True
    if o == "not" or o == "un" and a[0] in ("~", "not"):
        return literals(a[-1], not pos, first, second, out, seen)
    if o in ("and", "or"):
        return all([literals(x, pos, first, second, out, seen) for x in a])
    if o == "bin" and a[0] in ("&", "|"):
        return all([literals(x, pos, first, second, out, seen) for x in a[1:]])
    if o == "phi":
        c, x, y = a
        up = is_const(x) and cval(x) is True or is_const(y) and cval(y) is False
        down = is_const(x) and cval(x) is False or is_const(y) and cval(y) is True
        ok = True
        if up != down:
            ok = literals(c, pos if up else not pos, first, second, out, seen)
        elif any(z is first or z is second for z in walk(c)):
            ok = False
        return ok and literals(x, pos, first, second, out, seen) and literals(y, pos, first, second, out, seen)
    if o == "loop":
        return all([literals(x, pos, first, second, out, seen) for x in a[2:4] if hasattr(x, "op")])
    if o == "comp":
        return all([literals(x, pos, first, second, out, seen) for x in (a[1],)])
    if o == "call" and a[0].op == "ext" and a[0].args[0] in ("numpy.all", "numpy.any", "all", "any", "bool", "numpy.bool_"):
        return literals(a[1][0], pos, first, second, out, seen)
    if o == "call" and a[0].op == "meth" and a[0].args[1] in ("all", "any", "item"):
        return literals(a[0].args[0], pos, first, second, out, seen)
    return False


def dominates(P, rep):
    f = P.funcs.get(P.canonical("skfolio.utils.sorting.dominate"))
    if f is None:
        raise AnalysisBroken("no dominate function")
    p = f.params()[:2]
    names = list(p)
    one, two = (mk("in", n) for n in names)
    r = Evaluator(P).run(f)
    out = []
    ok = literals(r, True, one, two, out, set())
    where = f.loc
    if not ok or not out:
        for k in ("direction", "strict", "tolerant"):
            rep.undecided("dominates", k, where, "comparison not understood")
    else:
        bad = sorted({o for o in out if o in ("<", "<=")})
        rep.check(not bad, "dominates", "direction", where, f"the first dominates the second when it is {bad} somewhere")
        rep.check(">" in out or "!=" in out, "dominates", "strict", where, "equal fitness counts as dominating: nothing asks for a strictly better objective")  # fmt: skip
        rep.check(">=" in out or "==" in out, "dominates", "tolerant", where,
                  "a tie on one objective prevents dominance")  # fmt: skip
    rep.check(len(names) == 2, "dominates", "operands", where, "")


def compared(P, rep, cls):
    """a.dominates(b) and a > b compare a's fitness with b's, on the same objectives."""
    me = selfterm(cls)
    dom = P.funcs.get(P.canonical("skfolio.utils.sorting.dominate"))
    for n in ("dominates", "__gt__", "__ge__"):
        f = cls.find_method(n)
        if f is None:
            continue
        other = None
        ps = f.params()
        other = mk("in", ps[0])
        fit = cls.find_method("fitness")
        ev = Evaluator(P, inline=lambda g: g is not dom and g is not fit)
        r = ev.run(f, cls=cls)
        calls = {}
        for t in walk(r):
            if t.op == "call" and t.args[0].op == "fn" and P.funcs.get(t.args[0].args[0]) is dom:
                calls[id(t)] = t
        if not calls:
            rep.undecided("compared", f"{cls.name}.{n}", f.loc, "no comparison of fitness found")
        for t in calls.values():
            a = list(t.args[1]) + [v for _, v in dict_items(t.args[2])]
            own = [any(x is me for x in walk(v)) for v in a[:2]]
            oth = [any(x is other for x in walk(v)) for v in a[:2]]
            ok = own == [True, False] and oth == [False, True]
            idx = [v.args[1] if v.op == "sub" else None for v in a[:2]]
            rep.check(ok, "compared", f"{cls.name}.{n}:operands", f.loc, f"{n} does not ask whether this portfolio dominates the other")  # fmt: skip
            rep.check(idx[0] is idx[1], "compared", f"{cls.name}.{n}:objectives", f.loc, "the two sides are compared on different objectives")  # fmt: skip
            neg = []
            signed(r, True, t, neg, set())
            rep.check(True not in neg and bool(neg), "compared", f"{cls.name}.{n}:sense", f.loc, f"{n} holds when this portfolio does not dominate the other")  # fmt: skip


def dict_items(x):
    return list(x.items()) if isinstance(x, dict) else [y for y in (x or ()) if isinstance(y, tuple)]


def signed(t, pos, target, out, seen):
    """Whether the target is negated where it occurs in a truth value."""
    if (id(t), pos) in seen:
        return
    seen.add((id(t), pos))
    if t is target:
        out.append(not pos)
    elif t.op == "not" or t.op == "un" and t.args[0] == "not":
        signed(t.args[-1], not pos, target, out, seen)
    elif t.op in ("and", "or"):
        for x in t.args:
            signed(x, pos, target, out, seen)
    elif t.op == "phi":
        c, x, y = t.args
        up = is_const(x) and cval(x) is True or is_const(y) and cval(y) is False
        signed(c, pos if up else not pos, target, out, seen)
        signed(x, pos, target, out, seen)
        signed(y, pos, target, out, seen)


# -- fronts -------------------------------------------------------------------


def fronts(P, rep):
    f = P.funcs.get(P.canonical("skfolio.utils.sorting.non_denominated_sort"))
    dom = P.funcs.get(P.canonical("skfolio.utils.sorting.dominate"))
    if f is None:
        raise AnalysisBroken("no sorting into fronts")
    ev = Evaluator(P, inline=lambda g: g is not dom)
    ev.run(f)
    where = f.loc
    rep.saw(ev)

    def of(g):
        """(dominating index, dominated index) a guard stands for."""
        if g.op == "call" and g.args[0].op == "fn" and P.funcs.get(g.args[0].args[0]) is dom and len(g.args[1]) == 2:
            a, b = g.args[1]
            if a.op == b.op == "sub" and a.args[0] is b.args[0]:
                return a.args[1], b.args[1]
        return None

    counters, kept = [], []
    n = 0
    for e in ev.effects:
        held = [of(g) for g, pol in e.guard if hasattr(g, "op") and pol and of(g)]
        if len(held) != 1:
            continue
        win, lose = held[0]
        if e.kind == "mutcall" and e.data[1] == "append" and e.data[0].op == "sub":
            n += 1
            kept.append(e.data[0].args[0])
            rep.check(e.data[0].args[1] is win and e.data[2][0] is lose, "sorted", f"kept:{n}", e.loc,
                      "the dominated item is not kept under the one that dominates it")  # fmt: skip
        elif e.kind == "aug" and e.data[0].op == "sub":
            n += 1
            old, op, v = e.data[:3]
            counters.append(old.args[0])
            rep.check(old.args[1] is lose and op == "+" and is_const(v) and cval(v) == 1, "sorted", f"counted:{n}", e.loc,
                      "the number of items dominating one is not raised for the dominated item")  # fmt: skip
    if not n:
        rep.undecided("sorted", "pairs", where, "no bookkeeping under a comparison found")

    def root(t):
        while t.op in ("prev", "loop", "upd", "mut", "cat") and t.args:
            t = t.args[2] if t.op in ("prev", "loop") else t.args[0]
        return t

    roots = {id(root(c)) for c in counters}
    # whatever joins a front does so because nothing (left) dominates it
    joins = 0

    def counts(g, item):
        return any(x.op == "sub" and id(root(x.args[0])) in roots and x.args[1] is item for x in walk(g))

    for e in ev.effects:
        if e.kind != "mutcall" or e.data[1] != "append" or not e.data[2]:
            continue
        item = e.data[2][0]
        for g, pol in e.guard:
            # an alternative way in, which the number of dominating items has no part in
            if hasattr(g, "op") and (g.op, pol) in (("or", True), ("and", False)):
                per = [counts(x, item) for x in g.args]
                if any(per):
                    joins += 1
                    rep.check(all(per), "sorted", f"joins:{joins}", e.loc, "an item joins a front while others still dominate it")
        tests = [(g, pol) for g, pol in e.guard if hasattr(g, "op") and g.op == "cmp"
                 and counts(g, item)]  # fmt: skip
        for g, pol in tests:
            joins += 1
            op, x, y = g.args
            zero = [z for z in (x, y) if is_const(z) and cval(z) == 0]
            good = bool(zero) and (op == "==" and pol or op in ("!=", ">") and not pol)
            rep.check(good, "sorted", f"joins:{joins}", e.loc, "an item joins a front while others still dominate it")
    if not joins:
        rep.undecided("sorted", "joins", where, "no condition for joining a front found")
    # population: fitnesses of the portfolios themselves, in order
    pop = P.cls("Population")
    g = pop.find_method("non_denominated_sort")
    ev = Evaluator(P, inline=lambda h: h is not f)
    rr = ev.run(g, cls=pop)
    me = selfterm(pop)
    calls = [t for t in walk(rr) if t.op == "call" and t.args[0].op == "fn" and P.funcs.get(t.args[0].args[0]) is f]
    for t in calls[:1]:
        a = dict(zip(f.params(), t.args[1], strict=False)) | dict(dict_items(t.args[2]))
        first = a.get(f.params()[0])
        ok = first is not None and any(x.op == "attr" and x.args[1] == "fitness" for x in walk(first)) and any(x is me for x in walk(first))
        flag = a.get("first_front_only")
        rep.check(ok, "sorted", "population:fitness", g.loc, "the population is not sorted by the fitness of its portfolios")
        rep.check(flag is mk("in", "first_front_only"), "sorted", "population:first", g.loc, "first_front_only is not handed on")


def extremes(P, rep):
    pop = P.cls("Population")
    me = selfterm(pop)
    q = pop.find_method("quantile")
    for n, want in (("min_measure", 0), ("max_measure", 1)):
        f = pop.find_method(n)
        if f is None:
            raise AnalysisBroken(f"Population has no {n}")
        ev = Evaluator(P)
        r = ev.run(f, cls=pop)
        ok = None
        for e in ev.effects:
            if e.kind == "enter" and e.data[0] is q:
                args = bound(e.data[0], e.data[1], e.data[2])
                v, m = args.get("q"), args.get("measure")
                if v is not None and is_const(v):
                    ok = cval(v) == want and (m is mk("in", "measure"))
        for t in walk(r):
            if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("min", "max") and t.args[1] and t.args[1][0] is me:
                ok = t.args[0].args[0] == n[:3]
        rep.check(ok, "extremes", n, f.loc, f"{n} does not give the portfolio at that end of the ascending order")
    f = pop.find_method("quantile")
    ev = Evaluator(P)
    r = ev.run(f, cls=pop)
    for t in walk(r):
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "sorted":
            kw = dict(dict_items(t.args[2]))
            v = kw.get("reverse", const(False))
            rep.check(None if not is_const(v) else not cval(v), "extremes", "quantile:order", f.loc, "quantiles are taken in descending order")  # fmt: skip
            break
    else:
        rep.undecided("extremes", "quantile:order", f.loc, "no sort found")
    d = None
    for t in walk(r):
        if t.op == "sub" and any(x.op == "in" and x.args[0] == "q" for x in walk(t.args[1])):
            d = direction(t.args[1], lambda x: x.op == "in" and x.args[0] == "q")
            rep.check(None if not d else d == "+", "extremes", "quantile:index", f.loc, "a larger quantile gives a smaller measure")
            break
    else:
        rep.undecided("extremes", "quantile:index", f.loc, "no position found")
    f = pop.find_method("sort_measure")
    r = Evaluator(P).run(f, cls=pop)
    for t in walk(r):
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "sorted":
            v = dict(dict_items(t.args[2])).get("reverse")
            rep.check(v is mk("in", "reverse"), "extremes", "sort:order", f.loc, "reverse is not honoured as given")
            break
    else:
        rep.undecided("extremes", "sort:order", f.loc, "no sort found")


def bound(f, args, kw):
    """Arguments of a call by parameter name."""
    names = f.params()
    if isinstance(args, dict):
        return args
    return dict(zip(names, args, strict=False)) | dict(kw if isinstance(kw, dict) else dict_items(kw))

