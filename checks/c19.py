"""C19: walk-forward splits keep training data before the purged gap and the test."""

from fractions import Fraction

from checks.c03 import alternatives
from sa.affine import Form, at_least, cases, form, number, rebuild
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.vg import NONE, Evaluator, const, cval, is_const, mk, walk

SIZES = {"purged_size": 0, "test_size": 1, "train_size": 1}
KINDS = ("samples", "calendar", "calendar offset")


def check(P, rep):
    rep.rule("gap", "training ends at least the purged size before the test starts", need=2)
    rep.rule("start", "training starts at a valid position", need=1)
    rep.rule("advance", "a test set starts where the previous one ended or later", need=2)
    rep.rule("size", "training and test sets have the sizes asked for", need=2)
    rep.rule("full", "without reduced final test every test set has its full size", need=2)
    rep.rule("found", "dates that may lie outside the data are checked for", need=1)
    rep.rule("last", "splits stop exactly where the next test set would not fit", need=0)
    rep.rule("announced", "the announced number of splits is the number produced", need=1)
    cls = P.cls("WalkForward")
    split = cls.find_method("split")
    if split is None:
        raise AnalysisBroken("WalkForward.split not found")
    me = selfterm(cls)
    seen = 0
    for reduce in (False, True):
        runs = []
        for freq in (True, False):
            attrs = {"reduce_test": const(reduce)}
            if not freq:
                attrs["freq"] = NONE
            ev = Evaluator(P, self_attrs=attrs)
            ev.run(split, cls=cls)
            rep.saw(ev)
            ys = [e for e in ev.effects if e.kind == "yield"]
            if freq:
                ys = [e for e in ys if not any(is_freq_none(g) and p for g, p in e.guard)]
            runs += [(ev, e, kind(e, freq, me)) for e in ys]
        for ev, e, k in runs:
            seen += 1
            one(rep, ev, e, me, reduce, f"{k}, {'reduced' if reduce else 'full'}")
    if seen < 4:
        raise AnalysisBroken("the yields of WalkForward.split are not found")
    announced(P, rep, cls, me)


def is_freq_none(g):
    return g.op == "cmp" and g.args[0] == "is" and g.args[1].op == "attr" and g.args[1].args[1] == "freq" and g.args[2] is NONE


def kind(e, freq, me):
    if not freq:
        return KINDS[0]
    for g, p in e.guard:
        if g.op == "call" and g.args[0].op == "ext" and g.args[0].args[0] == "isinstance" and g.args[1][0] is mk("attr", me, "train_size"):
            return KINDS[1] if p else KINDS[2]
    return "calendar?"


# -- bounds ---------------------------------------------------------------------


def ext_call(t, *names):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in names


def interval(t):
    """(first, one past the last, total) of an array of consecutive positions."""
    if ext_call(t, "numpy.arange", "range") and not t.args[2]:
        a = t.args[1]
        if len(a) == 1:
            return const(0), a[0], a[0]
        if len(a) == 2:
            return a[0], a[1], None
    if ext_call(t, "numpy.asarray", "numpy.array", "list") and len(t.args[1]) == 1:
        return interval(t.args[1][0])
    if t.op == "sub" and t.args[1].op == "slice" and t.args[1].args[2] is NONE:
        b = interval(t.args[0])
        if b is None or not (is_const(b[0]) and cval(b[0]) == 0):
            return None
        lo, hi, _ = t.args[1].args
        if ext_call(hi, "min") and len(hi.args[1]) == 2 and any(x is b[1] for x in hi.args[1]):
            # a slice ends there anyway
            hi = next((x for x in hi.args[1] if x is not b[1]), hi)
        return (const(0) if lo is NONE else lo), (b[1] if hi is NONE else hi), b[1]
    return None


def minima(me):
    table = {mk("attr", me, n): Fraction(v) for n, v in SIZES.items()}
    return lambda k: table.get(k)


def stepped(ev, t):
    """The term as the next iteration sees it."""

    def f(x):
        if x.op == "prev":
            return ev.carried.get((x.args[0], x.args[1]), x)
        if x.op == "elem" and ext_call(x.args[0], "range") and len(x.args[0].args[1]) == 3:
            return mk("bin", "+", x, x.args[0].args[1][2])
        return x

    return rebuild(t, f)


def lower(ev, mins):
    def f(k):
        if k.op == "prev":
            step = ev.carried.get((k.args[0], k.args[1]))
            if step is not None and at_least(form(step) - form(k), mins):
                return form(k.args[2])
        if k.op == "elem" and ext_call(k.args[0], "range") and len(k.args[0].args[1]) > 1:
            return form(k.args[0].args[1][0])
        return None

    return f


def one(rep, ev, e, me, reduce, name):
    if e.data.op != "tuple" or len(e.data.args) != 2:
        rep.undecided("gap", name, e.loc, "what is yielded is not a pair")
        return
    cs = cases(mk("tuple", *e.data.args, stepped(ev, e.data.args[1])), e.guard)
    if cs is None:
        rep.undecided("gap", name, e.loc, "too many cases")
        return
    mins = minima(me)
    low = lower(ev, mins)
    size = {n: form(mk("attr", me, n)) for n in SIZES}
    purge = size["purged_size"]
    out = {}

    def say(rule, inst, ok, msg):
        old = out.get((rule, inst), (True, ""))
        rank = {False: 0, None: 1, True: 2}
        out[rule, inst] = min(old, (None if ok is None else bool(ok), msg), key=lambda x: rank[x[0]])

    for g, t in cs:
        tr, te, nx = (interval(x) for x in t.args)
        if tr is None or te is None or nx is None:
            rep.undecided("gap", name, e.loc, "the positions are not an interval")
            continue
        label = "expanding" if any(c is mk("attr", me, "expend_train") and p for c, p in g) else "rolling"
        inst = f"{name}, {label}"
        say("gap", inst, at_least(form(te[0]) - form(tr[1]) - purge, mins, low),
            f"the training set ends at {tr[1]} and the test set starts at {te[0]}")  # fmt: skip
        first = form(tr[0])
        looked_up = len(first) == 1 and all(isinstance(k, tuple) and v > 0 for k, v in first.items())
        say("start", inst, looked_up or at_least(first, mins, low), f"the training set starts at {tr[0]}, which can be negative")
        ends = total(te[1])
        if nx[0] is te[0]:
            say("advance", inst, False, "the next test set starts at the same position")
        elif not ends:
            say("advance", inst, at_least(form(nx[0]) - form(te[1]), mins, low),
                f"a test set ends at {te[1]} and the next one starts at {nx[0]}")  # fmt: skip
        if name.startswith(KINDS[:2]):
            if not ends:
                say("size", f"{inst}, test", exactly(te, size["test_size"]), f"the test set runs from {te[0]} to {te[1]}")
            if label == "rolling":
                say("size", f"{inst}, train", exactly(tr, size["train_size"], purge), f"the training set runs from {tr[0]} to {tr[1]}")
        if label == "expanding":
            say("size", f"{inst}, train", form(tr[0]) == number(0), f"the expanding training set starts at {tr[0]}")
        if not reduce:
            say("full", inst, not ends, "the test set runs to the end of the data although it may be shorter than asked for")
        for x in lookups((*tr[:2], *te[:2])):
            say("found", f"{name.split(',')[0]}, {origin(x.args[1][0])}", found(ev, (*tr[:2], *te[:2]), x),
                f"dates outside the data give position -1, which {x} does not exclude")  # fmt: skip
        if name.startswith(KINDS[0]):
            ok, skip = last(e, g, te, mins, low, reduce)
            if not skip:
                say("last", inst, ok, f"a test set from {te[0]} to {te[1]} is produced under another condition than that it fits")
    for (rule, inst), (ok, msg) in out.items():
        rep.check(ok, rule, inst, e.loc, msg)


def exactly(bounds, size, purge=None):
    """Whether an interval has a size, in observations or in periods."""
    lo, hi = form(bounds[0]), form(bounds[1])
    d = hi - lo
    if d == size:
        return True
    if not any(isinstance(k, tuple) for k in d):
        return False if all(k is None or k.op == "attr" for k in d) else None
    if purge is not None:
        hi = hi + purge
    if len(lo) == len(hi) == 1:
        (a, m), (b, n) = *lo.items(), *hi.items()
        if isinstance(a, tuple) and isinstance(b, tuple) and a[1] is b[1] and m == n == 1:
            return Form(dict(b[2])) - Form(dict(a[2])) == size
    return None


def total(t):
    """Whether a term is the number of observations."""
    return t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" or ext_call(t, "len")


def lookups(ts):
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == "call" and x.args[0].op in ("meth", "bound") and x.args[0].args[1] in ("get_indexer", "get_indexer_for") and x.args[1]:
                out.append(x)
    return list(dict.fromkeys(out))


def inside(t):
    """Dates from the first to the last one of the data."""
    if not ext_call(t, "pandas.date_range"):
        return False
    kw = dict(t.args[2]) | dict(zip(("start", "end"), t.args[1]))
    ends = [kw.get("start"), kw.get("end")]
    return all(x is not None and x.op == "sub" and is_const(x.args[1]) for x in ends) and [cval(x.args[1]) for x in ends] == [0, -1]


def found(ev, bounds, x):
    cs = cases(x.args[1][0])
    if cs is not None and all(inside(d) for _, d in cs):
        return True
    tests = [y for f in ev.effects for g, _ in f.guard for y in walk(g)] + [y for b in bounds for y in walk(b)]
    return any(t.op == "cmp" and any(z is x for z in walk(t)) and minus_one(t) for t in tests)


def minus_one(t):
    return any(is_const(a) and cval(a) in (-1, 0) for a in t.args[1:])


def origin(dates):
    return "training dates" if any(x.op == "attr" and x.args[1] == "train_size" for x in walk(dates)) else "test dates"


# -- the number of splits -------------------------------------------------------


def constraint(c, pol):
    """A form that is at most zero when the literal holds."""
    if c.op != "cmp":
        return None
    o, a, b = c.args
    if not pol:
        o = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(o)
    d = form(a) - form(b)
    return {"<": d + number(1), "<=": d, ">": d.scale(-1) + number(1), ">=": d.scale(-1)}.get(o)


def last(e, g, te, mins, low, reduce):
    """Whether the guards of a yield admit exactly the test sets that fit; whether to skip."""
    n = next((f for c, p in (*e.guard, *g) for f in [size_of(c)] if f is not None), None)
    if n is None:
        return None, True
    want = form(te[0]) + number(1) - form(n) if reduce else form(te[1]) - form(n)
    got = [f for c, p in (*e.guard, *g) for f in [constraint(c, p)] if f is not None and moving(f) and any(k is n for k in f)]
    for k in form(te[0]):
        # a loop over a range stops before the end of the range
        if k is not None and not isinstance(k, tuple) and k.op == "elem" and called_range(k.args[0]):
            got.append(form(k) + number(1) - form(k.args[0].args[1][1]))
    if not got:
        return None, True
    if reduce:
        # the case that runs to the end and the other one cover all positions together
        return (True if any(f == want for f in got) else False if all(not at_least(want - f, mins, low) for f in got) else None), False
    return any(f == want for f in got) and all(at_least(want - f, mins, low) is not False for f in got), False


def called_range(t):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("range", "numpy.arange") and len(t.args[1]) >= 2


def moving(f):
    return any(not isinstance(k, tuple) and k is not None and k.op in ("prev", "elem") for k in f)


def size_of(c):
    if c.op != "cmp":
        return None
    return next((x for a in c.args[1:] for x in form(a) if x is not None and not isinstance(x, tuple) and total(x)), None)


def announced(P, rep, cls, me):
    f = cls.find_method("get_n_splits")
    if f is None:
        return
    for reduce in (False, True):
        ev = Evaluator(P, self_attrs={"reduce_test": const(reduce), "freq": NONE})
        r = ev.run(f, cls=cls)
        rep.saw(ev)
        inst = f"samples, {'reduced' if reduce else 'full'}"
        if counted(r):
            rep.ok("announced", inst, f.loc)
            continue
        n = next((x for x in walk(r) if total(x) and x.op == "sub"), None)
        if n is None:
            rep.undecided("announced", inst, f.loc, "the number of splits has another form")
            continue
        want = form(n) - form(mk("attr", me, "train_size")) - form(mk("attr", me, "purged_size"))
        rep.check(quotient(r, want, mk("attr", me, "test_size"), reduce), "announced", inst, f.loc, f"the number of splits is {r}")
    ev = Evaluator(P, self_attrs={"freq": const("MS")}, inline=lambda fn, *a: fn is f)
    r = ev.run(f, cls=cls)
    dep = all(counted(x) or any(y.op == "attr" and y.args[1] == "index" for y in walk(x)) for x in alternatives(r))
    rep.check(dep, "announced", "calendar", f.loc, "the number of splits of a calendar-based split does not depend on the dates")


def counted(r):
    """The number is obtained by producing the splits."""
    return any(x.op == "gen" or x.op in ("meth", "bound") and "split" in str(x.args[1]) for x in walk(r))


def quotient(r, want, test, ceil):
    """Whether ``r`` is the floor (or the ceiling) of want / test."""
    def num(t):
        return t.op == "bin" and t.args[0] == "//" and t.args[2] is test

    if num(r):
        d = form(r.args[1])
        if d == want:
            return not ceil
        if d == want + form(test) - number(1):
            return ceil
        return False if set(d) <= set(want) | {test, None} else None
    if r.op == "bin" and r.args[0] in "+-":
        q = next((a for a in r.args[1:] if num(a)), None)
        if q is not None and set(form(r) - form(q)) <= {None} and form(q.args[1]) == want:
            return False
    if r.op == "phi":
        arms = r.args[1:]
        plain = [a for a in arms if num(a)]
        plus = [a for a in arms if not num(a)]
        if len(plain) != 1 or len(plus) != 1:
            return None
        q = plain[0]
        if form(q.args[1]) != want:
            return False
        if form(plus[0]) - form(q) != number(1):
            return False
        rest = [x for x in walk(r.args[0]) if x.op == "bin" and x.args[0] == "%"]
        if not rest:
            return None
        return ceil and all(form(x.args[1]) == want and x.args[2] is test for x in rest)
    return None

