"""C20: combinatorial purged splits keep the purge and embargo gaps."""

import operator

from sa.affine import at, at_least, cases, form, number
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.vg import Evaluator, cval, is_const, mk, show, walk

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
ZERO = number(0)
ONE = number(1)


def check(P, rep):
    rep.rule("select", "only rows that are neither tested nor purged are trained on", need=0)
    rep.rule("before", "the purged rows before every test block are left out", need=0)
    rep.rule("after", "the purged and embargoed rows after every test block are left out", need=0)
    rep.rule("folds", "every row belongs to one of the folds", need=0)
    rep.rule("axis", "positions are used on the axis they were found on", need=4)
    rep.rule("same", "predictions are given to paths in the order they are produced", need=0)
    cls = P.cls("CombinatorialPurgedCV")
    f = cls.find_method("split")
    if f is None:
        raise AnalysisBroken("CombinatorialPurgedCV.split not found")
    me = selfterm(cls)
    ev = Evaluator(P)
    ev.run(f, cls=cls)
    rep.saw(ev)
    ys = [e for e in ev.effects if e.kind == "yield"]
    if not ys:
        raise AnalysisBroken("CombinatorialPurgedCV.split yields nothing")
    for e in ys:
        if e.data.op != "tuple" or len(e.data.args) != 2:
            continue
        gaps(rep, ev, e, me)
        folds(rep, e, me)
    axes(rep, ev, "split")
    for name in ("get_path_ids", "recombined_paths", "binary_train_test_sets"):
        m = cls.find_method(name)
        if m is None:
            continue
        ev2 = Evaluator(P)
        r = ev2.run(m, cls=cls)
        rep.saw(ev2)
        axes(rep, ev2, name, r)
        if name == "get_path_ids":
            same(rep, ev, ys, ev2, m, me)


# -- terms ----------------------------------------------------------------------


def ext(t, *names):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in names


def method(t, *names):
    return t.op == "call" and t.args[0].op == "meth" and t.args[0].args[1] in names


def column(t):
    """(table, column) of ``table[:, j]``, ``table[a, j]``, ``table[a][j]``."""
    if t.op != "sub":
        return None
    o, k = t.args
    if k.op == "tuple" and len(k.args) == 2 and is_const(k.args[1]):
        return o, cval(k.args[1])
    if is_const(k) and isinstance(cval(k), int) and (o.op == "elem" or o.op == "sub" and not o.args[1].op == "tuple"):
        return o.args[0], cval(k)
    return None


def unclip(t):
    """The position without its limits to the first and the last row."""
    while ext(t, "numpy.maximum", "numpy.minimum", "numpy.clip", "max", "min") and t.args[1]:
        a = [
            x
            for x in t.args[1]
            if any(
                y.op == "call" and ext(y, "numpy.argwhere", "numpy.nonzero", "numpy.where", "numpy.flatnonzero") for y in walk(x)
            )
        ]
        if len(a) != 1:
            return t
        t = a[0]
    return t


def layers(t):
    """([(key, value)] newest first, initial array), or None."""
    out = []
    while True:
        if t.op == "upd":
            out.append((t.args[1], t.args[2]))
            t = t.args[0]
        elif t.op == "loop":
            body = layers(t.args[3])
            if body is None or body[1].op != "prev":
                return None
            out += body[0]
            t = t.args[2]
        elif t.op == "phi" or t.op == "top":
            return None
        else:
            return out, t


# -- the training mask ----------------------------------------------------------


def gaps(rep, ev, e, me):
    train = e.data.args[0]
    while method(train, "reshape", "ravel", "flatten"):
        train = train.args[0].args[0]
    if train.op == "sub" and is_const(train.args[1]) and cval(train.args[1]) == 0:
        train = train.args[0]
    if not ext(train, "numpy.argwhere", "numpy.where", "numpy.nonzero", "numpy.flatnonzero") or len(train.args[1]) != 1:
        rep.undecided("select", "split", e.loc, "the training rows are not selected by a mask")
        return
    c, pol = train.args[1][0], True
    while c.op == "not":
        c, pol = c.args[0], not pol
    if c.op != "cmp" or c.args[0] not in OPS or not is_const(c.args[2]) or c.args[1].op != "sub":
        rep.undecided("select", "split", e.loc, "the training rows are selected in another way")
        return
    ls = layers(c.args[1].args[0])
    if ls is None or not ext(ls[1], "numpy.zeros"):
        rep.undecided("select", "split", e.loc, "the mask has another form")
        return
    init = 0
    marks = [cval(v) if is_const(v) else None for _, v in ls[0]]
    if None in marks:
        rep.undecided("select", "split", e.loc, "the mask has other values")
        return
    keep = {m for m in (init, *marks) if OPS[c.args[0]](m, cval(c.args[2])) == pol}
    rep.check(
        keep == {init} and init not in marks,
        "select",
        "split",
        e.loc,
        f"rows marked {sorted(keep)} are trained on, marks are {sorted(set(marks))}",
    )
    purge = form(mk("attr", me, "purged_size"))
    embargo = form(mk("attr", me, "embargo_size"))
    tests = [(k, v) for k, v in ls[0] if not any(ext(y, "numpy.diff") for y in walk(k))]
    rest = [(k, v) for k, v in ls[0] if any(ext(y, "numpy.diff") for y in walk(k))]
    if len(tests) != 1:
        rep.undecided("before", "split", e.loc, "the test rows are marked in several steps")
        return
    t = cval(tests[0][1])
    mins = lambda k: 0 if k.op == "attr" and k.args[1] in ("purged_size", "embargo_size") else None  # noqa: E731
    covers = {"before": [], "after": []}
    for k, _ in rest:
        x = cover(k, t, init)
        if x is None:
            rep.undecided("before", "split", e.loc, "rows are marked in another way")
            rep.undecided("after", "split", e.loc, "rows are marked in another way")
            return
        covers[x[0]].append(x[1:])
    for side, lo, hi in (("before", ONE - purge, ZERO), ("after", ONE, purge + embargo)):
        # relative to the last row before the block, or to the last row of the block
        got = covers[side]
        if len(got) > 1:
            rep.undecided(side, "split", e.loc, "rows are marked in several steps")
            continue
        ok = bool(got) and at_least(lo - got[0][0], mins) and at_least(got[0][1] - hi, mins)
        if ok is None and (short(lo - got[0][0], me) or short(got[0][1] - hi, me)):
            ok = False
        rep.check(ok if ok is not None else None, side, "split", e.loc,
                  f"rows {text(got[0][0])} to {text(got[0][1])} are left out, not {text(lo)} to {text(hi)}" if got else "no rows are left out")  # fmt: skip


def short(f, me):
    """Whether a bound is missed for some small purge and embargo."""
    for purge in range(4):
        for embargo in range(4):
            v = at(f, {mk("attr", me, "purged_size"): purge, mk("attr", me, "embargo_size"): embargo})
            if v is not None and v < 0:
                return True
    return False


def text(f):
    return " + ".join(f"{v}*{k}" if k is not None else str(v) for k, v in f.items()) or "0"


def cover(key, t, init):
    """(side, first, last) of the rows marked around each block."""
    if key.op != "tuple" or len(key.args) != 2:
        return None
    col = column(key.args[1])
    f = form(unclip(key.args[0]))
    lo = hi = ZERO
    table = None
    for k, v in f.items():
        if k is None:
            lo, hi = lo + number(v), hi + number(v)
            continue
        if isinstance(k, tuple):
            return None
        if k.op == "elem" and ext(k.args[0], "range") and abs(v) == 1:
            a = k.args[0].args[1]
            first, stop = (ZERO, form(a[0])) if len(a) == 1 else (form(a[0]), form(a[1])) if len(a) == 2 else (None, None)
            if first is None:
                return None
            last = stop - ONE
            lo, hi = (lo + first, hi + last) if v == 1 else (lo - last, hi - first)
            continue
        c = column(k)
        if c is None or v != 1 or c[1] != 0 or table is not None or not ext(c[0], "numpy.argwhere"):
            return None
        table = c[0]
    if table is None or col is None or col[0] is not table or col[1] != 1:
        return None
    c = table.args[1][0]
    if c.op != "cmp" or c.args[0] != "==" or not is_const(c.args[2]) or not ext(c.args[1], "numpy.diff"):
        return None
    kw = dict(c.args[1].args[2])
    axis = kw.get("axis")
    if axis is None or not is_const(axis) or cval(axis) != 0:
        return None
    step = cval(c.args[2])
    if step == t - init:
        return "before", lo, hi
    if step == init - t:
        return "after", lo, hi
    return None


# -- folds ----------------------------------------------------------------------


def folds(rep, e, me):
    """Row // (rows // folds) can exceed the last fold by more than one."""
    n = mk("attr", me, "n_folds")
    seen = set()
    for x in walk(e.data):
        if x.op != "bin" or x.args[0] != "//" or not ext(x.args[1], "numpy.arange"):
            continue
        q = x.args[2]
        if q.op != "bin" or q.args[0] != "//" or q.args[2] is not n or id(x) in seen:
            continue
        seen.add(id(x))
        ok = None
        for y in walk(e.data):
            if ext(y, "numpy.minimum", "numpy.clip") and any(z is x for z in y.args[1]):
                ok = any(form(z) == form(n) - ONE for z in y.args[1])
            if y.op == "upd" and y.args[0] is x and y.args[1].op == "cmp":
                o, a, b = y.args[1].args
                if b is x:
                    o, a, b = {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}.get(o, o), b, a
                if a is not x:
                    continue
                ok = form(y.args[2]) == form(n) - ONE and (
                    o == ">=" and form(b) == form(n) or o == ">" and form(b) == form(n) - ONE
                )
        rep.check(
            bool(ok),
            "folds",
            "row // fold size",
            e.loc,
            "rows beyond the last fold are in no fold: the quotient can exceed the number of folds by more than one",
        )


# -- axes -----------------------------------------------------------------------


def dims(t):
    """Sizes of the axes of an array."""
    if t.op in ("upd", "loop"):
        return dims(t.args[0] if t.op == "upd" else t.args[2])
    if ext(t, "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and t.args[1]:
        s = t.args[1][0]
        return list(s.args) if s.op == "tuple" else [s]
    if method(t, "reshape"):
        return [None if is_const(a) and cval(a) == -1 else a for a in t.args[1]]
    if ext(t, "numpy.arange") and len(t.args[1]) == 1:
        return [t.args[1][0]]
    if t.op == "cmp":
        return dims(t.args[1])
    return None


def counts(t):
    """The size of the axis the elements are positions on."""
    c = column(t)
    if c is not None and ext(c[0], "numpy.argwhere") and c[0].args[1]:
        d = dims(c[0].args[1][0])
        return d[c[1]] if d is not None and -len(d) <= c[1] < len(d) else None
    if ext(t, "numpy.arange", "range") and len(t.args[1]) == 1:
        return t.args[1][0]
    if t.op == "elem":
        return counts(t.args[0])
    if t.op == "sub":
        return counts(t.args[0])
    if method(t, "reshape", "astype", "copy", "ravel"):
        return counts(t.args[0].args[0])
    if ext(t, "numpy.array", "numpy.asarray", "list", "tuple", "itertools.combinations") and t.args[1]:
        return counts(t.args[1][0])
    return None


def agree(a, b):
    if a is None or b is None:
        return None
    if a is b:
        return True
    known = ("attr", "call")
    return False if a.op in known and b.op in known else None


def axes(rep, ev, name, result=None):
    seen = {}

    def say(what, a, b, loc):
        ok = agree(a, b)
        if ok is None:
            return
        key = f"{name}: {what}"
        seen[key] = seen.get(key, (True, loc, None))
        if not ok:
            seen[key] = (False, loc, f"positions counted to {a} are used for {b}")

    roots = [result] if result is not None else []
    for e in ev.effects:
        if e.kind == "setitem" and len(e.data) == 3:
            o, k, v = e.data
            d = dims(o if o.op != "prev" else o.args[2])
            ks = k.args if k.op == "tuple" else (k,)
            if d is not None and len(d) == len(ks):
                for i, x in enumerate(ks):
                    say(f"item {i} of {' x '.join(map(str, d))}"[:70], counts(unclip(x)), d[i], e.loc)
            roots.append(v)
        elif e.kind in ("yield", "return"):
            roots.append(e.data)
    for r in roots:
        for x in walk(r):
            if x.op == "cmp" and x.args[0] == "==":
                say(
                    f"comparison with {x.args[2]}"[:70],
                    counts(x.args[1]) if dims(x.args[1]) else None,
                    counts(x.args[2]),
                    ev.effects[-1].loc if ev.effects else name,
                )
            elif x.op == "sub" and x.args[0].op == "comp" and x.args[0].args[0] == "dict":
                say("fold of a position", counts(x.args[1]), counts(x.args[0].args[2][0]), ev.effects[-1].loc)
    for key, (ok, loc, msg) in seen.items():
        rep.check(ok, "axis", key, loc, msg or "")


def same(rep, ev, ys, ev2, m, me):
    """The tested folds and the paths are two columns of one enumeration."""
    folds_of = [
        c
        for e in ys
        for x in walk(e.data.args[1])
        if x.op == "sub"
        for c in [column(x)]
        if c is not None and ext(c[0], "numpy.argwhere") and x.args[0].op == "elem"
    ]
    paths = [
        c
        for e in ev2.effects
        if e.kind == "setitem"
        for _, v in cases(e.data[2], e.guard) or ()
        for c in [column(v)]
        if c is not None and ext(c[0], "numpy.argwhere")
    ]
    if not folds_of or not paths:
        rep.undecided("same", "paths", m.loc, "the paths are numbered in another way")
        return
    a, b = folds_of[0], paths[0]
    ta, tb = a[0].args[1][0], b[0].args[1][0]
    if ta.op != "cmp" or tb.op != "cmp":
        rep.undecided("same", "paths", m.loc, "the paths are numbered in another way")
        return

    def table(t):
        return {show(s, 60) for s in t.args[1:] if s.op not in ("elem", "const", "in")}

    tables = [table(t) for t in (ta, tb)]
    rep.check(
        bool(tables[0] & tables[1]) and ta.args[0] == tb.args[0] == "==",
        "same",
        "paths",
        m.loc,
        "tested folds and paths come from different tables",
    )
    for e in ev2.effects:
        # the j-th block of a split takes the j-th entry of the enumeration
        if e.kind != "setitem" or e.data[1].op != "tuple" or len(e.data[1].args) != 2:
            continue
        i, j = e.data[1].args
        for _, v in cases(e.data[2], e.guard) or ():
            if v.op != "sub":
                continue
            row = v.args[1].args[0] if v.args[1].op == "tuple" else v.args[0].args[1] if v.args[0].op == "sub" else None
            if row is None or not any(x is tb or x.op == "cmp" and table(x) & tables[1] for x in walk(v)):
                continue
            row_ok = True if row is j else False if is_const(row) or row is i else None
            rep.check(row_ok, "same", "row", e.loc, f"block {show(j, 4)} of a split is given the path of entry {show(row, 4)}")
    rep.check(a[1] == 0 and b[1] in (1, -1), "same", "columns", m.loc, f"folds are column {a[1]} and paths column {b[1]}")
