"""C26: pre-selection keeps exactly the assets its rule selects."""

import sa.algebra as A
from sa.affine import replace
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.vg import FALSE, NONE, TRUE, Evaluator, T, cval, is_const, show, walk

PORTFOLIOS = ("Portfolio", "BasePortfolio", "Population")
FLIP = {">": "<", ">=": "<=", "<": ">", "<=": ">="}
NOT = {">": "<=", ">=": "<", "<": ">=", "<=": ">", "==": "!=", "!=": "==", "in": "not in", "not in": "in"}
REDUCE = {"any", "all", "sum", "mean", "var", "std", "max", "min", "nanvar", "nanstd", "nanmean", "median", "prod"}


def check(P, rep):
    rep.rule("mask", "the mask is the one the fit computed", need=4)
    rep.rule("columns", "the mask has one entry for each column, in their order", need=4)
    rep.rule("from-fit", "the mask depends on the data of the fit and on the options only", need=4)
    rep.rule("own-transform", "columns are reduced by the mask only", need=4)
    rep.rule("favoured", "the assets the rule favours are kept, not dropped", need=4)
    rep.rule("rule", "the rule looks at what it is documented to look at", need=4)
    found = 0
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if (
            not any(isinstance(b, str) and b.endswith("SelectorMixin") for b in c.mro())
            or c.is_abstract()
            or c.find_method("fit") is None
        ):
            continue
        found += 1
        selector(P, rep, c)
    if found < 4:
        raise AnalysisBroken(f"only {found} selectors found")


def selector(P, rep, c):
    me = selfterm(c)
    f = c.find_method("fit")
    ev = fitted(P, c, f)
    rep.saw(ev)
    g = c.find_method("_get_support_mask")
    if g is None:
        rep.bad("mask", c.name, f.loc, "no mask is given")
        return
    ev2 = Evaluator(P)
    r = ev2.run(g, cls=c)
    rep.saw(ev2)
    used = {x for x in walk(r) if x.op == "attr" and x.args[0] is me}
    params = set(c.init().params()) if c.init() is not None else set()
    free = [x for x in walk(r) if x.op == "in"]
    rep.check(
        bool(used) and not free and not any(x.args[1] in params for x in used),
        "mask",
        c.name,
        g.loc,
        f"the mask is {show(r, 3)[:60]}, not what the fit computed",
    )
    over = [
        n
        for n in ("transform", "get_support", "_transform", "get_feature_names_out", "inverse_transform")
        if c.find_method(n) is not None
    ]
    rep.check(not over or None, "own-transform", c.name, f.loc, f"{', '.join(over)} is overridden")
    pairs = []
    for x in used:
        v = ev.st.heap.get((me, x.args[1]))
        if v is None:
            rep.bad("mask", f"{c.name}.{x.args[1]}", f.loc, f"`{x.args[1]}` is not set by fit")
            return
        pairs.append((x, v))
    mask = replace(r, pairs)
    names = {x.args[-1] for x in walk(mask) if x.op == "in"}
    rep.check("X" in names or not names, "from-fit", c.name, f.loc, "the mask does not depend on the data of the fit")
    random = [x for x in walk(mask) if x.op == "call" and x.args[0].op == "ext" and ".random." in x.args[0].args[0]]
    rep.check(not random, "from-fit", f"{c.name}.random", f.loc, "the mask depends on random numbers")
    k = per(mask)
    rep.check(
        True if k == "col" else None if k is None else False,
        "columns",
        c.name,
        f.loc,
        f"the mask has one entry per {'row' if k == 'row' else 'table'}: {show(mask, 4)[:80]}",
    )
    for conds, m in settled(mask):
        tree = formula(m, True)
        RULES.get(c.name, unknown)(rep, c, f, ev, me, conds, tree)
    pairs_of(rep, c, f, ev)
    portfolios(rep, c, f, ev, me)
    if c.name == "DropCorrelated":
        for flag in (TRUE, FALSE):
            sizes(rep, c, f, fitted(P, c, f, absolute=flag), me, flag is TRUE)


def fitted(P, c, f, **options):
    ev = Evaluator(P, budget=300000, inline=lambda g, *a: g.cls is None or g.cls.name not in PORTFOLIOS, self_attrs=options)
    ev.run(f, cls=c)
    return ev


def settled(t):
    """(conditions, term) with the choices at the top of a term made."""
    if t.op == "phi":
        return [((*g, (t.args[0], pol)), x) for pol, y in ((True, t.args[1]), (False, t.args[2])) for g, x in settled(y)]
    return [((), t)]


# -- shapes -------------------------------------------------------------------------


def is_data(t):
    """The table given to fit, perhaps validated."""
    if t.op == "in":
        return t.args[-1] == "X"
    if (
        t.op == "call"
        and t.args[0].op == "ext"
        and t.args[0].args[0].rpartition(".")[2] in ("validate_data", "check_array", "asarray", "array")
    ):
        return any(is_data(x) for x in t.args[1])
    if t.op == "call" and t.args[0].op == "meth" and t.args[0].args[1] in ("to_numpy", "copy"):
        return is_data(t.args[0].args[0])
    if t.op == "attr" and t.args[1] == "values":
        return is_data(t.args[0])
    return False


def n_columns(t):
    if (
        t.op == "sub"
        and t.args[0].op == "attr"
        and t.args[0].args[1] == "shape"
        and is_data(t.args[0].args[0])
        and is_const(t.args[1])
    ):
        return cval(t.args[1]) in (1, -1)
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "len" and t.args[1]:
        a = t.args[1][0]
        return (
            a.op == "attr"
            and a.args[1] == "columns"
            and is_data(a.args[0])
            or a.op == "attr"
            and a.args[1] == "T"
            and is_data(a.args[0])
        )
    return t.op == "attr" and t.args[1] == "n_features_in_"


def n_rows(t):
    if (
        t.op == "sub"
        and t.args[0].op == "attr"
        and t.args[0].args[1] == "shape"
        and is_data(t.args[0].args[0])
        and is_const(t.args[1])
    ):
        return cval(t.args[1]) in (0, -2)
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "len" and t.args[1] and is_data(t.args[1][0])


def axis_of(t):
    kw = dict(t.args[2])
    if "axis" in kw:
        a = kw["axis"]
    else:
        pos = t.args[1] if t.args[0].op == "meth" else t.args[1][1:]
        a = pos[0] if pos else NONE
    return cval(a) if is_const(a) else ...


def called(t):
    if t.op != "call":
        return None
    h = t.args[0]
    return h.args[1] if h.op == "meth" else h.args[0].rpartition(".")[2] if h.op == "ext" else None


def subject(t):
    return t.args[0].args[0] if t.args[0].op == "meth" else t.args[1][0] if t.args[1] else NONE


def per(t):
    """'col', 'row', 'table' or 'one': what a value has one entry for."""
    if is_const(t):
        return "one"
    if is_data(t):
        return "table"
    n = called(t)
    if n in REDUCE and (t.args[0].op == "meth" or t.args[1]):
        a, s = axis_of(t), per(subject(t))
        if s == "table":
            return {0: "col", 1: "row", -1: "row", -2: "col", None: "one"}.get(a) if a is not ... else None
        return "one" if s in ("col", "row") and a in (None, 0) else None
    if n == "isin" and t.args[1]:
        return per(t.args[1][0])
    if n in ("arange", "range") and len(t.args[1]) == 1:
        return "col" if n_columns(t.args[1][0]) else "row" if n_rows(t.args[1][0]) else None
    if n in ("full", "ones", "zeros") and t.args[1]:
        return "col" if n_columns(t.args[1][0]) else "row" if n_rows(t.args[1][0]) else None
    if n in (
        "isnan",
        "isna",
        "isfinite",
        "notna",
        "abs",
        "logical_not",
        "invert",
        "asarray",
        "array",
        "list",
        "isnull",
        "notnull",
    ):
        return per(subject(t))
    if n in ("logical_and", "logical_or"):
        return join([per(x) for x in t.args[1]])
    if t.op == "comp":
        over = t.args[2]
        it = over[0] if isinstance(over, tuple) else over
        if len(t.args) > 3 and t.args[3]:
            return None
        if (
            it.op == "attr"
            and it.args[1] in ("columns", "feature_names_in_")
            or it.op == "attr"
            and it.args[1] == "T"
            and is_data(it.args[0])
        ):
            return "col"
        return per(it)
    if t.op == "attr" and t.args[1] == "columns" and is_data(t.args[0]):
        return "col"
    if t.op == "attr" and t.args[1] == "index" and is_data(t.args[0]):
        return "row"
    if t.op == "attr" and t.args[0].op == "self":
        return "one"
    if t.op in ("un", "not", "neg"):
        return per(t.args[-1])
    if t.op in ("bin", "cmp"):
        return join([per(x) for x in t.args[1:]])
    if t.op == "phi":
        ks = {per(x) for x in t.args[1:]}
        return ks.pop() if len(ks) == 1 else None
    if t.op == "sub" and is_data(t.args[0]):
        i = t.args[1]
        if i.op == "tuple" and len(i.args) == 2:
            if i.args[1].op == "slice" and is_const(i.args[0]):
                return "col"
            if i.args[0].op == "slice" and is_const(i.args[1]):
                return "row"
        if is_const(i) and isinstance(cval(i), int):
            return "col"
    return None


def join(ks):
    ks = [k for k in ks if k != "one"]
    if not ks:
        return "one"
    return ks[0] if all(k == ks[0] for k in ks) else None


# -- formulas -------------------------------------------------------------------------


def formula(t, pos):
    """A mask as ('and' | 'or', parts) over ('atom', op, operands, positive)."""
    n = called(t)
    if t.op == "not" or t.op == "un" and t.args[0] in ("~", "Invert", "not"):
        return formula(t.args[-1], not pos)
    if n in ("logical_not", "invert"):
        return formula(t.args[1][0], not pos)
    if n in ("asarray", "array", "list", "astype") and (t.args[1] or t.args[0].op == "meth"):
        return formula(subject(t), pos)
    if n == "to_numpy":
        return formula(subject(t), pos)
    if t.op == "comp":
        return formula(t.args[1], pos)
    both = {"&": "and", "|": "or", "BitAnd": "and", "BitOr": "or"}
    if t.op == "bin" and t.args[0] in both or n in ("logical_and", "logical_or") or t.op in ("and", "or"):
        k = both[t.args[0]] if t.op == "bin" else t.op if t.op in ("and", "or") else n[8:]
        xs = t.args[1:] if t.op == "bin" else t.args if t.op in ("and", "or") else t.args[1]
        k = k if pos else {"and": "or", "or": "and"}[k]
        return (k, [formula(x, pos) for x in xs])
    if n in ("any", "all"):
        inner = formula(subject(t), pos)
        k = n if pos else {"any": "all", "all": "any"}[n]
        return (k, [inner])
    if n == "isin" and t.args[1]:
        inv = dict(t.args[2]).get("invert")
        if inv is not None and is_const(inv) and cval(inv):
            pos = not pos
        return ("atom", "member", t.args[1], pos)
    if n in ("isnan", "isna", "isnull"):
        return ("atom", "missing", (subject(t),), pos)
    if n in ("isfinite", "notna", "notnull"):
        return ("atom", "missing", (subject(t),), not pos)
    if t.op == "cmp" and t.args[0] in FLIP:
        o, a, b = t.args
        if not pos:
            o = NOT[o]
        if o in ("<", "<="):
            o, a, b = FLIP[o], b, a
        return ("atom", "above", (a, b), True, o)
    return ("atom", "other", (t,), pos)


def parts(tree):
    if tree[0] == "atom":
        return [tree]
    return [x for y in tree[1] for x in parts(y)]


def option(t, me, name):
    return any(x.op == "attr" and x.args[0] is me and x.args[1] == name for x in walk(t))


def within(e, me, name):
    """Comparisons of correlations with an option among the conditions of an effect."""
    return [g for g, _ in e.guard if isinstance(g, T) and limited(g, me, name)]


def limited(t, me, name):
    """(what is compared, the side with the option) of a comparison with an option."""
    if t.op == "cmp" and t.args[0] in FLIP:
        for a, b in (t.args[1:], t.args[:0:-1]):
            if option(b, me, name) and not measured(b, ("corrcoef", "corr", "cov")) and measured(a, ("corrcoef", "corr", "cov")):
                return a, b
    return None


def is_option(t, me, name):
    while called(t) in ("float", "int", "bool") and t.args[1]:
        t = t.args[1][0]
    return is_attribute(t, me, name)


def is_attribute(t, me, name):
    return t.op == "attr" and t.args[0] is me and t.args[1] == name


# -- the rules of the public selectors -------------------------------------------------


def unknown(rep, c, f, ev, me, conds, tree):
    rep.undecided("favoured", c.name, f.loc, "no rule is known for this selector")


def zero_variance(rep, c, f, ev, me, conds, tree):
    if tree[0] != "atom" or tree[1] != "above":
        rep.undecided("favoured", c.name, f.loc)
        return
    hi, lo = tree[2]
    up = measured(hi, ("var", "nanvar", "std", "nanstd")) and option(lo, me, "threshold")
    down = measured(lo, ("var", "nanvar", "std", "nanstd")) and option(hi, me, "threshold")
    rep.check(True if up else False if down else None, "favoured", c.name, f.loc, "assets whose variance is small are kept")
    v = hi if up else lo
    if called(v) in ("std", "nanstd"):
        rep.bad("rule", c.name, f.loc, "the standard deviation is compared with a limit for the variance")
    else:
        rep.ok("rule", c.name)


def measured(t, names):
    return any(called(x) in names for x in walk(t))


def complete(rep, c, f, ev, me, conds, tree):
    atoms = parts(tree)
    if any(a[1] != "missing" for a in atoms):
        rep.undecided("favoured", c.name, f.loc)
        return
    inner = next((pol for x, pol in conds if option(x, me, "drop_assets_with_internal_nan")), None)
    key = f"{c.name}[{'all' if inner else 'ends'}]"
    rep.check(
        all(not a[3] for a in atoms) and not uses(tree, "or") and not uses(tree, "any"),
        "favoured",
        key,
        f.loc,
        "assets with missing values are kept",
    )
    if inner is None:
        return
    if inner:
        rep.check(any(is_data(a[2][0]) for a in atoms), "rule", key, f.loc, "not all observations are looked at")
    else:
        rows = {cval(i) for a in atoms for i in [row(a[2][0])] if i is not None}
        whole = any(is_data(a[2][0]) for a in atoms)
        rep.check(
            {0, -1} <= rows and not whole,
            "rule",
            key,
            f.loc,
            f"the first and the last observations should be looked at, not {sorted(rows)}",
        )


def uses(tree, k):
    return tree[0] == k or tree[0] != "atom" and any(uses(x, k) for x in tree[1])


def row(t):
    if t.op == "sub" and is_data(t.args[0]):
        i = t.args[1]
        i = i.args[0] if i.op == "tuple" else i
        return i if is_const(i) and isinstance(cval(i), int) else None
    return None


def expiring(rep, c, f, ev, me, conds, tree):
    if tree[0] != "atom" or tree[1] != "above":
        rep.undecided("favoured", c.name, f.loc)
        return
    hi, lo = tree[2]
    up = option(hi, me, "expiration_dates") and option(lo, me, "expiration_lookahead")
    down = option(lo, me, "expiration_dates") and option(hi, me, "expiration_lookahead")
    rep.check(True if up else False if down else None, "favoured", c.name, f.loc, "assets that expire soon are kept")
    if up:
        rep.check(tree[4] == ">", "rule", f"{c.name}.end", f.loc, "an asset that expires at the end of the look-ahead is kept")
    when, cut = (hi, lo) if up else (lo, hi)
    for x in walk(when):
        if called(x) == "get" and x.args[0].op == "meth" and option(x.args[0].args[0], me, "expiration_dates"):
            d = x.args[1][1] if len(x.args[1]) > 1 else NONE
            rep.check(
                show(d, 3).endswith("max") if d is not NONE else False,
                "rule",
                f"{c.name}.unknown",
                f.loc,
                "an asset without a date is not kept for ever",
            )
            k = x.args[1][0]
            rep.check(
                k.op == "elem" and per(k.args[0]) == "col",
                "rule",
                f"{c.name}.by-name",
                f.loc,
                "dates are not looked up by the name of the column",
            )
    for x in walk(cut):
        if x.op == "bin" and option(x.args[2], me, "expiration_lookahead"):
            rep.check(x.args[0] == "+", "rule", f"{c.name}.cutoff", f.loc, "the look-ahead is not added to the last date")
            b = x.args[1]
            if b.op == "sub" and is_const(b.args[1]):
                rep.check(
                    cval(b.args[1]) == -1,
                    "rule",
                    f"{c.name}.last",
                    f.loc,
                    "the look-ahead does not start at the last observation",
                )
            elif called(b) == "min":
                rep.bad("rule", f"{c.name}.last", f.loc, "the look-ahead does not start at the last observation")


def member(rep, c, f, tree, keep, what):
    """Members of the set that the rule collects, when the mask is built from it."""
    if tree[0] != "atom" or tree[1] != "member":
        if not (tree[0] == "atom" and called(tree[2][0]) in ("full", "ones")):
            rep.undecided("favoured", c.name, f.loc)
        return None
    rep.check(tree[3] is keep, "favoured", c.name, f.loc, what)
    return tree[2][1] if len(tree[2]) > 1 else None


def extremes(rep, c, f, ev, me, conds, tree):
    s = member(rep, c, f, tree, True, "the selected assets are dropped")
    if s is None:
        return
    for x in walk(s):
        if x.op != "sub" or x.args[1].op != "slice" or called(x.args[0]) not in ("sort_measure", "sorted"):
            continue
        lo, hi, step = x.args[1].args
        kw = dict(x.args[0].args[2])
        pos = x.args[0].args[1]
        rev = kw.get("reverse", pos[1] if len(pos) > 1 and called(x.args[0]) == "sort_measure" else None)
        if rev is None or step is not NONE:
            rep.undecided("favoured", f"{c.name}.highest", f.loc)
            continue
        down = sign(rev, me, "highest")
        for bound in (lo, hi):
            if bound.op == "bin" and option(bound, me, "k") and is_const(bound.args[2]):
                rep.bad("rule", f"{c.name}.k", x.loc or f.loc, "not exactly `k` assets are selected")
        first = lo is NONE and option(hi, me, "k") and sign_of_k(hi) > 0
        last = hi is NONE and option(lo, me, "k") and sign_of_k(lo) < 0
        ok = None if down is None or not (first or last) else (down == first)
        rep.check(ok, "favoured", f"{c.name}.highest", x.loc or f.loc, "`highest` selects the lowest values")
        if called(x.args[0]) == "sort_measure":
            m = kw.get("measure", pos[0] if pos else NONE)
            rep.check(
                option(m, me, "measure"),
                "rule",
                f"{c.name}.measure",
                x.loc or f.loc,
                "assets are not sorted by the given measure",
            )
        return
    rep.undecided("favoured", f"{c.name}.highest", f.loc)


def sign(t, me, name):
    """Whether a flag is the option itself (True) or its opposite (False)."""
    if t.op == "attr" and t.args[0] is me and t.args[1] == name:
        return True
    if t.op == "not" or t.op == "un" and t.args[0] == "not":
        r = sign(t.args[-1], me, name)
        return None if r is None else not r
    if called(t) == "bool":
        return sign(t.args[1][0], me, name)
    return None


def sizes(rep, c, f, ev, me, absolute):
    """What is compared with the threshold and with each other, for one value of `absolute`."""
    mask = ev.st.heap.get((me, "to_keep_"))
    if mask is None:
        return
    label = f"{c.name}[absolute={absolute}]"
    for x in {y for y in walk(mask) if limited(y, me, "threshold")}:
        a, b = limited(x, me, "threshold")
        corr, cov = measured(a, ("corrcoef", "corr")), measured(a, ("cov",))
        plain = not any(y.op == "bin" for y in walk(a, into_cond=False))
        if not plain:
            continue
        if corr or cov:
            rep.check(
                corr, "rule", f"{label}.correlation", x.loc or f.loc, "a covariance is compared with a limit for the correlation"
            )
        rep.check(
            is_option(b, me, "threshold")
            or (False if b.op in ("neg", "bin") or called(b) in ("abs", "fabs", "absolute", "square", "sqrt") else None),
            "rule",
            f"{label}.limit",
            x.loc or f.loc,
            "correlations are not compared with the threshold itself",
        )
        rep.check(
            magnitude(a) is absolute,
            "rule",
            f"{label}.threshold",
            x.loc or f.loc,
            f"{'signed' if absolute else 'absolute'} correlations are compared with the threshold",
        )
    for x in {y for y in walk(mask) if called(y) == "mean"}:
        s = subject(x)
        if measured(s, ("corrcoef", "corr")) and not any(y.op == "bin" for y in walk(s)):
            rep.check(
                magnitude(s) is absolute,
                "rule",
                f"{label}.mean",
                x.loc or f.loc,
                f"{'signed' if absolute else 'absolute'} correlations are averaged",
            )
    for e in ev.effects:
        if e.kind != "mutcall" or e.data[1] not in ("add", "append") or within(e, me, "threshold"):
            continue
        for g, _ in e.guard:
            if not isinstance(g, T) or g.op != "inloop":
                continue
            rep.check(
                chosen(g.args[1], me),
                "rule",
                f"{label}.above",
                e.loc,
                "assets are removed for pairs that need not be above the threshold",
            )


def chosen(t, me):
    """Whether the members of t are positions where something is above the threshold."""
    n = called(t)
    if n in ("argwhere", "flatnonzero", "where", "nonzero"):
        return True if option(t, me, "threshold") else None
    if n in ("flatten", "ravel", "squeeze", "tolist", "astype", "copy", "list", "sorted", "reversed", "array", "asarray"):
        return chosen(subject(t), me)
    if n in ("argsort", "arange", "range"):
        return False if not option(t, me, "threshold") or n == "argsort" else None
    if t.op == "sub":
        base, key = t.args
        ok = chosen(base, me)
        if ok and called(key) == "argsort":
            s = subject(key)
            s = s.args[-1] if y_negative(s) else s
            # the order has to be that of the chosen pairs
            if not (s.op == "sub" and s.args[1] is base):
                whole = [y.args[1] if option(y.args[2], me, "threshold") else y.args[2] for y in walk(base) if y.op == "cmp"]
                return False if s in whole else None
        return ok
    return None


def magnitude(t):
    return any(called(y) in ("abs", "fabs", "absolute", "square") for y in walk(t))


def pairs_of(rep, c, f, ev):
    """Pairs of columns are all pairs of different columns."""
    for e in ev.effects:
        if e.kind != "call" or e.data[0].op != "ext" or e.data[0].args[0] not in ("numpy.triu_indices", "numpy.tril_indices"):
            continue
        pos, kw = e.data[1], dict(e.data[2])
        n = pos[0] if pos else kw.get("n")
        k = pos[1] if len(pos) > 1 else kw.get("k")
        k = 0 if k is None else cval(k) if is_const(k) else None
        if n is not None:
            short = n.op == "bin" and n.args[0] in "+-" and n_columns(n.args[1]) and is_const(n.args[2])
            rep.check(
                True if n_columns(n) else False if short else None,
                "rule",
                f"{c.name}.all-pairs",
                e.loc,
                "some assets are in no pair",
            )
        want = 1 if e.data[0].args[0].endswith("triu_indices") else -1
        if k != 0 and k is not None:
            rep.check(k == want, "rule", f"{c.name}.neighbours", e.loc, "some pairs of assets are left out")


def portfolios(rep, c, f, ev, me):
    """The portfolios that assets are judged by hold one asset, or two with the least variance."""
    params = set(c.init().params()) if c.init() is not None else set()
    for e in ev.effects:
        if e.kind != "call" or e.data[0].op != "cls" or not str(e.data[0].args[0]).endswith(".Portfolio"):
            continue
        kw = dict(e.data[2])
        if "fitness_measures" in params:
            m = kw.get("fitness_measures")
            rep.check(
                m is not None and option(m, me, "fitness_measures"),
                "rule",
                f"{c.name}.measures",
                e.loc,
                "a portfolio is not judged by the given measures",
            )
        w, held = kw.get("weights"), []
        while w is not None and w.op == "upd":
            held.append((w.args[1], w.args[2]))
            w = w.args[0]
        if w is None or called(w) not in ("zeros", "zeros_like"):
            continue
        if any(k.op == "slice" for k, _ in held):
            rep.bad("rule", f"{c.name}.single", e.loc, "a portfolio meant to hold one asset holds several")
        elif len(held) == 1:
            k, v = held[0]
            rep.check(k.op == "elem" and per(k.args[0]) == "col" and is_const(v) or None, "rule", f"{c.name}.single", e.loc)
        elif len(held) == 2:
            (j, y), (i, x) = held
            try:
                a, b = amount(x, i, j), amount(y, i, j)
                one, two = A.num(1), A.num(2)
                c12, c11, c22 = A.sym("c12"), A.sym("c11"), A.sym("c22")
                slope = A.add(A.sub(A.mul(a, c11), A.mul(A.sub(one, a), c22)), A.mul(A.sub(one, A.mul(two, a)), c12))
                box = {"c11": (1, 1), "c22": (3, 3), "c12": (-1, -1)}
                total, least = A.equal(A.add(a, b), one, [box]), A.equal(slope, A.num(0), [box])
            except (A.Unsupported, KeyError):
                rep.undecided("rule", f"{c.name}.pair", e.loc)
                continue
            rep.check(total, "rule", f"{c.name}.pair-sum", e.loc, "the weights of a pair do not sum to one")
            rep.check(least, "rule", f"{c.name}.pair", e.loc, "a pair is not weighted to the least variance")


def amount(t, i, j):
    """A weight as a formula in the variances and the covariance of two assets."""
    if is_const(t) and isinstance(cval(t), int | float):
        return A.num(cval(t))
    if t.op == "bin" and t.args[0] in "+-*/":
        return {"+": A.add, "-": A.sub, "*": A.mul, "/": A.div}[t.args[0]](amount(t.args[1], i, j), amount(t.args[2], i, j))
    if t.op == "neg":
        return A.sub(A.num(0), amount(t.args[0], i, j))
    if t.op == "sub" and called(t.args[0]) == "cov" and t.args[1].op == "tuple":
        names = tuple(sorted("1" if x is i else "2" if x is j else "?" for x in t.args[1].args))
        return A.sym({("1", "1"): "c11", ("2", "2"): "c22", ("1", "2"): "c12"}[names])
    if t.op == "sub" and t.args[0].op == "upd":
        for w in walk(t.args[0]):
            if w.op == "upd" and w.args[1] is t.args[1]:
                return amount(w.args[2], i, j)
    raise A.Unsupported("weight")


def sign_of_k(t):
    return -1 if t.op == "neg" or t.op == "un" and t.args[0] in ("-", "USub") else 1


def non_dominated(rep, c, f, ev, me, conds, tree):
    s = member(rep, c, f, tree, True, "the assets of the best portfolios are dropped")
    if s is None:
        return
    sorts = {x for x in walk(s) if called(x) == "non_denominated_sort"}
    for x in sorts:
        kw = dict(x.args[2])
        first = kw.get("first_front_only", x.args[1][0] if x.args[1] else None)
        if first is None or is_const(first):
            rep.check(
                first is not None and cval(first) is False,
                "rule",
                f"{c.name}.fronts",
                x.loc or f.loc,
                "only the first front is ever computed",
            )
        elif first.op == "cmp" and first.args[0] in ("is", "is not") and option(first.args[1], me, "min_n_assets"):
            rep.check(
                first.args[0] == "is",
                "rule",
                f"{c.name}.fronts",
                x.loc or f.loc,
                "only the first front is computed when more may be needed",
            )
    for x in {
        y for y in walk(s) if y.op == "cmp" and y.args[0] in FLIP and any(option(z, me, "min_n_assets") for z in y.args[1:])
    }:
        o, a, b = x.args
        if option(a, me, "min_n_assets"):
            o, a, b = FLIP[o], b, a
        if called(a) == "len" and any(y.op in ("prev", "loop") for y in walk(a)):
            # the collection stops growing when the condition holds
            ends = stops(s, x)
            ok = None if ends is None else o == (">=" if ends else "<")
            rep.check(ok, "rule", f"{c.name}.enough", x.loc or f.loc, "collecting does not stop when enough assets are selected")
        elif is_option(b, me, "min_n_assets") and a.op == "prev" and is_const(a.args[2]):
            rep.bad(
                "rule", f"{c.name}.enough", x.loc or f.loc, "the number of fronts is compared with the number of assets asked for"
            )
    for e in ev.effects:
        if e.kind != "mutcall" or e.data[1] not in ("update", "add", "extend", "append"):
            continue
        for x in walk(e.data[2][0]):
            if x.op == "sub" and x.args[0].op in ("loop", "new") and any(called(y) == "non_denominated_sort" for y in walk(s)):
                holds = any(y.op == "mut" and y.args[1] == "append" for y in walk(x.args[0]))
                if holds and x.args[1].op != "slice":
                    rep.check(
                        any(called(y) == "non_denominated_sort" for y in walk(x.args[1])),
                        "rule",
                        f"{c.name}.best",
                        e.loc,
                        "assets are taken from portfolios that are not those of the front",
                    )
    for e in ev.effects:
        if e.kind == "mutcall" and e.data[1] == "append":
            for g, pol in e.guard:
                if isinstance(g, T) and g.op == "cmp" and g.args[0] in FLIP and option(g, me, "threshold"):
                    o, a, b = g.args
                    if option(a, me, "threshold"):
                        o, a, b = FLIP[o], b, a
                    if not measured(a, ("corrcoef", "corr")):
                        if measured(a, ("cov",)) and not any(y.op == "bin" for y in walk(a)):
                            rep.bad("rule", f"{c.name}.pairs", e.loc, "a covariance is compared with a limit for the correlation")
                        continue
                    o = o if pol else NOT[o]
                    rep.check(o in ("<", "<="), "rule", f"{c.name}.pairs", e.loc, "pairs with a high correlation are added")


def stops(t, cond):
    """Whether the loop leaves its collection as it is when the condition holds."""
    for x in walk(t):
        if x.op == "phi" and any(y is cond for y in walk(x.args[0])):
            pos = positive(x.args[0], cond)
            if pos is None:
                return None
            still = [y.op == "prev" for y in x.args[1:]]
            if still[0] == still[1]:
                return None
            return still[0] == pos
    return None


def positive(c, atom):
    if c is atom:
        return True
    if c.op == "not":
        r = positive(c.args[0], atom)
        return None if r is None else not r
    if c.op in ("and", "or"):
        for x in c.args:
            r = positive(x, atom)
            if r is not None:
                return r
    return None


def correlated(rep, c, f, ev, me, conds, tree):
    s = member(rep, c, f, tree, False, "only the removed assets are kept")
    if s is None:
        return
    adds = [
        e
        for e in ev.effects
        if e.kind == "mutcall"
        and e.data[1] in ("add", "append")
        and any(e.data[2][0] is y or same_set(e.data[0], s) for y in walk(s))
    ]
    for e in adds:
        x = e.data[2][0]
        unseen = [
            g.args[1]
            for g, pol in e.guard
            if isinstance(g, T) and g.op == "cmp" and g.args[0] in ("in", "not in") and (g.args[0] == "in") != pol
        ]
        # other questions about the removed assets
        asked = any(g.op == "call" and any(same_set(y, s) or y is e.data[0] for y in walk(g)) for g, pol in e.guard if isinstance(g, T))
        rep.check(
            len(set(unseen)) >= 2 or (None if asked else False),
            "rule",
            f"{c.name}.both-left",
            e.loc,
            "an asset is removed for its correlation with one that was removed already",
        )
        for g, pol in e.guard:
            if not (isinstance(g, T) and g.op == "cmp" and g.args[0] in FLIP):
                continue
            o, a, b = g.args
            if not (a.op == "sub" and b.op == "sub" and a.args[0] is b.args[0]):
                continue
            o = o if pol else NOT[o]
            worse = a if o in (">", ">=") else b
            if x not in (a.args[1], b.args[1]):
                continue
            rep.check(
                worse.args[1] is x,
                "favoured",
                f"{c.name}.mean",
                e.loc,
                "of a correlated pair the asset that is less correlated with the others is removed",
            )
    for x in {
        y for y in walk(s) if y.op == "cmp" and y.args[0] in FLIP and any(is_option(z, me, "threshold") for z in y.args[1:])
    }:
        o, a, b = x.args
        if is_option(a, me, "threshold"):
            o = FLIP[o]
        rep.check(o in (">", ">="), "favoured", f"{c.name}.threshold", x.loc or f.loc, "assets are removed for a low correlation")
    for x in {y for y in walk(s) if called(y) == "argsort" and y.args[1]}:
        down = y_negative(x.args[1][0])
        back = any(
            z.op == "sub"
            and z.args[0] is x
            and z.args[1].op == "slice"
            and is_const(z.args[1].args[2])
            and cval(z.args[1].args[2]) == -1
            for z in walk(s)
        )
        rep.check(
            down != back,
            "rule",
            f"{c.name}.order",
            x.loc or f.loc,
            "pairs are not taken from the highest correlation to the lowest",
        )
    for x in {y for y in walk(s) if y.op == "phi" and option(y.args[0], me, "absolute")}:
        pos = sign(x.args[0], me, "absolute")
        yes, no = (x.args[1], x.args[2]) if pos else (x.args[2], x.args[1])
        if pos is not None and called(yes) != called(no):
            rep.check(
                called(yes) in ("abs", "absolute"),
                "rule",
                f"{c.name}.absolute",
                f.loc,
                "`absolute` does not take the absolute value",
            )


def y_negative(t):
    return t.op == "neg" or t.op == "un" and t.args[0] in ("-", "USub")


def same_set(a, s):
    return any(x.op == "loop" and a.op == "prev" and x.args[0] == a.args[0] and x.args[1] == a.args[1] for x in walk(s))


RULES = {
    "DropZeroVariance": zero_variance,
    "SelectComplete": complete,
    "SelectNonExpiring": expiring,
    "SelectKExtremes": extremes,
    "SelectNonDominated": non_dominated,
    "DropCorrelated": correlated,
}
