"""C24: per-asset inputs line up with the right assets."""

import ast
import re

from sa.estimators import is_estimator, selfterm
from sa.index import AnalysisBroken
from sa.vg import NONE, Budget, Evaluator, T, const, cval, is_const, show, walk

CONVERT = "input_to_array"
SCALAR = {"numpy.isscalar", "isinstance", "numpy.ndim"}
#: uses that do not depend on which asset a value belongs to
HARMLESS = {
    "isinstance",
    "numpy.isscalar",
    "hasattr",
    "numpy.ndim",
    "type",
    "callable",
    "numpy.shape",
    "len",
    "float",
    "bool",
    "str",
    "repr",
    "getattr",
    "id",
}


def check(P, rep):
    rep.rule("converted", "per-asset options are used only after conversion by asset name", need=20)
    rep.rule("names", "names are those of the data of the call", need=20)
    rep.rule("scalar", "a single number documented as valid for all assets is accepted", need=15)
    rep.rule("default", "assets that are not named get the documented neutral value", need=15)
    rep.rule("agree", "optimisers and portfolios read the same option the same way", need=4)
    rep.rule("converter", "the conversion looks every asset of the data up by its own name", need=1)
    rep.rule("size", "inputs of the wrong size are rejected", need=1)
    rep.rule("fitted-assets", "weights are applied only to the assets they were fitted on", need=8)
    rep.rule("targets", "positions of assets never select columns of other data", need=1)
    rep.rule("reordered", "row-aligned tables are matched to the assets by name", need=1)
    conv = next((f for f in P.funcs.values() if f.cls is None and f.name == CONVERT), None)
    if conv is None:
        raise AnalysisBroken(f"{CONVERT} not found")
    fills = {}
    n = 0
    for c, entry, options in holders(P):
        n += len(options)
        holder(P, rep, c, entry, options, conv, fills)
    if n < 20:
        raise AnalysisBroken(f"only {n} per-asset options found")
    agree(rep, fills)
    converter(P, rep, conv)
    fitted(P, rep)
    targets(P, rep)
    reordered(P, rep)


# -- options ----------------------------------------------------------------------


def expand(P, module, node, depth=0):
    """Annotation text with the aliases of the repository written out."""
    text = ast.unparse(node)
    if depth > 2:
        return text
    for x in ast.walk(node):
        if isinstance(x, (ast.Attribute, ast.Name)):
            q = module.dotted(x)
            mod, _, name = (q or "").rpartition(".")
            m = P.modules.get(mod)
            v = m.assigns.get(name) if m is not None and hasattr(m, "assigns") else None
            if v is None and m is not None:
                for s in m.tree.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                        v = s.value
            if v is not None:
                text += " | " + expand(P, m, v, depth + 1)
    return text


def per_asset(P, c, f):
    out = []
    a = f.node.args
    for p in [*a.posonlyargs, *a.args, *a.kwonlyargs]:
        if p.annotation is None:
            continue
        t = expand(P, f.module, p.annotation) + " | " + doc(c, p.arg)[0].replace("array-like", "ArrayLike")
        if re.search(r"dict\[str,\s*(float|bool|int|list)", t) and re.search(r"ArrayLike|ndarray", t):
            out.append(p.arg)
    return out


def holders(P):
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if c.is_abstract():
            continue
        init = c.init()
        if init is None:
            continue
        options = per_asset(P, c, init)
        if not options:
            continue
        if is_estimator(c):
            f = c.find_method("fit")
            if f is not None:
                yield c, f, options
        else:
            yield c, init, options


def doc(c, p):
    """(type line, text) of a parameter in the class docstring."""
    for k in c.repo_mro():
        d = ast.get_docstring(k.node) or ""
        m = re.search(rf"^{p} : (.*)\n((?:[ \t]+.*\n|\s*\n)*)", d, re.M)
        if m:
            return m.group(1), re.sub(r"\s+", " ", m.group(2))
    return "", ""


# -- conversion -------------------------------------------------------------------


def is_option(t, me, p, entry_is_init):
    if entry_is_init:
        return t.op == "in" and t.args[-1] == p
    return t.op == "attr" and t.args[0] is me and t.args[1] == p


def conversion(t, conv):
    if t.op == "call" and t.args[0].op in ("fn", "ext") and t.args[0].args[0] == conv.qual:
        kw = dict(zip(conv.params(), t.args[1]))
        kw.update(dict(t.args[2]))
        return kw
    return None


def origin(t):
    """Values a term may take, through copies and choices."""
    if t.op == "phi":
        return [y for x in t.args[1:] for y in origin(x)]
    return [t]


def scalar_test(c, is_p):
    """True / False: the option is one number or absent when the condition is true / false."""
    if c.op == "cmp" and c.args[0] in ("is", "is not") and is_p(c.args[1]) and c.args[2] is NONE:
        return c.args[0] == "is"
    if c.op == "not":
        r = scalar_test(c.args[0], is_p)
        return None if r is None else not r
    if c.op == "call" and c.args[0].op == "ext" and c.args[1] and is_p(c.args[1][0]):
        if c.args[0].args[0] == "numpy.isscalar":
            return True
        if c.args[0].args[0] == "isinstance" and len(c.args[1]) > 1:
            names = show(c.args[1][1], 4)
            if re.search(r"float|int|bool|Number|Real", names) and not re.search(r"dict|ndarray|list", names):
                return True
    if c.op == "or" and all(scalar_test(x, is_p) is True for x in c.args):
        return True
    if c.op == "and":
        if any(scalar_test(x, is_p) is True for x in c.args):
            return True
    return None


def holder(P, rep, c, entry, options, conv, fills):
    me = selfterm(c)
    is_init = entry.name == "__init__"
    ev = Evaluator(P, budget=400000, inline=lambda g, *a: g.qual != conv.qual)
    try:
        ev.run(entry, cls=c)
    except (Budget, RecursionError):
        rep.undecided("converted", c.name, entry.loc, "too large to follow")
        return
    rep.saw(ev)
    calls = [
        (e, kw)
        for e in ev.effects
        if e.kind == "call" and (kw := conversion(e.data[3], conv) if len(e.data) > 3 and isinstance(e.data[3], T) else None)
    ]
    for p in options:

        def is_p(t, p=p):
            return is_option(t, me, p, is_init)

        mine = [(e, kw) for e, kw in calls if "items" in kw and any(is_p(x) for x in origin(kw["items"]))]
        raw = raws(ev, is_p, conv)
        key = f"{c.name}.{p}"
        if raw:
            loc, what = raw
            rep.bad("converted", key, loc or entry.loc, f"`{p}` reaches {what} without having been matched to the assets")
        elif mine or not any(is_p(t) for e in ev.effects for d in terms(e.data) for t in walk(d)):
            rep.ok("converted", key)
        typeline, text = doc(c, p)
        for e, kw in mine:
            names(rep, key, e, kw, me, is_init)
            if re.match(r"(float|int|bool)\b", typeline):
                scalar(rep, key, e, kw, is_p, p)
            fill = kw.get("fill_value")
            if fill is not None and is_const(fill):
                v = cval(fill)
                fills.setdefault(p, {}).setdefault(canon(v), []).append((key, e.loc))
                m = re.search(r"not provided are assigned an? .*?`([^`]+)`", text)
                if m:
                    try:
                        want = ast.literal_eval(m.group(1))
                    except (ValueError, SyntaxError):
                        continue
                    rep.check(
                        canon(want) == canon(v),
                        "default",
                        key,
                        e.loc,
                        f"assets missing from `{p}` get {v!r}, documented is {want!r}",
                    )
                else:
                    rep.check(
                        v != v
                        or v in (0, "", False)
                        or p not in ("transaction_costs", "management_fees", "previous_weights", "weights"),
                        "default",
                        key,
                        e.loc,
                        f"assets missing from `{p}` get {v!r}",
                    )


def canon(v):
    return "nan" if isinstance(v, float) and v != v else float(v) if isinstance(v, (int, float)) else v


def terms(d):
    if isinstance(d, T):
        return [d]
    if isinstance(d, (tuple, list)):
        return [y for x in d for y in terms(x)]
    return []


def raws(ev, is_p, conv):
    """The first place an unconverted option is computed with, or None."""
    memo = {}

    def visit(t, scalar):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                for x in t:
                    r = visit(x, scalar)
                    if r:
                        return r
            return None
        k = (id(t), scalar)
        if k in memo:
            return memo[k]
        memo[k] = None
        memo[k] = r = look(t, scalar)
        return r

    def bad_operand(x, scalar):
        if scalar:
            return False
        if x.op == "phi":
            s = scalar_test(x.args[0], is_p)
            return (s is not True and bad_operand(x.args[1], False)) or (s is not False and bad_operand(x.args[2], False))
        return is_p(x)

    def look(t, scalar):
        if conversion(t, conv) is not None:
            return None
        if t.op == "phi":
            s = scalar_test(t.args[0], is_p)
            return visit(t.args[0], scalar) or visit(t.args[1], scalar or s is True) or visit(t.args[2], scalar or s is False)
        if t.op == "bin" or (t.op == "cmp" and t.args[0] in ("<", "<=", ">", ">=")):
            if any(bad_operand(x, scalar) for x in t.args[1:]):
                return t.loc, show(t, 2)[:80]
        if t.op == "call":
            q = t.args[0].args[0] if t.args[0].op == "ext" else None
            if q is not None and q not in HARMLESS and any(bad_operand(x, scalar) for x in t.args[1] if isinstance(x, T)):
                return t.loc, show(t, 2)[:80]
        if t.op == "and":
            known = scalar
            for x in t.args:
                r = visit(x, known)
                if r:
                    return r
                known = known or scalar_test(x, is_p) is True
            return None
        for x in t.args:
            r = visit(x, scalar)
            if r:
                return r
        return None

    for e in ev.effects:
        if e.kind in ("read", "store", "enter", "applied", "return"):
            continue
        s = any(scalar_test(g, is_p) is pos for g, pos in e.guard if isinstance(g, T))
        for d in terms(e.data):
            r = visit(d, s)
            if r:
                return r[0] or e.loc, r[1]
    return None


def names(rep, key, e, kw, me, is_init):
    v = kw.get("assets_names")
    if v is None or v is NONE:
        rep.bad("names", key, e.loc, "assets given by name cannot be looked up: no names are passed")
        return
    ok = None
    for x in origin(v):
        if x is NONE:
            continue
        mine = any(
            t.op == "attr"
            and t.args[1] == "feature_names_in_"
            and t.args[0] is me
            or t.op == "call"
            and t.args[0].op == "ext"
            and t.args[0].args[0] == "getattr"
            and len(t.args[1]) > 1
            and is_const(t.args[1][1])
            and cval(t.args[1][1]) == "feature_names_in_"
            or t.op == "attr"
            and t.args[1] == "columns"
            and data(t.args[0])
            for t in walk(x)
        )
        ok = mine if ok is None else ok and mine
    rep.check(
        bool(ok),
        "names",
        key,
        e.loc,
        f"values are matched to the names of {show(v, 4)[:80]}, not to those of the data of the call",
    )


def data(t):
    """The table of returns given to the call itself."""
    if t.op == "phi":
        return all(data(x) for x in t.args[1:])
    return t.op == "in" and t.args[-1] in ("X", "returns")


def scalar(rep, key, e, kw, is_p, p):
    def reaches(t):
        if t.op == "phi":
            s = scalar_test(t.args[0], is_p)
            return (
                (s is not True and reaches(t.args[1])) or (s is not False and reaches(t.args[2]))
                if s is not None
                else any(map(reaches, t.args[1:]))
            )
        return is_p(t)

    excluded = any(scalar_test(g, is_p) is (not pos) for g, pos in e.guard if isinstance(g, T))
    rep.check(
        excluded or not reaches(kw["items"]), "scalar", key, e.loc, f"a single number for `{p}`, documented as valid, is rejected"
    )


def agree(rep, fills):
    for p, by in sorted(fills.items()):
        if sum(map(len, by.values())) < 2:
            continue
        if len(by) == 1:
            rep.ok("agree", p)
            continue
        common = max(by.values(), key=len)
        for v, ks in by.items():
            if ks is not common:
                for k, loc in ks:
                    rep.bad("agree", k, loc, f"assets missing from `{p}` get {v!r} here and another value elsewhere")


# -- the converter ------------------------------------------------------------------


REORDER = {"sorted", "set", "reversed", "frozenset", "unique", "sort", "argsort", "sort_index", "sort_values", "flip", "roll"}


def called(t):
    """Last name of the function or method a term calls."""
    if t.op != "call":
        return None
    f = t.args[0]
    return f.args[1] if f.op == "meth" else f.args[0].rpartition(".")[2] if f.op == "ext" else None


def converter(P, rep, conv):
    def named(t, n):
        return t.op == "in" and t.args[-1] == n

    for dim in (1, 2):
        key = f"{CONVERT}.{dim}d"
        ev = Evaluator(P)
        r = ev.run(conv, args={"dim": const(dim)})
        rep.saw(ev)
        everything = {t for d in [r, *(x for e in ev.effects for x in terms(e.data))] for t in walk(d)}
        found = False
        for x in sorted(everything, key=lambda t: str(t.loc)):
            if called(x) == "get" and named(x.args[0].args[0], "items"):
                k = x.args[1][0]
                d = x.args[1][1] if len(x.args[1]) > 1 else NONE
            elif x.op == "sub" and named(x.args[0], "items"):
                k, d = x.args[1], None
            else:
                continue
            found = True
            rep.check(
                k.op == "elem"
                and any(named(y, "assets_names") for y in walk(k.args[0]))
                and not any(called(y) in REORDER for y in walk(k.args[0])),
                "converter",
                key,
                x.loc or conv.loc,
                f"the value of an asset is looked up with {show(k, 3)[:60]}",
            )
            if dim == 1 and d is not None:
                rep.check(
                    named(d, "fill_value"),
                    "converter",
                    key + ".default",
                    x.loc or conv.loc,
                    "a missing asset does not get the fill value",
                )
        if not found:
            rep.undecided("converter", key, conv.loc, "the look-up by name was not found")
        bad = next((t for t in walk(r) if called(t) in REORDER), None)
        rep.check(
            bad is None,
            "converter",
            key + ".order",
            (bad.loc if bad else None) or conv.loc,
            "the values leave the order of the assets",
        )
        sized = [
            t
            for e in ev.effects
            if e.kind == "raise"
            for g, _ in e.guard
            if isinstance(g, T)
            for t in walk(g)
            if t.op == "cmp" and any(named(y, "n_assets") for y in walk(t))
        ]
        wrong = [
            t
            for t in sized
            if any(
                y.op == "sub" and y.args[0].op == "attr" and y.args[0].args[1] == "shape" and y.args[1] == const(0)
                for y in walk(t)
            )
        ]
        rep.check(
            bool(sized) and not (wrong and dim == 2),
            "size",
            key,
            conv.loc,
            "an input with another number of assets is not rejected",
        )


# -- predictions, targets, extra tables -----------------------------------------------


NAMES_KEPT = ("validate_data", "_check_feature_names")


def fitted(P, rep):
    base = P.cls("BaseOptimization")
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if base not in c.repo_mro() or c.is_abstract():
            continue
        f = c.find_method("predict")
        if f is None:
            continue
        ev = Evaluator(P)
        ev.run(f, cls=c)
        rep.saw(ev)
        me = selfterm(c)

        def tells(t):
            return any(
                x.op == "attr" and x.args[0] is me and x.args[1] in ("feature_names_in_", "n_features_in_") for x in walk(t)
            )

        tests = [g for e in ev.effects if e.kind == "raise" for g, _ in e.guard if isinstance(g, T) and tells(g)]
        loose = [
            x
            for g in tests
            for x in walk(g)
            if called(x) in UNORDERED and tells(x) and any(y.op == "in" and y.args[-1] == "X" for y in walk(g))
        ]
        exact = any(called(x) in ORDERED and tells(x) for g in tests for x in walk(g))
        rep.check(
            exact or not loose,
            "fitted-assets",
            f"{c.name}.predict:order",
            f.loc,
            "assets are compared with the fitted ones without regard to their names and order",
        )
        checked = bool(tests) or any(
            e.kind == "call"
            and e.data[0].op == "ext"
            and e.data[0].args[0].rpartition(".")[2] in NAMES_KEPT
            and is_false(dict(e.data[2]).get("reset"))
            for e in ev.effects
        )
        fit = Evaluator(P, budget=200000)
        fit.run(c.find_method("fit"), cls=c)
        recorded = any(
            e.kind == "call"
            and e.data[0].op == "ext"
            and e.data[0].args[0].rpartition(".")[2] in NAMES_KEPT
            and e.data[1]
            and e.data[1][0] is me
            for e in fit.effects
        )
        rep.check(
            recorded,
            "fitted-assets",
            f"{c.name}.fit",
            c.find_method("fit").loc,
            "the names of the fitted assets are not recorded",
        )
        rep.check(
            checked,
            "fitted-assets",
            f"{c.name}.predict",
            f.loc,
            "weights are applied by position to data whose assets are not compared with the fitted ones",
        )


UNORDERED = {"set", "frozenset", "len", "sorted", "isin", "in1d", "issubset", "issuperset", "difference", "symmetric_difference"}
ORDERED = {"array_equal", "equals", "all", "any", "array_equiv"}


def is_false(t):
    return t is not None and is_const(t) and cval(t) is False


def columns(t):
    """(table, positions) when the term selects columns by position."""
    if t.op == "call" and t.args[0].op == "meth" and t.args[0].args[1] == "take" and t.args[1]:
        a = dict(t.args[2]).get("axis", t.args[1][1] if len(t.args[1]) > 1 else None)
        if a is not None and is_const(a) and cval(a) == 1:
            return t.args[0].args[0], t.args[1][0]
    if t.op == "sub" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and t.args[1].args[0].op == "slice":
        return t.args[0], t.args[1].args[1]
    return None


def targets(P, rep):
    todo = [
        (None, f, "column_indices")
        for f in P.funcs.values()
        if f.cls is None and "column_indices" in f.params() and "y" in f.params()
    ]
    c = P.cls("NestedClustersOptimization")
    todo.append((c, c.find_method("fit"), None))
    for cls, f, _ in todo:
        key = f"{cls.name}.{f.name}" if cls else f.name
        ev = Evaluator(P, budget=200000)
        ev.run(f, cls=cls)
        rep.saw(ev)
        bad = None
        for e in ev.effects:
            for d in terms(e.data):
                for t in walk(d):
                    s = columns(t)
                    if s and any(target(x) for x in origin(s[0])):
                        bad = bad or (t.loc or e.loc, t)
        rep.check(
            bad is None,
            "targets",
            key,
            bad[0] if bad else f.loc,
            f"positions of assets select columns of the target data: {show(bad[1], 4)[:90]}" if bad else "",
        )


def target(t):
    """The data given as y, as it is or indexed by rows."""
    if t.op == "in":
        return t.args[-1] == "y"
    if t.op == "sub" and is_const(t.args[1]) and t.args[0].op == "call" and t.args[0].args[0].op == "ext":
        a = t.args[0].args[1]
        i = cval(t.args[1])
        name = t.args[0].args[0].args[0].rpartition(".")[2]
        return name in ("indexable", "validate_data", "check_X_y") and isinstance(i, int) and i == 1 and len(a) > 1
    return False


def reordered(P, rep):
    """Tables passed beside X with named columns follow the order of X's names."""
    c = P.classes.get(next((q for q in P.classes if q.endswith(".ImpliedCovariance")), ""))
    if c is None:
        return
    f = c.find_method("fit")
    ev = Evaluator(P)
    ev.run(f, cls=c)
    rep.saw(ev)
    key = "ImpliedCovariance.implied_vol"

    def given(t, name):
        return any(x.op == "in" and x.args[-1] == name for x in walk(t))

    matched = False
    for e in ev.effects:
        for d in terms(e.data):
            for t in walk(d):
                s = columns(t)
                if s and any(x.op == "in" and x.args[-1] == "implied_vol" for x in origin(s[0])):
                    matched = True
                    at = s[1]
                    while called(at) in ("list", "array", "asarray", "tuple") and at.args[1]:
                        at = at.args[1][0]
                    if called(at) in REORDER:
                        rep.bad("reordered", key, t.loc or e.loc, "columns are not put in the order of the assets of the returns")
                        return
                    if s[1].op != "comp":
                        continue
                    over = s[1].args[2]
                    it = over[0] if isinstance(over, tuple) else over
                    if given(it, "implied_vol") and not given(it, "X"):
                        rep.bad("reordered", key, t.loc or e.loc, "columns are not put in the order of the assets of the returns")
                        return
                elif t.op in ("sub", "call") and t.args[0] is not None and len(t.args) > 1:
                    base = t.args[0].args[0] if t.op == "call" and t.args[0].op == "meth" else t.args[0]
                    rest = [x for y in t.args[1:3] for x in terms(y)]
                    if (
                        isinstance(base, T)
                        and given(base, "implied_vol")
                        and any(x.op == "attr" and x.args[1] == "columns" and given(x, "X") for y in rest for x in walk(y))
                    ):
                        matched = True
    rep.check(matched, "reordered", key, f.loc, "columns are never matched with the assets of the returns")
