"""C21: cross-validated predictions are out of sample."""

from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.vg import NONE, Evaluator, cval, decide, guard_atoms, is_const, mk, show, walk

PREDICT = "skfolio.model_selection._validation.cross_val_predict"


def check(P, rep):
    rep.rule("train-rows", "models are fitted on the training rows of the split", need=2)
    rep.rule("test-rows", "predictions are made for the test rows of the split", need=1)
    rep.rule("metadata-rows", "extra row-aligned inputs are cut to the training rows", need=0)
    rep.rule("same-split", "training and test rows come from one split of one splitter", need=1)
    rep.rule("fresh", "every split fits a model of its own", need=1)
    rep.rule("attribution", "predictions are put back in the order of their rows", need=0)
    rep.rule("paths", "a prediction goes to the path of its own split and test block", need=0)
    rep.rule("final-stage", "the last stage is trained on out-of-sample predictions", need=2)
    rep.rule("final-target", "the targets of the last stage are those of the predicted rows", need=0)
    cv(P, rep)
    stages(P, rep)


# -- rows -----------------------------------------------------------------------


def leaves(t, guard=()):
    """The values a term may take, branches for a missing row index left out."""
    if t.op == "phi":
        c = t.args[0]
        known = decide(c, guard)
        if c.op == "cmp" and c.args[2] is NONE and c.args[0] in ("is", "is not") and split_item(c.args[1]) is not None:
            known = c.args[0] == "is not"
        out = []
        if known is not False:
            out += leaves(t.args[1], (*guard, *guard_atoms(c, True)))
        if known is not True:
            out += leaves(t.args[2], (*guard, *guard_atoms(c, False)))
        return out
    for g, positive in guard:
        if positive and g.op == "cmp" and g.args[0] == "is" and g.args[2] is NONE and settle(g.args[1], guard) is t:
            return [NONE]
    return [t]


def settle(t, guard):
    while t.op == "phi" and (c := decide(t.args[0], guard)) is not None:
        t = t.args[1] if c else t.args[2]
    return t


def split_item(t):
    """(split element, 0 | 1) when the term is one side of a split."""
    while t.op == "elem":
        inner = split_pair(t)
        if inner:
            return None
        t = t.args[0]
    if t.op == "sub" and is_const(t.args[1]) and cval(t.args[1]) in (0, 1) and split_pair(t.args[0]):
        return t.args[0], cval(t.args[1])
    return None


def split_pair(t):
    if t.op == "sub" and t.args[0].op != "elem":
        return splitting(t.args[0])
    return t.op == "elem" and splitting(t.args[0])


def splitting(t):
    while t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("list", "tuple", "iter", "sorted") and t.args[1]:
        t = t.args[1][0]
    return t.op == "call" and t.args[0].op in ("meth", "bound") and t.args[0].args[1] == "split"


def rows(t):
    """The row selections applied to a table, outermost first; None = unknown step."""
    out = []
    while True:
        if t.op == "call" and t.args[0].op == "meth" and t.args[0].args[1] == "take" and t.args[1]:
            axis = dict(t.args[2]).get("axis", t.args[1][1] if len(t.args[1]) > 1 else None)
            if axis is not None and is_const(axis) and cval(axis) == 0:
                out.append(t.args[1][0])
            elif not (axis is not None and is_const(axis) and cval(axis) == 1):
                return out, t
            t = t.args[0].args[0]
            continue
        if t.op == "sub":
            i = t.args[1]
            first = i.args[0] if i.op == "tuple" and i.args else i
            if first.op == "slice":
                t = t.args[0]
                continue
            if is_const(first) or first.op == "elem" and split_item(first) is None and not is_test(first):
                return out, t
            out.append(first)
            t = t.args[0]
            if t.op == "attr" and t.args[1] in ("iloc", "values"):
                t = t.args[0]
            continue
        if t.op == "attr" and t.args[1] in ("iloc", "values"):
            t = t.args[0]
            continue
        return out, t


def is_test(t):
    while t.op == "elem":
        t = t.args[0]
        if split_item(t) is not None:
            return True
    return False


def sides(ts):
    return {s[1] for t in ts if (s := split_item(t)) is not None}


# -- cross_val_predict ------------------------------------------------------------


def cv(P, rep):
    f = P.funcs.get(PREDICT) or next((g for g in P.funcs.values() if g.name == "cross_val_predict" and g.cls is None), None)
    if f is None:
        raise AnalysisBroken("cross_val_predict not found")
    ev = Evaluator(P)
    r = ev.run(f)
    rep.saw(ev)
    fits, preds = [], []
    for e in ev.effects:
        if e.kind != "call":
            continue
        g, args, kw = e.data[0], e.data[1], dict(e.data[2])
        if g.op in ("meth", "bound") and g.args[1] == "fit":
            fits.append((e, g.args[0], args, kw))
        elif g.op == "call" and g.args[0].op == "ext" and g.args[0].args[0] == "getattr" and g.args[1]:
            preds.append((e, g.args[1][0], args, kw))
        elif g.op in ("meth", "bound") and g.args[1] == "predict":
            preds.append((e, g.args[0], args, kw))
    if not fits or not preds:
        raise AnalysisBroken("cross_val_predict fits or predicts nothing that can be followed")
    for e, model, args, kw in fits:
        tables = [(n, v) for n, v in zip(("X", "y"), args)] + [(k, v) for k, v in kw.items() if k in ("X", "y")]
        for name, v in tables:
            for x in leaves(v, e.guard):
                if x is NONE:
                    continue
                sel, base = rows(x)
                got = sides(sel)
                if not got and unknown(sel, base):
                    rep.undecided("train-rows", f"fit.{name}", e.loc, show(x, 5)[:120])
                    continue
                rep.check(
                    got == {0},
                    "train-rows",
                    f"cross_val_predict.fit.{name}",
                    e.loc,
                    f"the model of a split is fitted on {show(x, 6)[:150]}, not on the training rows only",
                )
        for k, v in kw.items():
            if k in ("X", "y"):
                continue
            idx = [s for t in walk(v) if (s := split_item(t)) is not None]
            if v.op == "dict" and not v.args[1:]:
                continue
            rep.check(
                any(i == 0 for _, i in idx) and not used_as_rows(v, 1),
                "metadata-rows",
                f"cross_val_predict.fit.{k}",
                e.loc,
                "extra inputs of a fit are not cut to the training rows",
            )
        rep.check(
            fresh(model),
            "fresh",
            "cross_val_predict.fit",
            e.loc,
            f"every split is fitted on the same model {show(model, 4)[:80]}",
        )
    for e, model, args, kw in preds:
        v = args[0] if args else kw.get("X")
        if v is None:
            continue
        for x in leaves(v, e.guard):
            sel, base = rows(x)
            got = {1 if is_test(t) else None for t in sel} | sides(sel)
            got.discard(None)
            if not got and unknown(sel, base):
                rep.undecided("test-rows", "predict", e.loc, show(x, 5)[:120])
                continue
            rep.check(
                got == {1},
                "test-rows",
                "cross_val_predict.predict",
                e.loc,
                f"predictions of a split are made for {show(x, 6)[:150]}, not for its test rows only",
            )
        rep.check(
            any(model is m for _, m, _, _ in fits),
            "fresh",
            "cross_val_predict.predict",
            e.loc,
            "the predicting model is not the one fitted for the split",
        )
    pairs = {
        id(s[0]): s[0]
        for e, _, args, kw in fits + preds
        for v in [*args, *kw.values()]
        for t in walk(v)
        if (s := split_item(t)) is not None
    }
    rep.check(
        len(pairs) <= 1,
        "same-split",
        "cross_val_predict",
        fits[0][0].loc,
        f"training and test rows come from different splits: {[show(p, 4)[:90] for p in pairs.values()]}",
    )
    attribution(rep, ev, r, f)


def unknown(sel, base):
    """True when a row selection could hide behind something not followed."""
    return any(split_item(t) is None for t in sel) or (
        base.op == "call" and any(split_item(t) is not None for a in base.args[1] for t in walk(a))
    )


def used_as_rows(v, side):
    for t in walk(v):
        sel, _ = rows(t)
        if side in sides(sel):
            return True
    return False


def fresh(t):
    """A clone or a copy made inside the loop over the splits."""
    if t.op == "phi":
        return all(fresh(x) for x in t.args[1:])
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].rsplit(".", 1)[-1] in ("clone", "deepcopy"):
        return True
    return t.op == "new" or (t.op == "elem" and any(fresh(x) for x in walk(t.args[0])))


def attribution(rep, ev, r, f):
    """Non-combinatorial results are sorted by the first row of their test block."""
    for t in walk(r):
        if t.op != "new" or not t.args[0].endswith("MultiPeriodPortfolio"):
            continue
        kw = dict(t.args[2])
        ps = kw.get("portfolios")
        if ps is None:
            continue
        checked = kw.get("check_observations_order")
        if not (checked is not None and is_const(checked) and cval(checked) is False):
            continue
        if any(x.op == "call" and x.args[0].op == "meth" and x.args[0].args[1] == "get_path_ids" for x in walk(ps)):
            continue
        orders = [
            x
            for x in walk(ps)
            if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.argsort", "numpy.lexsort", "sorted")
        ]
        if not orders:
            if any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "sorted" for x in walk(ps)):
                continue
            rep.bad(
                "attribution",
                "cross_val_predict",
                t.loc or f.loc,
                "test blocks are joined in the order of the splitter, unchecked, not in the order of their rows",
            )
            continue
        for o in orders:
            s = {i for x in walk(o) if (q := split_item(x)) is not None for i in (q[1],)}
            desc = any(x.op == "un" and x.args[0] == "-" for a in o.args[1] for x in walk(a))
            size = any(
                x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "len" for a in o.args[1] for x in walk(a)
            )
            rep.check(
                s == {1} and not desc and not size and not reversed_(ps, o),
                "attribution",
                "cross_val_predict",
                o.loc or t.loc or f.loc,
                "test blocks are not joined in the increasing order of their test rows",
            )
            n = [x for x in walk(ps) if x.op == "sub" and x.args[1].op == "elem" and any(y is o for y in walk(x.args[1].args[0]))]
            for x in n:
                rep.check(
                    not any(y is o for y in walk(x.args[0])),
                    "attribution",
                    "cross_val_predict.index",
                    o.loc or f.loc,
                    "the order is not applied to the predictions",
                )
    for e in ev.effects:
        if e.kind != "mutcall" or e.data[1] != "append" or not e.data[2]:
            continue
        recv, p = e.data[0], e.data[2][0]
        if recv.op != "sub":
            continue
        k = recv.args[1]
        if not (
            k.op == "sub"
            and any(x.op == "call" and x.args[0].op == "meth" and x.args[0].args[1] == "get_path_ids" for x in walk(k.args[0]))
        ):
            continue
        if k.args[1].op != "tuple" or len(k.args[1].args) != 2:
            continue
        i, j = k.args[1].args
        if not (i.op == "index" and j.op == "index" and p.op == "elem" and p.args[0].op == "elem"):
            rep.undecided("paths", "cross_val_predict", e.loc)
            continue
        inner, outer = p.args[1], p.args[0].args[1]
        rep.check(
            i.args[0] == outer and j.args[0] == inner,
            "paths",
            "cross_val_predict",
            e.loc,
            "a prediction is given to the path of another split or test block",
        )


def reversed_(ps, o):
    for x in walk(ps):
        if x.op == "sub" and x.args[1].op == "slice" and any(y is o for y in walk(x.args[0])):
            st = x.args[1].args[2] if len(x.args[1].args) > 2 else None
            if st is not None and (st.op == "un" or is_const(st) and isinstance(cval(st), int) and cval(st) < 0):
                return True
        if (
            x.op == "call"
            and x.args[0].op == "ext"
            and x.args[0].args[0] in ("reversed", "numpy.flip")
            and any(y is o for a in x.args[1] for y in walk(a))
        ):
            return True
    return False


# -- stacked and nested optimisers ------------------------------------------------


def stages(P, rep):
    f = P.funcs.get(PREDICT) or next(g for g in P.funcs.values() if g.name == "cross_val_predict" and g.cls is None)
    for name, last in (("StackingOptimization", "final_estimator"), ("NestedClustersOptimization", "outer_estimator")):
        c = P.cls(name)
        fit = c.find_method("fit")
        frozen(P, rep, c, fit, f)
        for splitter, combinatorial, targets in (
            ("WalkForward", False, True),
            ("WalkForward", False, False),
            ("CombinatorialPurgedCV", True, True),
        ):
            s = mk("new", P.cls(splitter).qual, (), (), None)
            ev = Evaluator(P, self_attrs={"cv": s}, inline=lambda g, *a: g.qual != f.qual)
            ev.run(fit, cls=c, args={} if targets else {"y": NONE})
            rep.saw(ev)
            me = selfterm(c)
            n = 0
            for e in ev.effects:
                if e.kind != "call" or e.data[0].op not in ("meth", "bound") or e.data[0].args[1] != "fit":
                    continue
                if not any(t.op == "attr" and t.args[0] is me and t.args[1] == last for t in walk(e.data[0].args[0])):
                    continue
                kw = dict(e.data[2])
                args = list(e.data[1])
                X = args[0] if args else kw.get("X")
                y = args[1] if len(args) > 1 else kw.get("y")
                if X is None:
                    continue
                n += 1
                stage(rep, f, f"{name}.{splitter}", e, X, y if targets else None, combinatorial)
            if not n:
                rep.undecided("final-stage", f"{name}.{splitter}", fit.loc, "the fit of the last stage was not found")


def frozen(P, rep, c, fit, f):
    """A splitter that draws at random splits the same way wherever it is used again."""
    ev = Evaluator(P, inline=lambda g, *a: g.qual != f.qual)
    ev.run(fit, cls=c)
    used = [
        e
        for e in ev.effects
        if e.kind == "call" and (f.name in show(e.data[0], 2) or e.data[0].op in ("meth", "bound") and e.data[0].args[1] == "split")
    ]
    told = any(
        e.kind == "store" and e.data[1] == "random_state" or e.kind == "call" and any(k == "random_state" for k, _ in e.data[2])
        for e in ev.effects
    )
    once = any(e.kind == "call" and e.data[0].op == "ext" and e.data[0].args[0] == "list" for e in used)
    if used:
        rep.check(
            True if told else None if once else False,
            "same-split",
            f"{c.name}:frozen",
            used[0].loc,
            "a splitter without a seed splits differently for each model and for the targets",
        )


def is_data(t):
    """The validated table of returns given by the caller."""
    if t.op == "phi":
        return all(is_data(x) for x in t.args[1:])
    if t.op == "sub" and is_const(t.args[1]):
        t = t.args[0]
    return t.op == "in" or t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith("validate_data")


def stage(rep, f, key, e, X, y, combinatorial):
    calls = [
        t
        for t in walk(X)
        if t.op == "call"
        and t.args[0].op == "fn"
        and t.args[0].args[0] == f.qual
        or t.op == "call"
        and t.args[0].op == "ext"
        and t.args[0].args[0] == f.qual
    ]
    if not calls:
        calls = [t for t in walk(X) if t.op == "call" and "cross_val_predict" in show(t.args[0], 2)]
    inside = {id(x) for c in calls for x in walk(c)}
    direct = [
        t
        for t in walk(X)
        if t.op == "call"
        and t.args[0].op in ("meth", "bound")
        and t.args[0].args[1] in ("predict", "fit_predict", "transform")
        and id(t) not in inside
    ]
    rep.check(
        bool(calls) and not direct,
        "final-stage",
        key,
        e.loc,
        "the last stage is trained on predictions of models fitted on the same rows"
        if direct
        else f"the last stage is trained on {show(X, 5)[:120]}, not on cross-validated predictions",
    )
    for c in calls:
        kw = dict(c.args[2])
        v = kw.get("cv", c.args[1][3] if len(c.args[1]) > 3 else None)
        rep.check(
            v is not None and any(t.op == "new" and t.args[0].endswith(key.split(".")[1]) for t in walk(v)),
            "final-stage",
            key + ".cv",
            e.loc,
            "cross-validated predictions ignore the splitter of the user",
        )
    if not combinatorial:
        for t in walk(X):
            if t.op == "sub" and t.args[1].op == "tuple" and id(t) not in inside and is_data(t.args[0]):
                i = t.args[1].args[0]
                sd = {q[1] for x in walk(i) if (q := split_item(x)) is not None}
                rep.check(
                    sd == {1},
                    "final-stage",
                    key + ".assets",
                    e.loc,
                    f"the last stage mixes predictions with {show(t, 4)[:100]}, other rows than the predicted ones",
                )
                if is_const(t.args[1].args[1]):
                    rep.bad(
                        "final-stage",
                        key + ".columns",
                        e.loc,
                        "whatever the cluster, the last stage is given the returns of the same asset",
                    )
    if y is None or combinatorial:
        return
    for x in leaves(y, e.guard):
        if x is NONE:
            continue
        if x.op == "phi":
            continue
        sel, base = rows(x)
        ok = any(1 in {q[1] for t in walk(s) if (q := split_item(t)) is not None} for s in sel)
        train = any(0 in {q[1] for t in walk(s) if (q := split_item(t)) is not None} for s in sel)
        order = all(
            any(
                t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.sort", "sorted", "numpy.unique")
                for t in walk(s)
            )
            for s in sel
        )
        rep.check(
            ok and not train and order,
            "final-target",
            key,
            e.loc,
            "the targets of the last stage are not the rows that were predicted, in time order",
        )
