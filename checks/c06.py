"""C06: a fit that returns is complete, and nothing works before it."""

import ast
import re

from sa.estimators import ctor_params, estimators, inliner, selfterm
from sa.vg import UNSET, Evaluator, T, const, walk

VALIDATED = {"n_features_in_", "feature_names_in_"}
NOT_A_QUERY = {
    "get_params", "set_params", "get_metadata_routing", "set_output", "fit", "partial_fit",
    "fit_predict", "fit_transform",
}  # fmt: skip
CONDITIONAL = re.compile(r"\b(if|only when|only if|when|optional|defined only|stored only)\b", re.I)
#: attributes that exist exactly when the named option makes them; read from the docs


def check(P, rep):
    rep.rule("returns-self", "fit returns the estimator on every path", need=50)
    rep.rule("attribute-set", "documented fitted attributes are assigned on every path", need=80)
    rep.rule("refuses", "querying methods check that the estimator is fitted before anything "
             "fitted is read", need=100)
    rep.rule("prefit", "components given as fitted already are checked to be", need=0)
    rep.rule("writes-in-fit", "queries do not assign documented fitted attributes", need=100)
    seen = set()
    for cls in estimators(P):
        fit(P, rep, cls)
        queries(P, rep, cls, seen)
        prefit(P, rep, cls)


def doc_attributes(cls):
    """{name: description} of the Attributes section of a class docstring."""
    doc = ast.get_docstring(cls.node) or ""
    m = re.search(r"^Attributes\n-+\n(.*?)(?=^\w[\w ]*\n-{3,}|\Z)", doc, re.S | re.M)
    out, cur = {}, None
    if m:
        for line in m.group(1).split("\n"):
            k = re.match(r"^(\w+)\s*:(.*)", line)
            if k:
                cur = k.group(1)
                out[cur] = k.group(2)
            elif cur:
                out[cur] += " " + line.strip()
    return out


def outside_fit(ev, me):
    """Does an outside base class fit this object (and set attributes itself)?"""
    for e in ev.effects:
        if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op in ("ext", "meth", "attr", "super"):
            if str(e.data[0].args[-1]).endswith("fit") and (
                any(a is me for a in e.data[1]) or e.data[0].op == "super"
            ):
                return True
    return False


def fit(P, rep, cls):
    f = cls.find_method("fit")
    if f is None:
        return
    me = selfterm(cls)
    ev = Evaluator(P, budget=3_000_000, inline=inliner(cls))
    ev.run(f, cls=cls)
    rep.saw(ev)
    for e in ev.effects:
        if e.kind == "return":
            rep.check(e.data is me, "returns-self", cls.name, e.loc, "fit does not return the estimator")
    outside = outside_fit(ev, me)
    for a, text in doc_attributes(cls).items():
        if not a.endswith("_") or a in VALIDATED:
            continue
        inst = f"{cls.name}.{a}"
        v = ev.st.heap.get((me, a))
        if v is not None and not any(
            x is UNSET or (x.op == "attr" and x.args[0] is me and x.args[1] == a)
            for x in walk(v, into_cond=False)
        ):
            rep.ok("attribute-set", inst, f.loc)
        elif outside or CONDITIONAL.search(text):
            if v is None and not outside:
                rep.bad("attribute-set", inst, f.loc, f"`{a}` is documented but never assigned by fit")
            else:
                rep.undecided("attribute-set", inst, f.loc, "conditional or set by an outside class")
        else:
            how = "never" if v is None else "not on every path"
            rep.bad("attribute-set", inst, f.loc, f"`{a}` is documented but {how} assigned by fit")


def queries(P, rep, cls, seen):
    me = selfterm(cls)
    documented = set(doc_attributes(cls))
    for n in sorted({n for k in cls.repo_mro() for n in k.methods}):
        f = cls.find_method(n)
        if (n.startswith("_") and n != "_get_support_mask") or f.is_abstract or n in NOT_A_QUERY or f.is_static:
            continue
        ev = Evaluator(P, budget=3_000_000, inline=inliner(cls))
        r = ev.run(f, cls=cls)
        rep.saw(ev)
        inst = f"{cls.name}.{n}"
        fitted = [
            e for e in ev.effects
            if e.kind == "store" and e.data[0] is me and e.data[1] in documented and e.data[1].endswith("_")
        ]  # fmt: skip
        rep.check(not fitted, "writes-in-fit", inst, fitted[0].loc if fitted else f.loc,
                  "a query assigns a fitted attribute")
        rets = [e for e in ev.effects if e.kind == "return"]
        if all(e.data.op == "const" and e.data.args[0].v is None for e in rets):
            continue  # changes the object, returns nothing
        checks = [(i, e) for i, e in enumerate(ev.effects) if is_fitted_check(e, me)]
        reads = [
            (i, e) for i, e in enumerate(ev.effects)
            if e.kind == "read" and e.data[0] is me and e.data[1].endswith("_") and not e.data[1].startswith("_")
        ]  # fmt: skip
        if f.is_property and not reads:
            continue
        if not reads and not f.is_property:
            if n in ctor_params(cls):
                continue
            rep.check(bool(checks), "refuses", inst, f.loc, "returns a value although nothing was fitted")
            continue
        for i, e in reads[:1]:
            ok = any(j < i and set(c.guard) <= set(e.guard) for j, c in checks)
            rep.check(ok, "refuses", inst, e.loc,
                      f"`{e.data[1]}` is read without having checked that the estimator is fitted")


def prefit(P, rep, cls):
    """With cv="prefit" the given components are used as they are, so they have to be fitted."""
    f, doc = cls.find_method("fit"), ast.get_docstring(cls.node) or ""
    if f is None or '"prefit"' not in doc or cls.init() is None or "cv" not in cls.init().params():
        return
    ev = Evaluator(P, budget=2_000_000, self_attrs={"cv": const("prefit")})
    ev.run(f, cls=cls)
    rep.saw(ev)
    me = selfterm(cls)
    ours = cls.init().params()

    def given(t):
        return t is not me and any(x.op == "attr" and x.args[0] is me and x.args[1] in ours for x in walk(t))

    used = [
        (e, x) for e in ev.effects if e.kind == "store" and e.data[0] is me and isinstance(e.data[2], T)
        for x in walk(e.data[2]) if x.op == "attr" and x.args[0] is not me and str(x.args[1]).endswith("_") and given(x.args[0])
    ]  # fmt: skip
    checks = [
        e for e in ev.effects
        if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op == "ext"
        and e.data[0].args[0].endswith("check_is_fitted") and any(given(a) for a in e.data[1])
    ]  # fmt: skip
    if used:
        rep.check(bool(checks), "prefit", cls.name, used[0][0].loc,
                  "components given as fitted are used without a check that they are")


def is_fitted_check(e, me):
    return (
        e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op == "ext"
        and e.data[0].args[0].endswith("check_is_fitted") and any(a is me for a in e.data[1])
    )  # fmt: skip
