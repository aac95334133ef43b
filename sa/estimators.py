"""Which classes of the repository are estimators, splitters, and so on."""

from __future__ import annotations

import ast

from .index import AnalysisBroken
from .vg import mk

ESTIMATOR = ("sklearn.base.BaseEstimator",)
SPLITTER = ("sklearn.model_selection.BaseCrossValidator",)


def derives(cls, *quals):
    return any(
        (c if isinstance(c, str) else c.qual) in quals for c in cls.mro()
    )


def is_estimator(cls):
    return any(isinstance(c, str) and c.rsplit(".", 1)[-1] == "BaseEstimator" for c in cls.mro())


def is_splitter(cls):
    ext = any(isinstance(c, str) and c.rsplit(".", 1)[-1] == "BaseCrossValidator" for c in cls.mro())
    own = any(not isinstance(c, str) and c.name == "BaseCombinatorialCV" for c in cls.mro())
    return ext or own


def estimators(P, abstract=False):
    out = [c for c in P.classes.values() if is_estimator(c) and (abstract or not c.is_abstract())]
    if len(out) < 30:
        raise AnalysisBroken(f"only {len(out)} estimator classes found")
    return sorted(out, key=lambda c: c.qual)


def splitters(P):
    return sorted(
        (c for c in P.classes.values() if is_splitter(c) and not c.is_abstract()),
        key=lambda c: c.qual,
    )


def ctor_params(cls):
    f = cls.init()
    return [] if f is None else f.params()


def selfterm(cls):
    return mk("self", cls.qual)


def inliner(cls):
    """Inline free functions and the methods of the class itself."""
    mro = {k.qual for k in cls.repo_mro()}
    return lambda f: f.cls is None or f.cls.qual in mro or f.cls.is_enum()


def constructing(P, cls):
    """Names of the private methods of a class only its construction uses."""
    names = {n for k in cls.repo_mro() for n in k.methods if n.startswith("_") and not n.startswith("__")}
    out = set(names)
    users = P.__dict__.setdefault("_attribute_users", None)
    if users is None:
        users = {}
        for f in [*P.funcs.values(), *(m for c in P.classes.values() for m in c.methods.values())]:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute):
                    users.setdefault(x.attr, set()).add(f.name)
        P._attribute_users = users
    changed = True
    while changed:
        changed = False
        for n in sorted(out):
            who = users.get(n, set()) - {n}
            if not who or not who <= out | {"__init__", "__setstate__"}:
                out.discard(n)
                changed = True
    return out
