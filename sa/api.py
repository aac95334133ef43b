"""The public interface: what a user of the library can call."""

from __future__ import annotations

from .index import AnalysisBroken


def exported(P):
    """Qualified names that packages export (``__all__`` of their __init__)."""
    import ast

    out = {}
    for m in P.modules.values():
        if not m.rel.endswith("__init__.py"):
            continue
        node = m.globals.get("__all__")
        if node is None or not isinstance(node, (ast.List, ast.Tuple)):
            continue
        for e in node.elts:
            if isinstance(e, ast.Constant):
                q = m.lookup(e.value)
                if q is not None:
                    out[P.canonical(q)] = e.value
    return out


def utilities(P):
    """Functions that the utility modules list as theirs."""
    import ast

    out = []
    for m in P.modules.values():
        node = m.globals.get("__all__")
        if ".utils." in m.name and isinstance(node, (ast.List, ast.Tuple)):
            names = [e.value for e in node.elts if isinstance(e, ast.Constant)]
            out += [P.funcs[f"{m.name}.{n}"] for n in names if f"{m.name}.{n}" in P.funcs]
    return out


def functions(P):
    fs = [P.funcs[q] for q in sorted(exported(P)) if q in P.funcs]
    if len(fs) < 20:
        raise AnalysisBroken(f"only {len(fs)} public functions found")
    return fs


def classes(P, abstract=False):
    cs = [
        P.classes[q]
        for q in sorted(exported(P))
        if q in P.classes and not P.classes[q].is_enum()
        and (abstract or not P.classes[q].is_abstract())
    ]  # fmt: skip
    if len(cs) < 50:
        raise AnalysisBroken(f"only {len(cs)} public classes found")
    return cs


def methods(cls):
    """Public methods and properties a user can call on an instance."""
    for n in sorted({n for k in cls.repo_mro() for n in k.methods}):
        f = cls.find_method(n)
        if f is None or f.is_abstract or (n.startswith("_") and not n.startswith("__")):
            continue
        yield n, f


def entries(P):
    """(class or None, function) for everything a user can call."""
    for f in functions(P):
        yield None, f
    for c in classes(P):
        for n, f in methods(c):
            yield c, f
        for k in c.repo_mro():
            for n, f in k.setters.items():
                if k.find_setter(n) is f:
                    yield c, f
