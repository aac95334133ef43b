"""C04: configuration round-trips unchanged through clone and get_params."""

import ast

from sa.convex import is_call
from sa.estimators import constructing, ctor_params, estimators, inliner, is_estimator, selfterm, splitters
from sa.vg import Evaluator, T, mk


def check(P, rep):
    rep.rule("stored", "each constructor argument is stored unchanged under its own name", need=280)
    rep.rule("plain-signature", "constructors list their parameters explicitly", need=50)
    rep.rule("not-overwritten", "methods other than the constructor never assign a "
             "hyperparameter", need=200)
    rep.rule("params-kept", "classes do not replace the parameter protocol of the library", need=50)
    rep.rule("nested-keys", "parameters of nested estimators are listed as name__parameter", need=0)
    rep.rule("while-iterating", "setting parameters never removes from the collection being walked", need=0)
    for cls in [*estimators(P), *splitters(P)]:
        one(P, rep, cls)


def one(P, rep, cls):
    init = cls.init()
    if init is None:
        rep.ok("plain-signature", cls.name, cls.loc)
        return
    a = init.node.args
    rep.check(a.vararg is None and a.kwarg is None, "plain-signature", cls.name, init.loc,
              "the constructor takes variable arguments, which clone cannot reproduce")
    ev = Evaluator(P, budget=500_000, inline=inliner(cls))
    ev.run(init, cls=cls)
    rep.saw(ev)
    me = selfterm(cls)
    params = ctor_params(cls)
    external = external_inits(ev)
    for p in params:
        v = ev.st.heap.get((me, p))
        inst = f"{cls.name}.{p}"
        if v is None:
            if any(kw.get(p) is mk("in", p) for kw in external):
                rep.ok("stored", inst, init.loc)
            else:
                rep.bad("stored", inst, init.loc, f"`{p}` is not stored by the constructor")
            continue
        loc = next((e.loc for e in reversed(ev.effects) if e.kind == "store" and e.data[0] is me and e.data[1] == p), init.loc)
        # splitters are never cloned, and convert counts as those of the library they extend do
        if v is mk("in", p) or (not is_estimator(cls) and is_call(v, "int") and v.args[1][0] is mk("in", p)):
            rep.ok("stored", inst, loc)
        else:
            what = "another argument" if v.op == "in" else "a converted value"
            rep.bad("stored", inst + (".swapped" if v.op == "in" else ""), loc, f"`{p}` holds {what} after construction")
    overwritten(P, rep, cls, set(params))
    own = [n for k in cls.repo_mro() for n in ("get_params", "set_params", "__sklearn_clone__") if n in k.methods]
    if not own:
        rep.ok("params-kept", cls.name, cls.loc)
    for k in cls.repo_mro():
        for n in ("get_params", "set_params", "__sklearn_clone__"):
            if n in k.methods:
                delegated(rep, cls, k.methods[n])
                protocol(rep, cls, k.methods[n])


def delegated(rep, cls, f):
    """An override hands over to the composition helper or to the parent."""
    calls = [ast.unparse(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)]
    ok = any(c.endswith((f"_{f.name}", f"super().{f.name}")) for c in calls)
    returns = [n for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
    rep.check(ok and bool(returns), "params-kept", f"{cls.name}.{f.name}", f.loc,
              "the parameter protocol is replaced without using the inherited one")


RESIZE = {"pop", "popitem", "clear", "remove", "discard", "insert", "append", "add"}


def protocol(rep, cls, f, seen=None):
    """The functions of the class that an override of the parameter protocol goes through."""
    seen = set() if seen is None else seen
    if f in seen:
        return
    seen.add(f)
    keys(rep, cls, f)
    resized(rep, cls, f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            g = cls.find_method(n.func.attr)
            if g is not None and ast.unparse(n.func.value) in ("self", "super()"):
                protocol(rep, cls, g, seen)


def keys(rep, cls, f):
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript)):
            continue
        k = n.targets[0].slice
        if isinstance(k, ast.JoinedStr) and sum(isinstance(v, ast.FormattedValue) for v in k.values) == 2:
            between = "".join(v.value for v in k.values if isinstance(v, ast.Constant))
            rep.check(between == "__", "nested-keys", f"{cls.name}.{f.name}", f"{f.module.rel}:{n.lineno}",
                      f"a nested parameter is listed with `{between}`, which set_params does not understand")


def resized(rep, cls, f):
    for loop in (n for n in ast.walk(f.node) if isinstance(n, ast.For)):
        it = loop.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "values"):
            it = it.func.value
        if not isinstance(it, ast.Name | ast.Attribute):
            continue
        walked = ast.unparse(it)
        bad = None
        for block in (b for n in ast.walk(loop) for b in (getattr(n, "body", None), getattr(n, "orelse", None)) if isinstance(b, list)):
            for i, s in enumerate(block):
                left = any(isinstance(x, ast.Break | ast.Return | ast.Raise) for x in block[i:])
                if not left and not isinstance(s, ast.For | ast.While | ast.If | ast.With | ast.Try):
                    bad = bad or next((n for n in ast.walk(s) if changes(n, walked)), None)
        rep.check(bad is None, "while-iterating", f"{cls.name}.{f.name}.{walked}", f"{f.module.rel}:{(bad or loop).lineno}",
                  f"`{walked}` is changed while it is being walked, which fails at the next step")


def changes(n, name):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RESIZE:
        return ast.unparse(n.func.value) == name
    return isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and ast.unparse(t.value) == name for t in n.targets)


def external_inits(ev):
    out = []
    for e in ev.effects:
        if e.kind == "call" and isinstance(e.data[0], T):
            f = e.data[0]
            name = str(f.args[-1]) if f.args else ""
            if name.endswith("__init__"):
                out.append(dict(e.data[2]))
    return out


def overwritten(P, rep, cls, params):
    start = constructing(P, cls)
    for k in cls.repo_mro():
        for n, f in k.methods.items():
            if n in ("__init__", "__setstate__", "set_params", "__setattr__") or n in start:
                continue
            bad = []
            for s in ast.walk(f.node):
                targets = []
                if isinstance(s, ast.Assign):
                    targets = s.targets
                elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                    targets = [s.target]
                elif isinstance(s, (ast.For, ast.comprehension)):
                    targets = [s.target]
                elif isinstance(s, ast.Call) and ast.unparse(s.func) in ("setattr", "self.__setattr__", "object.__setattr__"):
                    args = s.args[1:] if ast.unparse(s.func) != "self.__setattr__" else s.args
                    if s.args and ast.unparse(s.args[0]) == "self" and args and isinstance(args[0], ast.Constant) and args[0].value in params:
                        bad.append((args[0].value, s))
                    continue
                for t in targets:
                    for x in ast.walk(t):
                        if (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)
                                and x.value.id == first(f) and x.attr in params):
                            bad.append((x.attr, s))
            if not bad and not f.is_abstract and not f.is_static:
                through_alias(P, rep, cls, n, f, params)
            if not bad:
                rep.ok("not-overwritten", f"{cls.name}.{n}", f.loc)
            for p, s in bad:
                rep.bad("not-overwritten", f"{cls.name}.{n}.{p}", f"{f.module.rel}:{s.lineno}",
                        f"`{n}` assigns the hyperparameter `{p}`")


def first(f):
    a = f.node.args
    names = [*a.posonlyargs, *a.args]
    return names[0].arg if names else "self"


def through_alias(P, rep, cls, n, f, params):
    """Other names of the object, and reconfiguration through the parameter protocol."""
    if cls.find_method(n) is not f:
        return
    me = selfterm(cls)
    ev = Evaluator(P, budget=3_000_000, inline=inliner(cls))
    ev.run(f, cls=cls)
    for e in ev.effects:
        if e.kind == "store" and e.data[0] is me and e.data[1] in params:
            if e.func is None or e.func.name not in ("__init__", "__setstate__"):
                rep.bad("not-overwritten", f"{cls.name}.{n}.{e.data[1]}", e.loc,
                        f"`{n}` assigns the hyperparameter `{e.data[1]}`")
        elif e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op in ("meth", "attr", "bound"):
            name = e.data[0].args[1].rsplit(".", 1)[-1]
            if name in ("set_params", "_set_params") and e.data[0].args[0] is me and n != "set_params":
                rep.bad("not-overwritten", f"{cls.name}.{n}.set_params", e.loc,
                        f"`{n}` changes the hyperparameters of the object it works on")
