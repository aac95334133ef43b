"""C02: refitting never depends on what the object did before."""

import ast

from sa.estimators import constructing, ctor_params, estimators, inliner, selfterm
from sa.selftest import selftest
from sa.vg import MUTATORS, UNSET, Evaluator, T, cval, is_const, walk

FITTING = ("fit", "fit_predict", "fit_transform", "partial_fit")
VALIDATORS = ("validate_data", "_check_feature_names", "_check_n_features", "check_X_y")


def check(P, rep):
    rep.rule("fresh-read", "what fitting reads from the object was set by this fit or is an option", need=150)
    rep.rule("cache-reset", "memoised results are dropped before the first one is used in a fit", need=3)
    rep.rule("shared-state", "no state outside the object is changed", need=250)
    rep.rule("left-over", "what a query reads is set by every fit", need=60)
    selftest("c02", example)
    for cls in estimators(P):
        one(P, rep, cls)
    for m in P.modules.values():
        shared(P, rep, m)


def example(P, rep, cls, f):
    if cls is not None:
        fitting(P, rep, cls, f, changing(P, cls))
        caches(P, rep, cls, f)
    else:
        shared_func(P, rep, f.module, f)


def changing(P, cls):
    """Attributes some method other than the constructor sets or changes."""
    me = selfterm(cls)
    out = set()
    for n in sorted({n for k in cls.repo_mro() for n in k.methods} - constructing(P, cls)):
        f = cls.find_method(n)
        if n in ("__init__", "__setstate__") or f.is_abstract or f.is_static:
            continue
        ev = Evaluator(P, budget=3_000_000, inline=inliner(cls))
        ev.run(f, cls=cls)
        for e in ev.effects:
            if e.kind in ("store", "delattr") and e.data[0] is me:
                out.add(e.data[1])
            elif e.kind in ("setitem", "mutcall", "delitem"):
                t = e.data[0]
                while t.op in ("upd", "mut", "sub", "loop", "prev"):
                    t = t.args[2] if t.op in ("loop", "prev") else t.args[0]
                if t.op == "attr" and t.args[0] is me:
                    out.add(t.args[1])
    return out


def one(P, rep, cls):
    history = changing(P, cls) - set(ctor_params(cls))
    for n in FITTING:
        f = cls.find_method(n)
        if f is not None and not f.is_abstract:
            fitting(P, rep, cls, f, history)
            caches(P, rep, cls, f)
    left_over(P, rep, cls)


def run(P, rep, cls, f):
    ev = Evaluator(P, budget=3_000_000, inline=inliner(cls))
    ev.run(f, cls=cls)
    rep.saw(ev)
    return ev


def stale(v, me, a):
    """May the value still be what the object held before?"""
    return v is None or any(
        x is UNSET or (x.op == "attr" and x.args[0] is me and x.args[1] == a)
        for x in walk(v, into_cond=False)
    )


def fitting(P, rep, cls, f, history):
    ev = run(P, rep, cls, f)
    me = selfterm(cls)
    params = set(ctor_params(cls))
    validated = None
    outside = False
    for i, e in enumerate(ev.effects):
        if e.kind == "call" and isinstance(e.data[0], T):
            g = e.data[0]
            name = str(g.args[-1]).rsplit(".", 1)[-1] if g.args and isinstance(g.args[-1], str) else ""
            mine = any(a is me for a in e.data[1]) or (g.op in ("meth", "attr", "super") and g.args[0] is me)
            if name in VALIDATORS and mine:
                validated = e.guard if validated is None else tuple(set(validated) & set(e.guard))
            if name == "fit" and (mine or g.op == "super" or (g.op == "meth" and g.args[0].op == "super")):
                outside = True
            if g.op == "ext" and name in ("hasattr",) and e.data[1] and e.data[1][0] is me and is_const(e.data[1][1]):
                a = cval(e.data[1][1])
                look(rep, cls, f, e, a, ev, me, params, history, validated, outside, None)
        if e.kind == "read" and e.data[0] is me:
            look(rep, cls, f, e, e.data[1], ev, me, params, history, validated, outside, e.data[2])


def look(rep, cls, f, e, a, ev, me, params, history, validated, outside, val):
    if a in params or (a not in history and not a.endswith("_")) or a.startswith("__"):
        return
    inst = f"{cls.name}.{f.name}.{a}"
    if a in ("feature_names_in_", "n_features_in_"):
        ok = outside or (validated is not None and set(validated) <= set(e.guard))
        rep.check(ok, "fresh-read", inst, e.loc, f"`{a}` is read before this call's data was validated")
        return
    if outside and val is None:
        rep.ok("fresh-read", inst, e.loc)
        return
    if a in CACHES.get(cls.qual, ()):
        return
    rep.check(not stale(val, me, a), "fresh-read", inst, e.loc,
              f"`{a}` may still be what an earlier call left on the object")


CACHES: dict = {}


def memoised(cls):
    """{method: cache attribute} of methods whose results are kept on the object."""
    out = {}
    for k in cls.repo_mro():
        for n, f in k.methods.items():
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("cache_method"):
                    a = next(iter([*d.args, *(k.value for k in d.keywords)]), None)
                    if isinstance(a, ast.Constant):
                        out[f.qual] = a.value
    CACHES[cls.qual] = set(out.values())
    return out


def caches(P, rep, cls, f):
    memo = memoised(cls)
    if not memo:
        return
    me = selfterm(cls)
    ev = run(P, rep, cls, f)
    for attr in sorted(set(memo.values())):
        reset, first = None, None
        for i, e in enumerate(ev.effects):
            if reset is None and e.kind == "store" and e.data[0] is me and e.data[1] == attr and empty(e.data[2]):
                reset = (i, e.guard)
            if first is None and e.kind == "enter" and memo.get(getattr(e.data[0], "qual", None)) == attr:
                first = (i, e)
            if first is None and e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op == "bound":
                if memo.get(e.data[0].args[1]) == attr:
                    first = (i, e)
        if first is None:
            continue
        inst = f"{cls.name}.{f.name}.{attr}"
        ok = reset is not None and reset[0] < first[0] and set(reset[1]) <= set(first[1].guard)
        rep.check(ok, "cache-reset", inst, first[1].loc,
                  f"results memoised in `{attr}` by an earlier, possibly failed, fit are used")


def empty(v):
    return v.op in ("dict", "list") and len(v.args) <= 1


def left_over(P, rep, cls):
    """Attributes that queries read are must-assigned by fit."""
    me = selfterm(cls)
    fit = cls.find_method("fit")
    if fit is None:
        return
    ev = run(P, rep, cls, fit)
    params = set(ctor_params(cls))
    set_by_fit = {a for (o, a) in ev.st.heap if o is me}
    partial = {a for a in set_by_fit if stale(ev.st.heap[(me, a)], me, a)}
    seen = set()
    for n in sorted({n for k in cls.repo_mro() for n in k.methods}):
        f = cls.find_method(n)
        if n in FITTING or f.is_abstract or f.is_static or n.startswith("_"):
            continue
        q = run(P, rep, cls, f)
        for e in q.effects:
            if e.kind != "read" or e.data[0] is not me or e.data[1] in params:
                continue
            a = e.data[1]
            if a not in set_by_fit or (n, a) in seen:
                continue
            seen.add((n, a))
            if a in partial and e.data[2] is None:
                # the read may be under the very condition that sets it
                rep.undecided("left-over", f"{cls.name}.{n}.{a}", e.loc, "conditionally set")
            else:
                rep.ok("left-over", f"{cls.name}.{n}.{a}", e.loc)


def shared(P, rep, m):
    for f in [*m.funcs.values(), *[f for c in m.classes.values() for f in c.methods.values()]]:
        shared_func(P, rep, m, f)


def mutable(node):
    return isinstance(node, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)) or (
        isinstance(node, ast.Call) and ast.unparse(node.func).rsplit(".", 1)[-1]
        in ("dict", "list", "set", "defaultdict", "OrderedDict", "deque", "Counter", "WeakKeyDictionary")
    )


def shared_func(P, rep, m, f):
    inst = f.qual.removeprefix("skfolio.")
    a = f.node.args
    local = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
    globs = {n for n, v in m.globals.items() if mutable(v)}
    classwide = {}
    if f.cls is not None:
        for k in f.cls.repo_mro():
            for n, v in k.attrs.items():
                if mutable(v):
                    classwide[n] = v
    defaults = dict(zip([x.arg for x in [*a.posonlyargs, *a.args]][::-1], a.defaults[::-1]))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    kept = {n for n, d in defaults.items() if mutable(d)}
    bound = set()
    bad = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Global):
            bad = bad or (n, f"module variable `{n.names[0]}` is rebound")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.add(n.id)
    for d in f.decorator_names():
        if d.rsplit(".", 1)[-1] in ("lru_cache", "cache") and d.split(".")[0] in ("functools", "lru_cache", "cache"):
            bad = bad or (f.node, "results are memoised for the whole process")
    for n in ast.walk(f.node):
        for base in changed(n):
            if isinstance(base, ast.Name) and base.id not in bound:
                if base.id in globs and base.id not in local:
                    bad = bad or (n, f"module variable `{base.id}` is changed")
                if base.id in kept:
                    bad = bad or (n, f"the default value of `{base.id}` is changed")
            if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name):
                first = ([x.arg for x in [*a.posonlyargs, *a.args]] or [None])[0]
                if base.attr in classwide and base.value.id in (first, "cls", f.cls.name if f.cls else None):
                    if not assigned_on_init(f.cls, base.attr):
                        bad = bad or (n, f"`{base.attr}`, shared by all instances, is changed")
    if bad:
        rep.bad("shared-state", inst, f"{m.rel}:{bad[0].lineno}", bad[1])
    else:
        rep.ok("shared-state", inst, f.loc)


def assigned_on_init(cls, attr):
    init = cls.find_method("__init__")
    return init is not None and any(
        isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr
        for n in ast.walk(init.node)
    )


def changed(n):
    """Containers a node changes in place."""
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
        for t in ts:
            if isinstance(t, ast.Subscript):
                while isinstance(t, ast.Subscript):
                    t = t.value
                yield t
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        t = n.func.value
        while isinstance(t, ast.Subscript):
            t = t.value
        yield t
