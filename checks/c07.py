"""C07: metadata passed to fit reaches every nested estimator that asks for it."""

import ast

from checks.c03 import alternatives, uses
from sa import api
from sa.estimators import ctor_params, estimators, inliner, selfterm
from sa.vg import Evaluator, T, cval, is_const, walk

DYNAMIC = "<each>"


def check(P, rep):
    rep.rule("own-name", "a nested component is declared under the option's own name", need=15)
    rep.rule("declared", "routed values are taken under a declared name and method", need=20)
    rep.rule("delivered", "what is declared is handed to the fit of that very component", need=18)
    rep.rule("routed-fit", "a component fitted on the data of the call gets its routed values", need=22)
    rep.rule("every-fit", "each fit of a declared component gets its routed values", need=22)
    rep.rule("asked", "routing is resolved for this object, this method and all values passed", need=18)
    rep.rule("targets", "a component fitted on the data of the call gets its targets", need=0)
    rep.rule("subset", "values are cut with the same indices and axis as the data", need=4)
    for cls in estimators(P):
        one(P, rep, cls)
    validation(P, rep)
    subsets(P, rep)


def mapping(t):
    """{(caller, callee)} of a method mapping term."""
    out = set()
    for x in walk(t):
        if x.op == "call" and x.args[0].op in ("meth", "attr") and x.args[0].args[1] == "add":
            kw = dict(x.args[2])
            a = [*x.args[1]]
            c, d = kw.get("caller", a[0] if a else None), kw.get("callee", a[1] if len(a) > 1 else None)
            if c is not None and d is not None and is_const(c) and is_const(d):
                out.add((cval(c), cval(d)))
    return out


def declared(ev):
    """{name: (value term, pairs, loc)} over all router.add calls."""
    out = {}
    for e in ev.effects:
        if e.kind != "call" or not isinstance(e.data[0], T):
            continue
        f, kw = e.data[0], dict(e.data[2])
        if f.op in ("meth", "attr") and f.args[1] == "add" and "method_mapping" in kw:
            pairs = mapping(kw.pop("method_mapping"))
            for n, v in kw.items():
                if n.startswith("**"):
                    out[DYNAMIC] = (v, pairs, e.loc)
                else:
                    out[n] = (v, pairs, e.loc)
    return out


def routings(ev):
    return [
        e for e in ev.effects
        if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op == "ext"
        and e.data[0].args[0].rsplit(".", 1)[-1] == "process_routing"
    ]  # fmt: skip


def picks(t, routed):
    """(name or term, method) of every use routed.<name>.<method> in a term."""
    for x in walk(t):
        m = step(x)
        if m is None:
            continue
        n = step(m[0])
        if n is not None and n[0] in routed:
            yield n[1], m[1]


def step(x):
    if x.op == "attr":
        return x.args[0], x.args[1]
    if x.op == "sub":
        k = x.args[1]
        return x.args[0], cval(k) if is_const(k) else k
    return None


def evaluated(P, rep, cls, f):
    ev = Evaluator(P, budget=3_000_000, inline=inliner(cls) if cls else None)
    ev.run(f, cls=cls)
    rep.saw(ev)
    return ev


def one(P, rep, cls):
    me = selfterm(cls)
    fit = cls.find_method("fit")
    if fit is None:
        return
    ev = evaluated(P, rep, cls, fit)
    rs = routings(ev)
    g = cls.find_method("get_metadata_routing")
    decl = declared(evaluated(P, rep, cls, g)) if g is not None else {}
    params = set(ctor_params(cls))
    for n, (v, pairs, loc) in decl.items():
        if n == DYNAMIC:
            continue
        ok = v.op == "attr" and v.args[0] is me and v.args[1] == n
        rep.check(ok, "own-name", f"{cls.name}.{n}", loc, f"`{n}` is declared for another object")
    if not rs and not decl:
        bare(P, rep, cls, ev, me, params)
        return
    kwarg = fit.node.args.kwarg.arg if fit.node.args.kwarg else None
    routed = set()
    for e in rs:
        a = [*e.data[1]]
        kw = dict(e.data[2])
        if a and any(x.op == "ext" and x.args[0].endswith("MetadataRouter") for x in walk(a[0])):
            continue  # a helper that routes to its own components
        ok = len(a) >= 2 and a[0] is me and is_const(a[1]) and cval(a[1]) == "fit"
        passed = kwarg is not None and any(
            k.startswith("**") and any(x.op == "in" and x.args[0] == kwarg for x in walk(v)) for k, v in kw.items()
        )
        rep.check(ok and passed, "asked", cls.name, e.loc, "routing is not resolved for this fit and its values")
        routed.add(e.data[3])
    if not rs:
        rep.bad("asked", cls.name, fit.loc, "nested components are declared but routing is never resolved")
    got = {}
    for recv, e in uses(ev, {"fit"}):
        if recv is me or recv.op in ("super", "ext", "cls"):
            continue
        kws = [v for k, v in e.data[2] if k.startswith("**")]
        names = [p for v in kws for p in picks(v, routed)]
        src = options(recv, me, params)
        for n, m in names:
            if isinstance(n, T):
                d = decl.get(DYNAMIC)
                rep.check(d is not None and (("fit", m) in d[1]), "declared", f"{cls.name}.{DYNAMIC}", e.loc,
                          "no such component is declared")
                same = tags(n) & tags(recv)
                rep.check(bool(same), "delivered", f"{cls.name}.{DYNAMIC}", e.loc,
                          "a component gets the values routed to another one")
                got[DYNAMIC] = True
                continue
            d = decl.get(n)
            rep.check(d is not None and ("fit", m) in d[1], "declared", f"{cls.name}.{n}", e.loc,
                      f"values are taken for `{n}`, which is not declared for fit")
            ok = not src or n in src
            rep.check(ok, "delivered", f"{cls.name}.{n}", e.loc,
                      f"`{sorted(src)[0] if src else '?'}` gets the values routed to `{n}`")
            if ok:
                got[n] = True
        on_call_data(rep, cls, recv, e, me, src, bool(names), kwarg, kws)
        for n in sorted(src):
            if n in decl or (DYNAMIC in decl and mentions(decl[DYNAMIC][0], me, n)):
                rep.check(bool(names), "every-fit", f"{cls.name}.{n}", e.loc,
                          f"`{n}` is also fitted without the values routed to it")
    for n, (v, pairs, loc) in decl.items():
        if ("fit", "fit") in pairs:
            # the values may also be passed as a plain argument (helpers)
            rep.check(n in got, "delivered", f"{cls.name}.{n}", loc,
                      f"`{n}` is declared but never receives its values")


def on_call_data(rep, cls, recv, e, me, src, has, kwarg, kws):
    """Components fitted on X or y themselves must get their values."""
    first = dict(e.data[2]).get("X", e.data[1][0] if e.data[1] else None)
    if first is None or not any(x.op == "in" for x in alternatives(first)):
        return
    if src and "y" in cls.find_method("fit").params() and all(x.op == "in" and x.args[0] != "y" for x in alternatives(first)):
        y = dict(e.data[2]).get("y", e.data[1][1] if len(e.data[1]) > 1 else None)
        starred = any(a.op == "star" for a in e.data[1])
        told = y is not None and any(x.op == "in" and x.args[0] == "y" for x in walk(y))
        rep.check(told or (None if starred else False), "targets", f"{cls.name}.{sorted(src)[0]}", e.loc,
                  f"`{sorted(src)[0]}` is fitted on the data of the call without its targets")
    if not src:
        return
    direct = any(x.op == "in" and x.args[0] == kwarg for v in kws for x in walk(v))
    name = sorted(src)[0]
    rep.check(has or direct, "routed-fit", f"{cls.name}.{name}", e.loc,
              f"`{name}` is fitted on the data of the call without the values routed to it")


def bare(P, rep, cls, ev, me, params):
    for recv, e in uses(ev, {"fit"}):
        if recv is me or recv.op in ("super", "ext", "cls"):
            continue
        on_call_data(rep, cls, recv, e, me, options(recv, me, params), False, None, [])


def options(t, me, params):
    """Options a receiver was made from."""
    out = set()
    for x in walk(t, into_cond=False, stop=lambda y: y.op == "new"):
        if x.op == "attr" and x.args[0] is me and x.args[1] in params:
            out.add(x.args[1])
    return out


def mentions(t, me, n):
    return any(x.op == "attr" and x.args[0] is me and x.args[1] == n for x in walk(t))


def tags(t):
    return {x.args[1] for x in walk(t) if x.op == "elem"}


def validation(P, rep):
    """Cross-validation helpers that build their router themselves."""
    for f in api.functions(P):
        ev = Evaluator(P, budget=3_000_000)
        ev.run(f)
        rs = routings(ev)
        if not rs:
            continue
        rep.saw(ev)
        decl = declared(ev)
        routed = set()
        for e in rs:
            a = [*e.data[1]]
            caller = cval(a[1]) if len(a) > 1 and is_const(a[1]) else None
            rep.check(any(k.startswith("**") for k, _ in e.data[2]), "asked", f.name, e.loc,
                      "routing is resolved without the values passed")
            routed.add(e.data[3])
            for n, (v, pairs, loc) in decl.items():
                ok = v.op == "in" or (v.op == "call" and bool(v.args[1]))
                rep.check(ok and any(c == caller for c, _ in pairs), "declared", f"{f.name}.{n}", loc,
                          f"`{n}` is not declared for the method that is resolved")
        for n, (v, pairs, loc) in decl.items():
            own = {x.args[0] for x in walk(v) if x.op == "in"}
            for _, callee in sorted(pairs):
                for recv, e in uses(ev, {callee}):
                    if not own & made_from(recv):
                        continue
                    vals = [v for k, v in e.data[2] if k.startswith("**")]
                    names = {m for v in vals for m, _ in picks_any(v, routed)}
                    rep.check(n in names, "delivered", f"{f.name}.{n}", e.loc,
                              f"`{callee}` is called without the values routed to `{n}`")
                    if callee != "fit":
                        continue
                    data = {x.args[0] for a in e.data[1] for x in walk(a, stop=is_split) if x.op == "in"}
                    meta = {x.args[0] for a in vals for x in walk(a, stop=is_split) if x.op == "in"}
                    cut = sorted(data - meta - {"X", "y"})
                    rep.check(not cut, "subset", f"{f.name}.{n}", e.loc,
                              f"`{', '.join(cut)}` selects the data but not the values that go with it")


def is_split(t):
    return t.op == "call" and t.args[0].op in ("meth", "attr", "bound") and t.args[0].args[1].endswith("split")


def made_from(t):
    return {x.args[0] for x in walk(t, into_cond=False) if x.op == "in"}


def picks_any(t, routed):
    """Uses through either arm of the enabled/disabled switch."""
    for x in walk(t):
        m = step(x)
        if m is None:
            continue
        n = step(m[0])
        if n is not None and any(y in routed for y in alternatives(n[0])):
            yield n[1], m[1]
        elif m[0] in routed or any(y in routed for y in alternatives(m[0])):
            yield m[1], None


def subsets(P, rep):
    """Wherever data is cut and metadata is cut in one function, the cuts agree."""
    for f in sorted(P.funcs.values(), key=lambda f: f.qual):
        if f.cls is not None or "fit_params" not in f.params():
            continue
        if any(isinstance(x, ast.Name) and x.id == f.name for g in f.module.funcs.values()
               if g is not f and "fit_params" in g.params() for x in ast.walk(g.node)):
            continue  # seen as part of its caller
        ev = Evaluator(P, budget=300_000, inline=lambda g: g.module is f.module and g.cls is None and "indices" not in g.params())
        ev.run(f)
        cuts, metas = [], []
        for e in ev.effects:
            if e.kind != "call" or not isinstance(e.data[0], T) or e.data[0].op != "fn":
                continue
            g = P.funcs[e.data[0].args[0]]
            kw = dict(e.data[2])
            for n, v in zip(g.params(), e.data[1]):
                kw.setdefault(n, v)
            if "indices" not in g.params():
                continue
            key = (kw.get("indices"), kw.get("axis") or default(ev, g, "axis"))
            about = [x.args[0] for v in kw.values() for x in walk(v) if x.op == "in"]
            if "fit_params" in about:
                metas.append((key, e))
            elif kw.get("X") is not None:
                cuts.append((key, e))
        fits = [e for r, e in uses(ev, {"fit"})]
        for e in fits:
            vals = [v for k, v in e.data[2] if k.startswith("**")]
            ok = any(x.op == "in" and x.args[0] == "fit_params" for v in vals for x in walk(v))
            rep.check(ok, "subset", f"{f.name}.fit", e.loc, "the component is fitted without its metadata")
        for key, e in metas:
            if key[0] is not None:
                rep.check(any(k == key for k, _ in cuts) if cuts else None, "subset", f"{f.name}.indices", e.loc,
                          "metadata is cut with other indices or along another axis than the data")


def default(ev, g, name):
    a = g.node.args
    pos = [x.arg for x in [*a.posonlyargs, *a.args]]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    return ev.default_value(g, d[name]) if name in d else None
