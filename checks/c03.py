"""C03: estimators given as building blocks are never fitted or reconfigured."""

from checks.c01 import owners
from sa import api
from sa.estimators import selfterm
from sa.index import Func
from sa.selftest import selftest
from sa.vg import Evaluator, T, walk

FITS = {"fit", "fit_transform", "fit_predict", "partial_fit"}
SETS = {"set_params", "set_fit_request", "set_predict_request", "set_output"}


def check(P, rep):
    rep.rule("template", "what is fitted is never the object the caller supplied", need=45)
    rep.rule("own-copy", "what is fitted inside a loop is created inside that loop", need=5)
    rep.rule("settings", "an object the caller supplied is not reconfigured", need=300)
    selftest("c03", one)
    for cls, f in api.entries(P):
        if f.name.startswith("__") and not f.name.endswith("__"):
            continue
        one(P, rep, cls, f)


def alternatives(t):
    """The objects a value may be, following branches and loops."""
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            todo += x.args[1:]
        elif x.op in ("and", "or"):
            todo += x.args
        elif x.op == "loop":
            todo += x.args[2:4]
        elif x.op == "prev":
            todo.append(x.args[2])
        else:
            out.append(x)
    return out


def uses(ev, names):
    """(receiver, effect) of calls of methods with one of the names."""
    for e in ev.effects:
        if e.kind == "enter" and isinstance(e.data[0], Func) and e.data[0].name in names:
            if e.data[3] is not None:
                yield e.data[3], e
        elif e.kind == "call" and isinstance(e.data[0], T):
            f = e.data[0]
            if f.op in ("meth", "attr") and f.args[1] in names:
                yield f.args[0], e
            elif f.op == "bound" and f.args[1].rsplit(".", 1)[-1] in names:
                yield f.args[0], e


def one(P, rep, cls, f):
    ev = Evaluator(P, budget=3_000_000)
    ev.run(f, cls=cls)
    rep.saw(ev)
    me = selfterm(cls) if cls else None
    own = owners(me, f, P, cls)
    who = f"{cls.name}.{f.name}" if cls else f.name
    order = {e: i for i, e in enumerate(ev.effects)}
    for recv, e in uses(ev, FITS):
        if recv is me or recv.op in ("super", "ext", "cls"):
            continue
        given = sorted(o for o in own(recv) if o[0] != "nested result")
        name = given[0][1] if given else short(recv)
        rep.check(not given, "template", f"{who}({name})", e.loc,
                  f"`{name}` itself is fitted, not a copy of it")
        loops = [g for g, pol in e.guard if pol and g.op == "inloop"]
        for g in loops:
            for x in alternatives(recv):
                if x.op not in ("call", "new") or depends(x, g.args[0]):
                    continue
                made = [
                    c for c in ev.effects[: order[e]]
                    if c.kind == "call" and len(c.data) > 3 and c.data[3] is x
                ]  # fmt: skip
                if made:
                    rep.check((g, True) in made[-1].guard, "own-copy", f"{who}({name})", e.loc,
                              "one object made outside the loop is fitted again and again inside it")
    bad = False
    for recv, e in uses(ev, SETS):
        given = [o for o in own(recv) if o[0] != "nested result"]
        if recv is not me and given:
            bad = True
            rep.bad("settings", f"{who}({given[0][1]})", e.loc, f"`{given[0][1]}` is reconfigured")
    for e in ev.effects:
        if e.kind == "store" and e.data[0] is not me:
            given = [o for o in own(e.data[0]) if o[0] != "nested result"]
            if given:
                bad = True
                rep.bad("settings", f"{who}({given[0][1]})", e.loc,
                        f"attribute `{e.data[1]}` of `{given[0][1]}` is set")
    if not bad:
        rep.ok("settings", who, f.loc)


def depends(t, tag):
    return any(x.op in ("elem", "index") and tag in x.args for x in walk(t))


def short(t):
    while t.op in ("phi", "loop"):
        t = t.args[1] if t.op == "phi" else t.args[2]
    if t.op == "call" and t.args[1]:
        return short(t.args[1][0])
    if t.op in ("attr", "meth"):
        return str(t.args[1])
    if t.op == "new":
        return t.args[0].rsplit(".", 1)[-1]
    return t.op
