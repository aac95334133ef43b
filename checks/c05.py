"""C05: every constructor option takes effect."""

from sa.convex import enum_member
from sa.estimators import ctor_params, estimators, inliner, selfterm, splitters
from sa.index import Func
from sa.vg import Evaluator, T, is_const, walk

#: methods that describe an object instead of using it
DESCRIBE = {
    "__init__", "get_params", "set_params", "get_metadata_routing", "__repr__",
    "__sklearn_tags__", "_more_tags", "__str__", "_validate_names", "named_estimators",
}  # fmt: skip
#: options about the portfolio the estimator itself predicts, not about inner ones
OWN_RESULT = {"portfolio_params"}


def check(P, rep):
    rep.rule("takes-effect", "each option reaches a result, an outside call or a decision", need=280)
    rep.rule("own-place", "an option is never passed where another option of the same object "
             "belongs", need=60)
    rep.rule("handed-on", "a library function that has the option as parameter receives it", need=12)
    rep.rule("default-stays", "an option is not replaced by a constant where it belongs", need=30)
    for cls in [*estimators(P), *splitters(P)]:
        one(P, rep, cls)


def one(P, rep, cls):
    params = ctor_params(cls)
    me = selfterm(cls)
    used, reads = set(), {}
    runs = []
    for m in sorted({n for k in cls.repo_mro() for n in k.methods} - DESCRIBE):
        f = cls.find_method(m)
        if f.is_abstract:
            continue
        ev = Evaluator(P, budget=3_000_000, inline=inliner(cls))
        ev.run(f, cls=cls)
        rep.saw(ev)
        runs.append(ev)
        collect(ev, me, used, reads)
    missing = [p for p in params if p not in used]
    if missing and "risk_measure" in params:
        # options that only some risk measures have
        for r in P.cls("RiskMeasure").enum_members():
            if all(p in used for p in params):
                break
            ev = Evaluator(P, budget=3_000_000, inline=inliner(cls),
                           self_attrs={"risk_measure": enum_member(P, "RiskMeasure", r)})
            ev.run(cls.find_method("fit"), cls=cls)
            collect(ev, me, used, reads)
    ext, lost = external_params(P, cls, me)
    for p in params:
        inst = f"{cls.name}.{p}"
        if p in lost:
            rep.bad("takes-effect", inst, cls.init().loc, f"`{p}` is accepted and another value is kept in its place")
        elif p in used or p in ext:
            rep.ok("takes-effect", inst, reads.get(p, cls.loc))
        elif p in reads:
            rep.bad("takes-effect", inst, reads[p], f"`{p}` is only checked or mentioned, never used")
        else:
            rep.bad("takes-effect", inst, cls.loc, f"`{p}` is accepted and never read")
    seen = set()
    for ev in runs:
        calls(P, rep, cls, ev, me, set(params), seen)


def leaves(d):
    st = [d]
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st += x


def message_only(e):
    """Constructing an error or a warning text is not an effect of an option."""
    f = e.data[0]
    if isinstance(f, T):
        if f.op == "ext":
            n = f.args[0].rsplit(".", 1)[-1]
            return n.endswith(("Error", "Exception", "Warning")) or f.args[0] in (
                "warnings.warn", "isinstance", "type", "len", "print", "issubclass", "hasattr",
                "sklearn.utils.validation.check_is_fitted",
            )
        if f.op == "cls":
            return f.args[0].rsplit(".", 1)[-1].endswith(("Error", "Warning"))
    return False


def collect(ev, me, used, reads):
    rejected = set()
    for e in ev.effects:
        if e.kind == "raise" and e.guard:
            t, p = e.guard[-1]
            if not (t.op == "attr" and t.args[0] is me):
                rejected.add((t, not p))
                rejected.add((t, p))
    for e in ev.effects:
        if e.kind == "read":
            if e.data[0] is me:
                reads.setdefault(e.data[1], e.loc)
            continue
        terms = []
        if e.kind in ("store", "return", "mutcall", "setitem", "aug", "index", "yield", "enter", "delattr"):
            if e.kind != "enter":
                terms += leaves(e.data)
            terms += [t for t, p in e.guard if (t, p) not in rejected]
        elif e.kind == "call" and not message_only(e):
            terms += leaves(e.data[:3])
            terms += [t for t, p in e.guard if (t, p) not in rejected]
        elif e.kind == "raise":
            terms += [t for t, p in e.guard if t.op == "attr"]
        for t in terms:
            for y in walk(t):
                if y.op == "attr" and y.args[0] is me:
                    used.add(y.args[1])


def external_params(P, cls, me):
    """Options handed to an outside base class, which uses them, and options that are not kept."""
    init = cls.init()
    if init is None:
        return set(), set()
    ev = Evaluator(P, budget=300_000, inline=inliner(cls))
    ev.run(init, cls=cls)
    out = set()
    for e in ev.effects:
        if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op in ("ext", "meth", "attr"):
            if str(e.data[0].args[-1]).endswith("__init__"):
                for k, v in e.data[2]:
                    if v.op == "in" and v.args[0] == k:
                        out.add(k)
    lost = set()
    for p in ctor_params(cls):
        v = ev.st.heap.get((me, p))
        if v is not None and not any(y.op == "in" and y.args[-1] == p for y in walk(v)):
            lost.add(p)
    return out, lost


def callee(P, e):
    f = e.data[0]
    if isinstance(f, Func):
        return f
    if isinstance(f, T):
        if f.op == "cls" and f.args[0] in P.classes:
            return P.classes[f.args[0]].init()
        if f.op == "func":
            return P.funcs.get(f.args[0])
    return None


def calls(P, rep, cls, ev, me, params, seen):
    for e in ev.effects:
        if e.kind not in ("call", "enter"):
            continue
        f = callee(P, e)
        kw = dict(e.data[2])
        names = []
        if f is not None:
            names = f.params()
            for n, v in zip(names, e.data[1]):
                kw.setdefault(n, v)
        who = f.qual.rsplit(".", 2)[-1] if f is not None else getattr(e.data[0], "args", ("?",))[-1]
        for n, v in kw.items():
            if not isinstance(v, T) or n not in params:
                continue
            key = (n, e.loc)
            if v.op == "attr" and v.args[0] is me and v.args[1] in params:
                if key not in seen:
                    rep.check(v.args[1] == n, "own-place", f"{cls.name}.{who}({n})", e.loc,
                              f"`{v.args[1]}` is passed where `{n}` belongs")
                seen.add(key)
            elif f is not None and f.cls is None and is_const(v):
                if key not in seen:
                    rep.bad("default-stays", f"{cls.name}.{who}({n})", e.loc,
                            f"a constant is passed where the option `{n}` belongs")
                seen.add(key)
            elif f is not None and f.cls is None:
                rep.ok("default-stays", f"{cls.name}.{who}({n})", e.loc)
        if f is not None and f.cls is None and not any(k.startswith("**") for k in kw):
            for n in names:
                if n in params and n not in OWN_RESULT and (n, e.loc, "on") not in seen:
                    seen.add((n, e.loc, "on"))
                    rep.check(n in kw, "handed-on", f"{cls.name}.{who}({n})", e.loc,
                              f"`{who}` takes `{n}` but the option of that name is not passed on")
