"""C17: portfolio arithmetic, copies and pickles keep every setting."""

import ast

from checks.c03 import alternatives
from checks.c15 import held
from sa.estimators import selfterm
from sa.folds import IDENTITY, Polarity
from sa.index import AnalysisBroken
from sa.portfolios import classes, measures, slots
from sa.vg import Evaluator, walk

UNARY = ("__neg__", "__pos__", "__abs__", "__round__", "__floor__", "__ceil__", "__trunc__")
BINARY = ("__add__", "__sub__", "__mul__", "__truediv__", "__floordiv__", "__mod__", "__pow__")
OPERATORS = UNARY + BINARY + tuple("__r" + n[2:] for n in BINARY) + tuple("__i" + n[2:] for n in BINARY)
#: formal sign of the own and the other operand in the result
SIGNS = {
    "__neg__": ("-", None), "__pos__": ("+", None), "__add__": ("+", "+"), "__radd__": ("+", "+"),
    "__sub__": ("+", "-"), "__rsub__": ("-", "+"), "__mul__": ("+", None), "__rmul__": ("+", None),
    "__truediv__": ("+", None),
}  # fmt: skip
#: what arithmetic is about
SUBJECT = ("weights", "portfolios")


def check(P, rep):
    rep.rule("carried-over", "arithmetic hands every other setting on unchanged", need=150)
    rep.rule("same-kind", "the result is a portfolio of the same kind", need=10)
    rep.rule("operands", "the result is computed from the operands, with their signs", need=8)
    rep.rule("compatible", "portfolios with different settings are not combined silently", need=2)
    rep.rule("pickled", "a pickle carries every constructor argument, in order", need=20)
    rep.rule("remembered", "what the constructor is given can be read back", need=20)
    rep.rule("copied", "a copy has every attribute of the original", need=20)
    rep.rule("untouched", "the operands are not modified", need=15)
    for cls in classes(P):
        init = cls.init()
        params = init.params()
        subject = [p for p in SUBJECT if p in params]
        if len(subject) != 1:
            raise AnalysisBroken(f"{cls.name} is not built from weights or portfolios")
        for n in OPERATORS:
            f = cls.find_method(n)
            if f is not None:
                operator(P, rep, cls, n, f, params, subject[0])
        pickled(P, rep, cls, params)
        remembered(P, rep, cls, init, params)
        copied(P, rep, cls)


def strip(t):
    while t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in IDENTITY and t.args[1]:
        t = t.args[1][0]
    return t


def setting(t, me):
    t = strip(t)
    if t.op == "attr" and t.args[0] is me:
        return t.args[1].removeprefix("_")
    return None


def arrays(cls):
    """Attributes holding data that can be modified in place."""
    out = {"returns", "observations", "assets"}
    for p in cls.init().node.args.args:
        a = ast.unparse(p.annotation) if p.annotation is not None else ""
        if any(k in a for k in ("Input", "Array", "array", "list")):
            out |= {p.arg, "_" + p.arg}
    return out


def operator(P, rep, cls, n, f, params, subject):
    me = selfterm(cls)
    ev = Evaluator(P)
    r = ev.run(f, cls=cls)
    rep.saw(ev)
    other = f.params()[0] if f.params() else None
    for i, t in enumerate(alternatives(r)):
        if t.op == "raises":
            continue
        if t.op == "new":
            rep.check(t.args[0] == cls.qual, "same-kind", f"{cls.name}.{n}", f.loc, f"{n} of a {cls.name} gives a {t.args[0].rsplit('.', 1)[-1]}")
            kw = dict(zip(params, t.args[1], strict=False)) | dict(t.args[2])
            spread = any(k.startswith("**") for k in kw)
            for p in params:
                if p == subject:
                    continue
                got = kw.get(p)
                ok = None if got is None and spread else got is not None and setting(got, me) == p
                if got is not None and not ok and depends(got, me, p) and not computed(got, me, p):
                    ok = None
                rep.check(ok, "carried-over", f"{cls.name}.{n}.{p}", f.loc,
                          f"the result of {n} has {'its default ' + p if got is None else p + ' = ' + str(got)[:60]}")  # fmt: skip
            operands(P, rep, cls, n, f, me, other, kw.get(subject), subject)
        elif t is me:
            pass
        else:
            rep.undecided("same-kind", f"{cls.name}.{n}.{i}", f.loc, "result not understood")
    if other is not None and n in ("__add__", "__sub__"):
        compatible(P, rep, cls, n, f, ev, me, other, params, subject)
    arr = arrays(cls)
    for e in ev.effects:
        if e.kind in ("store", "delattr") and (e.data[0] is me or is_in(e.data[0], other)):
            rep.bad("untouched", f"{cls.name}.{n}.{e.data[1]}", e.loc, f"{n} changes {e.data[1]} of an operand")
        elif e.kind in ("mutcall", "setitem", "delitem", "aug"):
            t = e.data[0]
            a = held(t, me)
            if a is None and other is not None:
                a = next((held(t, x) for x in walk(t) if is_in(x, other) and held(t, x)), None)
            if a in arr:
                rep.bad("untouched", f"{cls.name}.{n}.{a}", e.loc, f"{n} modifies {a} of an operand in place")
    rep.ok("untouched", f"{cls.name}.{n}", f.loc)


def is_in(t, name):
    return name is not None and t.op == "in" and t.args[0] == name


def depends(t, me, p):
    return any(x.op == "attr" and x.args[0] is me and x.args[1].removeprefix("_") == p for x in walk(t))


def computed(t, me, p):
    """The setting enters a calculation, so that it is not handed on as it is."""
    return any(x.op in ("bin", "neg", "un") and depends(x, me, p) for x in walk(t, into_cond=False))


def operands(P, rep, cls, n, f, me, other, t, subject):
    if t is None:
        rep.bad("operands", f"{cls.name}.{n}.{subject}", f.loc, f"the result of {n} has no {subject}")
        return
    names = {subject, "_" + subject}

    def own(x):
        return x.op == "attr" and x.args[0] is me and x.args[1] in names or x.op == "elem" and x.args[0] is me

    rep.check(any(own(x) for x in walk(t)), "operands", f"{cls.name}.{n}:own", f.loc, f"the result of {n} does not depend on the {subject} of the portfolio")
    if other is None or n in UNARY:
        if n in SIGNS:
            s = Polarity(own)(t)
            rep.check(None if "?" in s or not s else s == {SIGNS[n][0]}, "operands", f"{cls.name}.{n}:sign", f.loc, f"{n} has the wrong sign")
        return

    def theirs(x):
        return is_in(x, other)

    rep.check(any(theirs(x) for x in walk(t, into_cond=False)), "operands", f"{cls.name}.{n}:other", f.loc, f"the result of {n} does not depend on the other operand")
    if n in SIGNS:
        for who, pred, want in (("own", own, SIGNS[n][0]), ("other", theirs, SIGNS[n][1])):
            if want is None:
                continue
            s = Polarity(pred)(t)
            rep.check(None if "?" in s or not s else s == {want}, "operands", f"{cls.name}.{n}:{who}-sign", f.loc, f"{n} has the wrong sign for the {who} operand")
    if n in ("__truediv__", "__mul__", "__rmul__"):
        bins = {x.args[0] for x in walk(t, into_cond=False) if x.op == "bin" and any(own(y) for y in walk(x)) and any(theirs(y) for y in walk(x))}
        bins |= {"/" if x.args[0].args[0].endswith("divide") else "*" for x in walk(t, into_cond=False)
                 if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.multiply", "numpy.divide", "numpy.true_divide")}  # fmt: skip
        want = {"/"} if n == "__truediv__" else {"*"}
        rep.check(None if not bins else bins == want, "operands", f"{cls.name}.{n}:operation", f.loc, f"{n} computes {sorted(bins)}")


def compatible(P, rep, cls, n, f, ev, me, other, params, subject):
    """Combining portfolios that differ in another setting raises an error."""
    if subject != "weights":
        return
    compared = set()
    for e in ev.effects:
        if e.kind != "raise":
            continue
        for g, _ in e.guard:
            if not hasattr(g, "op"):
                continue
            mine = {x.args[1].removeprefix("_") for x in walk(g) if x.op == "attr" and x.args[0] is me}
            oth = {x.args[1].removeprefix("_") for x in walk(g) if x.op == "attr" and is_in(x.args[0], other)}
            compared |= mine & oth
    if not compared:
        rep.undecided("compatible", f"{cls.name}.{n}", f.loc, "no comparison of settings found")
        return
    for p in params:
        if p in (subject, "name", "tag"):
            continue
        rep.check(p in compared, "compatible", f"{cls.name}.{n}.{p}", f.loc, f"{n} combines portfolios with different {p} without a word")


def pickled(P, rep, cls, params):
    f = cls.find_method("__reduce__")
    me = selfterm(cls)
    if f is None:
        return
    ev = Evaluator(P)
    r = ev.run(f, cls=cls)
    rep.saw(ev)
    ok = r.op == "tuple" and len(r.args) >= 2 and r.args[1].op == "tuple"
    if not ok:
        rep.undecided("pickled", cls.name, f.loc, "reduce value not understood")
        return
    rep.check(r.args[0].op == "cls" and r.args[0].args[0] == cls.qual, "pickled", f"{cls.name}:class", f.loc, "a pickle does not rebuild the class of the portfolio")
    got = r.args[1].args
    names = [x.arg for x in cls.init().node.args.posonlyargs + cls.init().node.args.args][1:]
    for i, p in enumerate(names):
        v = got[i] if i < len(got) else None
        rep.check(v is not None and setting(v, me) == p, "pickled", f"{cls.name}.{p}", f.loc, f"a pickle carries {v} as {p}")


def remembered(P, rep, cls, init, params):
    """The attribute a constructor argument is read back from comes from it."""
    me = selfterm(cls)
    ev = Evaluator(P)
    ev.run(init, cls=cls)
    rep.saw(ev)
    heap = {k[1]: v for k, v in ev.st.heap.items() if k[0] is me}
    for p in params:
        g = cls.find_method(p)
        name = p
        if g is not None and g.is_property:
            r = Evaluator(P).run(g, cls=cls)
            name = r.args[1] if r.op == "attr" and r.args[0] is me else None
        if name is None:
            rep.undecided("remembered", f"{cls.name}.{p}", init.loc, "read through a computed property")
            continue
        t = heap.get(name)
        if t is None:
            rep.bad("remembered", f"{cls.name}.{p}", init.loc, f"{p} cannot be read back from the portfolio")
            continue
        ins = {x.args[0] for x in walk(t, into_cond=False) if x.op == "in"}
        rep.check(p in ins, "remembered", f"{cls.name}.{p}", init.loc, f"{p} is read back as {str(t)[:80]}")
        only = strip(t)
        if only.op == "in":
            rep.check(only.args[0] == p, "remembered", f"{cls.name}.{p}:own", init.loc, f"{p} is read back as {only}")


def copied(P, rep, cls):
    f = cls.find_method("__copy__")
    me = selfterm(cls)
    sl = slots(P, cls)
    if f is None or sl is None:
        return
    ev = Evaluator(P)
    r = ev.run(f, cls=cls)
    rep.saw(ev)
    figures = set()
    for c, m in measures(P):
        v = c.attrs.get(m)
        figures.add(v.value if isinstance(getattr(v, "value", None), str) else m.lower())
    stores = {}
    unknown = False
    for e in ev.effects:
        if e.kind == "store" and e.data[0] is r:
            stores[e.data[1]] = e
        elif e.kind == "call" and e.data[0].op == "ext" and e.data[0].args[0].endswith("setattr") and e.data[1] and e.data[1][0] is r:
            unknown = True
    init = Evaluator(P)
    init.run(cls.init(), cls=cls)
    needed = {k[1] for k in init.st.heap if k[0] is me}
    for a in sorted(sl):
        e = stores.get(a)
        if e is None:
            if a not in needed:
                continue
            rep.check(None if unknown or not stores else False, "copied", f"{cls.name}.{a}", f.loc, f"a copy has no {a}")
            continue
        v = e.data[2]
        if v.op in ("const",):
            rep.ok("copied", f"{cls.name}.{a}", f.loc)
            continue
        src = {x.args[1] for x in walk(v) if x.op == "attr" and x.args[0] is me}
        rep.check(src == {a}, "copied", f"{cls.name}.{a}", e.loc, f"a copy gets {a} from {sorted(src)}")
    mine = [e for e in ev.effects if e.kind in ("store", "delattr") and e.data[0] is me]
    rep.check(not mine, "untouched", f"{cls.name}.__copy__", mine[0].loc if mine else f.loc, "copying changes the original")
