"""C18: portfolio collections only ever hold valid portfolios."""

from checks.c15 import entry_points
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.portfolios import classes
from sa.vg import Evaluator, cval, is_const, walk

#: methods of a list that put new elements in
ADDERS = {"__init__": (0,), "append": (0,), "extend": (0,), "insert": (1,), "__setitem__": (1,), "__iadd__": (0,)}
SWAP = {">": "<", ">=": "<=", "<": ">", "<=": ">=", "==": "==", "!=": "!="}
NEG = {">": "<=", ">=": "<", "<": ">=", "<=": ">", "==": "!=", "!=": "=="}
OUT = ("__delitem__", "pop", "remove", "clear")


def check(P, rep):
    rep.rule("overridden", "every list method that adds elements is under the collection's control", need=4)
    rep.rule("validated", "an element is checked before it is put in", need=3)
    rep.rule("ordered", "a period is checked against its predecessor when order checking is on", need=1)
    rep.rule("wrapped", "results of list operations are collections of the same kind", need=1)
    population(P, rep)
    for cls in classes(P):
        if "portfolios" in cls.init().params():
            periods(P, rep, cls)


def portfolio_classes(P):
    base = P.cls("BasePortfolio")
    return {base.qual, *(c.qual for c in classes(P))}


def tested(g, ok):
    """The object an ``isinstance`` test is about, when it asks for the given classes."""
    if g.op != "call" or g.args[0].op != "ext" or g.args[0].args[0] != "isinstance" or len(g.args[1]) != 2:
        return None
    quals = {x.args[0] for x in walk(g.args[1][1]) if x.op == "cls"}
    return g.args[1][0] if quals and quals <= ok else None


def strip_default(t):
    """Contents of a list that may have been defaulted or copied."""
    while True:
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("list", "tuple", "iter", "reversed", "enumerate") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "phi":
            a, b = t.args[1], t.args[2]
            if a.op == "list" and len(a.args) == 1:
                t = b
            elif b.op == "list" and len(b.args) == 1:
                t = a
            else:
                return t
        else:
            return t


def trivial(g, most):
    """Tests that only leave out collections too small to be wrong."""
    if g.op == "inloop":
        return True
    if g.op == "cmp":
        sizes = [x for x in g.args[1:] if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "len"]
        consts = [cval(x) for x in g.args[1:] if is_const(x)]
        if sizes:
            k = consts[0] if consts and isinstance(consts[0], int) else 99
            return k <= (most - 1 if g.args[0] in (">", "<=") else most)
        return g.args[0] == "is" and None in consts
    return g.op in ("in", "phi", "list")


def applies(e, test, at):
    """The error is reached whenever the insertion would be."""
    have = {(id(g), p) for g, p in at.guard if hasattr(g, "op")}
    return all(g is test or (id(g), p) in have or trivial(g, 1) for g, p in e.guard if hasattr(g, "op"))


def refused(ev, item, ok, at):
    """A wrong item (or a wrong element of an iterable) raises an error."""
    for e in ev.effects:
        if e.kind != "raise":
            continue
        for g, pol in e.guard:
            if not hasattr(g, "op") or pol:
                continue
            o = tested(g, ok)
            if o is None or not applies(e, g, at):
                continue
            if o is item:
                return "item"
            if o.op == "elem" and (o.args[0] is item or strip_default(o.args[0]) is strip_default(item)):
                return "element"
    return None


def guarded(e, item, ok):
    """The insertion only happens when the item passed the test."""
    for g, pol in e.guard:
        if hasattr(g, "op") and pol and tested(g, ok) is item:
            return True
    return False


def population(P, rep):
    pop = P.cls("Population")
    if "list" not in [b for b in pop.mro() if isinstance(b, str)]:
        raise AnalysisBroken("Population is no longer a list")
    ok = portfolio_classes(P)
    for n, pos in ADDERS.items():
        f = pop.find_method(n)
        rep.check(f is not None, "overridden", f"Population.{n}", f"{pop.module.rel}:{pop.node.lineno}",
                  f"the inherited {n} puts elements in without a check")  # fmt: skip
        if f is None:
            continue
        ev = Evaluator(P)
        ev.run(f, cls=pop)
        rep.saw(ev)
        found = 0
        for e in ev.effects:
            name, args = added(e)
            if name not in ADDERS:
                continue
            for i in ADDERS[name]:
                if i >= len(args):
                    continue
                found += 1
                v = args[i]
                src = v.args[1] if v.op == "comp" else v
                good = refused(ev, src, ok, e) or guarded(e, src, {pop.qual}) or guarded(e, src, ok)
                rep.check(bool(good), "validated", f"Population.{n}:{found}", e.loc, f"{n} puts an element in without a check that it is a portfolio")
        if not found:
            rep.undecided("validated", f"Population.{n}", f.loc, "no insertion found")
    for n in ("__add__", "__getitem__"):
        f = pop.find_method(n)
        rep.check(f is not None, "overridden", f"Population.{n}", f"{pop.module.rel}:{pop.node.lineno}", f"the inherited {n} gives a plain list")
        if f is None:
            continue
        ev = Evaluator(P)
        r = ev.run(f, cls=pop)
        new = [t for t in walk(r) if t.op == "new" and t.args[0] == pop.qual]
        rep.check(bool(new) or None, "wrapped", f"Population.{n}", f.loc, "the result is not a population")


def added(e):
    """(method, arguments) of an insertion made through the list base class."""
    if e.kind == "mutcall" and e.data[0].op in ("super", "self"):
        return e.data[1], e.data[2]
    if e.kind == "call":
        f = e.data[0]
        if f.op == "meth" and f.args[0].op == "super":
            return f.args[1], e.data[1]
        if f.op == "ext" and f.args[0].startswith("list.") and e.data[1]:
            return f.args[0][5:], e.data[1][1:]
    return None, ()


# -- periods ------------------------------------------------------------------


def backing(P, cls):
    me = selfterm(cls)
    r = Evaluator(P).run(cls.find_method("portfolios"), cls=cls)
    names = {t.args[1] for t in walk(r) if t.op == "attr" and t.args[0] is me}
    if len(names) != 1:
        raise AnalysisBroken(f"cannot tell where {cls.name} keeps its portfolios")
    return names.pop()


def contents(t, out, seen):
    """Inputs that may become elements of a list."""
    if id(t) in seen:
        return
    seen.add(id(t))
    o, a = t.op, t.args
    if o == "in":
        out[t.args[0]] = t
    elif o in ("upd",):
        contents(a[0], out, seen)
        contents(a[2], out, seen)
    elif o == "phi":
        contents(a[1], out, seen)
        contents(a[2], out, seen)
    elif o in ("list", "tuple", "cat", "star"):
        for x in a:
            if hasattr(x, "op"):
                contents(x, out, seen)
    elif o == "mut":
        contents(a[0], out, seen)
        for x in a[2]:
            contents(x, out, seen)
    elif o in ("prev", "loop"):
        contents(a[2], out, seen)
        if o == "loop":
            contents(a[3], out, seen)
    elif o == "bin":
        contents(a[1], out, seen)
        contents(a[2], out, seen)
    elif o == "comp":
        contents(a[1], out, seen)
    elif o == "elem":
        contents(a[0], out, seen)
    elif o == "call":
        if a[0].op == "ext":
            for x in a[1]:
                contents(x, out, seen)
        elif a[0].op == "meth":
            contents(a[0].args[0], out, seen)


def periods(P, rep, cls):
    me = selfterm(cls)
    slot = backing(P, cls)
    ok = portfolio_classes(P)
    todo = [("__init__", cls.init()), *entry_points(P, cls)]
    for n, f in todo:
        if n in OUT:
            continue
        ev = Evaluator(P)
        ev.run(f, cls=cls)
        writes = [(e, e.data[2]) for e in ev.effects if e.kind == "store" and e.data[0] is me and e.data[1] == slot]
        for e in ev.effects:
            if e.kind == "mutcall" and e.data[1] in ("append", "extend", "insert", "__setitem__") and rooted(e.data[0], me, slot):
                writes.append((e, e.data[2][-1]))
            elif e.kind == "setitem" and rooted(e.data[0], me, slot):
                writes.append((e, e.data[2]))
        if not writes:
            continue
        rep.saw(ev)
        fresh = {}
        for _, v in writes:
            contents(v, fresh, set())
        fresh.pop("key", None)
        for p, t in sorted(fresh.items()):
            rep.check(bool(refused(ev, t, ok, writes[0][0]) or covering(ev, t, ok, writes[0][0])), "validated", f"{cls.name}.{n}.{p}", writes[0][0].loc,
                      f"{n} takes in {p} without a check that it is a portfolio")  # fmt: skip
        if fresh:
            order(rep, cls, n, f, ev, me)


def covering(ev, t, ok, at):
    """An element test over a list the item was put into."""
    for e in ev.effects:
        if e.kind != "raise":
            continue
        for g, pol in e.guard:
            o = tested(g, ok) if hasattr(g, "op") and not pol else None
            if o is not None and o.op == "elem" and applies(e, g, at):
                ins = {}
                contents(o.args[0], ins, set())
                if t.args[0] in ins:
                    return True
    return False


def rooted(t, me, slot):
    while True:
        if t.op == "attr":
            return t.args[0] is me and t.args[1] == slot
        if t.op in ("upd", "mut"):
            t = t.args[0]
        elif t.op in ("prev", "loop"):
            t = t.args[2]
        else:
            return False


def bound_of(t):
    """0 or -1 when a term is the first or last observation of something."""
    while t.op == "call" and t.args[1] and t.args[0].op == "ext":
        t = t.args[1][0]
    if t.op == "sub" and is_const(t.args[1]) and any(x.op == "attr" and x.args[1] == "observations" for x in (t.args[0], *walk(t.args[0]))):
        k = cval(t.args[1])
        return k if k in (0, -1) else None
    return None


def order(rep, cls, n, f, ev, me):
    """Periods out of order raise an error, only when the option is on."""
    on = [e for e in ev.effects if e.kind == "raise" and any(
        hasattr(g, "op") and pol and (g.op == "in" and g.args[0] == "check_observations_order"
                                      or g.op == "attr" and g.args[0] is me and g.args[1] == "check_observations_order")
        for g, pol in e.guard)]  # fmt: skip
    if not on:
        mentions = any(hasattr(g, "op") and any(x.op in ("attr", "in") and x.args[-1] == "check_observations_order" for x in walk(g))
                       for e in ev.effects for g, _ in e.guard)  # fmt: skip
        rep.check(None if mentions else False, "ordered", f"{cls.name}.{n}", f.loc, f"{n} takes periods in without looking at their order")
        return
    ops = set()
    for e in on:
        for g, _ in e.guard:
            if hasattr(g, "op") and g.op == "cmp" and not trivial(g, 2) and any(
                x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "len" for x in g.args[1:]
            ):  # fmt: skip
                rep.bad("ordered", f"{cls.name}.{n}:always", e.loc, f"{n} checks the order only when {str(g)[:100]}")
        for g, pol in e.guard:
            if not hasattr(g, "op") or g.op != "cmp" or g.args[0] not in NEG:
                continue
            op, x, y = g.args
            bx, by = bound_of(x), bound_of(y)
            if {bx, by} != {0, -1}:
                continue
            op = op if bx == 0 else SWAP[op]
            ops.add(op if pol else NEG[op])
    if not ops:
        rep.undecided("ordered", f"{cls.name}.{n}", f.loc, "comparison of periods not understood")
        return
    rep.check(ops == {"<="}, "ordered", f"{cls.name}.{n}", on[0].loc,
              f"{n} refuses a period whose first observation is {sorted(ops)} the last one of its predecessor, it should be '<='")  # fmt: skip
