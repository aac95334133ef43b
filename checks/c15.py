"""C15: portfolio figures are never stale."""

from checks.c03 import alternatives
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.portfolios import classes, measures, member, slots
from sa.vg import Evaluator, const, cval, is_const, mk, walk


def check(P, rep):
    rep.rule("refreshed", "changing what a figure depends on forgets the figure", need=60)
    rep.rule("read-only", "what defines the portfolio cannot be changed afterwards", need=4)
    rep.rule("rewritten", "an operation that rewrites the data forgets all figures", need=60)
    rep.rule("together", "periods, returns and observations are rewritten together", need=0)
    rep.rule("own-figure", "reading a figure keeps that figure only", need=60)
    rep.rule("kept-in", "a kept figure has its own place, used for reading and writing alike", need=2)
    rep.rule("guarded", "an operation that lifts the write protection puts it back", need=2)
    rep.rule("shared", "data shared by copies is never modified in place", need=40)
    for cls in classes(P):
        one(P, rep, cls)
    descriptor(P, rep)


def value(c, m):
    v = c.attrs.get(m)
    return v.value if isinstance(getattr(v, "value", None), str) else m.lower()


def cached(cls):
    """Cached figures of a class that are properties: public name -> function."""
    out = {}
    for c in reversed(cls.repo_mro()):
        for n, f in c.methods.items():
            if any("cached_property" in d for d in f.decorator_names()):
                out[n] = f
            else:
                out.pop(n, None)
    return out


class Figures:
    """The figures a portfolio keeps and the attributes each depends on."""

    def __init__(self, P, cls, rep):
        self.P, self.cls, self.me, self.rep = P, cls, selfterm(cls), rep
        self.props = cached(cls)
        self.names = {value(c, m): (c, m) for c, m in measures(P)}
        self.slot = {n: n for n in self.names} | {n: "_" + n for n in self.props}
        self.deps = {}
        self.evs = {}

    def base(self, name, seen=()):
        """Attributes (not themselves figures) a figure is computed from."""
        if name in self.deps:
            return self.deps[name]
        if name in seen:
            return set()
        direct = set()
        if name in self.props:
            f, args = self.props[name], {}
        else:
            f, args = self.cls.find_method("get_measure"), {"measure": member(*self.names[name])}
        if f is None:
            raise AnalysisBroken("portfolios have no get_measure")
        ev = Evaluator(self.P)
        r = ev.run(f, cls=self.cls, args=args)
        self.rep.saw(ev)
        self.evs[name] = (f, ev)
        for t in walk(r):
            if t.op == "attr" and t.args[0] is self.me:
                direct.add(t.args[1])
            elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "getattr" and t.args[1][0] is self.me:
                # a figure chosen at run time
                direct |= set(self.names)
        for e in ev.effects:
            if e.kind == "read" and e.data[0] is self.me:
                direct.add(e.data[1])
        out = set()
        for a in direct:
            n = a if a in self.slot else a[1:] if a[:1] == "_" and a[1:] in self.props else None
            if n == name:
                continue
            if n is not None:
                out |= self.base(n, (*seen, name))
            elif a not in self.cls.attrs and self.cls.find_method(a) is None and not class_level(self.cls, a):
                out.add(a)
        self.deps[name] = out
        return out


def class_level(cls, name):
    return any(name in c.attrs for c in cls.repo_mro())


def setting(P, cls, name):
    """Evaluator after the caller assigned an attribute, or None when it has no effect to analyse."""
    ev = Evaluator(P, self_attrs={"_loaded": const(True)})
    s = cls.find_setter(name)
    if s is not None:
        r = ev.run(s, cls=cls)
        return ev, r, s
    f = cls.find_method("__setattr__")
    if f is None:
        return None
    ps = f.params()
    r = ev.run(f, cls=cls, args={ps[0]: const(name)})
    return ev, r, f


def is_store(e, me, attr=None):
    """The attribute an effect stores on the object."""
    if e.kind == "store" and e.data[0] is me:
        return e.data[1]
    if e.kind == "call":
        f, args = e.data[0], e.data[1]
        n = f.args[0] if f.op == "ext" else f.args[1] if f.op in ("meth", "bound") else ""
        if isinstance(n, str) and n.endswith("__setattr__") and args:
            key = args[1] if len(args) > 2 else args[0]
            return cval(key) if is_const(key) else "?"
    return None


def conds(e):
    return {(id(g), p) for g, p in e.guard if hasattr(g, "op")}


def forgets(ev, me, slot, at):
    """Whether the slot is deleted whenever the given effect happens."""
    want = conds(at)
    return any(e.kind == "delattr" and e.data[0] is me and e.data[1] == slot and conds(e) <= want for e in ev.effects)


def all_known(ev, me):
    """No deletion of an attribute the analysis cannot name."""
    return not any(
        e.kind == "delattr" and e.data[0] is me and not isinstance(e.data[1], str)
        or e.kind == "call" and e.data[0].op == "ext" and e.data[0].args[0].endswith(("delattr", "delattr__"))
        and e.data[1] and e.data[1][0] is me
        for e in ev.effects
    )  # fmt: skip


def one(P, rep, cls):
    fig = Figures(P, cls, rep)
    me = fig.me
    users = {}
    for n in fig.slot:
        for a in fig.base(n):
            users.setdefault(a, set()).add(n)
    if len(users) < 8:
        raise AnalysisBroken(f"figures of {cls.name} depend on {sorted(users)} only")
    inputs = set()
    for a, names in sorted(users.items()):
        public = a.removeprefix("_")
        if a.startswith("_") and cls.find_setter(public) is None:
            inputs.add(a)
            continue
        res = setting(P, cls, public)
        if res is None:
            continue
        ev, r, f = res
        stores = [e for e in ev.effects if is_store(e, me) in (a, "?")]
        if r.op == "raises" or not stores and any(e.kind == "raise" for e in ev.effects):
            rep.ok("refreshed", f"{cls.name}.{public}:refused", f.loc)
            inputs.add(a)
            continue
        for n in sorted(names):
            ok = None
            if stores:
                ok = all(forgets(ev, me, fig.slot[n], e) for e in stores)
                if not ok and not all_known(ev, me):
                    ok = None
            rep.check(ok, "refreshed", f"{cls.name}.{public}->{n}", f.loc,
                      f"{n} is computed from {public} and stays as it was after {public} is changed")  # fmt: skip
    rewriting(P, rep, cls, fig, inputs | defining(P, rep, cls, me))
    for n, (f, ev) in fig.evs.items():
        bad = [e for e in ev.effects if (is_store(e, me) or "") in fig.slot.values() and is_store(e, me) != fig.slot[n]]
        bad += [e for e in ev.effects if e.kind == "delattr" and e.data[0] is me]
        rep.check(not bad, "own-figure", f"{cls.name}.{n}", bad[0].loc if bad else f.loc, f"reading {n} changes another figure")
    sl = slots(P, cls)
    for n in fig.props:
        rep.check(None if sl is None else fig.slot[n] in sl, "kept-in", f"{cls.name}.{n}", fig.props[n].loc,
                  f"there is no slot to keep {n} in")  # fmt: skip


def defining(P, rep, cls, me):
    """Attributes built from the same data as the returns cannot be set."""
    init = cls.init()
    ev = Evaluator(P)
    ev.run(init, cls=cls)
    rep.saw(ev)
    heap = {k[1]: v for k, v in ev.st.heap.items() if k[0] is me}
    if "returns" not in heap:
        raise AnalysisBroken(f"the constructor of {cls.name} sets no returns")
    data, private = set(), set()
    for a in ("returns", "observations"):
        data |= inputs_of(heap.get(a))
    for a, t in sorted(heap.items()):
        if not (inputs_of(t) & data or a in ("returns", "observations")):
            continue
        if a.startswith("_"):
            private.add(a)
            continue
        res = setting(P, cls, a)
        if res is None:
            continue
        ev2, r, f = res
        ok = r.op == "raises"
        if not ok and any(e.kind == "raise" for e in ev2.effects):
            ok = None
        rep.check(ok, "read-only", f"{cls.name}.{a}", f.loc, f"{a} can be changed after construction although the returns were computed from the same data")  # fmt: skip
    return private


def inputs_of(t):
    if t is None:
        return set()
    return {x.args[0] for x in walk(t, into_cond=False) if x.op == "in"}


def entry_points(P, cls):
    """Methods and setters a caller can use."""
    seen = {}
    for c in reversed(cls.repo_mro()):
        for n, f in c.methods.items():
            seen[n] = f
        for n, f in c.setters.items():
            seen["=" + n] = f
    skip = {"__init__", "__getattribute__", "__setattr__", "__delattr__", "clear"}
    for n, f in sorted(seen.items()):
        if n in skip or n.startswith("_") and not n.startswith("__") or f.is_static or f.is_classmethod:
            continue
        yield n, f


def protection(P, cls, me):
    """Attributes of the object that switch the write protection on."""
    f = cls.find_method("__setattr__")
    ev = Evaluator(P)
    ev.run(f, cls=cls, args={f.params()[0]: const("returns")})
    return {
        t.args[1] for e in ev.effects if e.kind == "raise" for g, _ in e.guard if hasattr(g, "op")
        for t in walk(g) if t.op == "attr" and t.args[0] is me and not class_level(cls, t.args[1])
    }  # fmt: skip


def protected(rep, cls, n, f, ev, guards):
    last = {}
    for e in ev.effects:
        if e.kind == "store" and e.data[1] in guards:
            last[id(e.data[0]), e.data[1]] = e
    for e in last.values():
        ok = None if not is_const(e.data[2]) else bool(cval(e.data[2]))
        rep.check(ok, "guarded", f"{cls.name}.{n}", e.loc, f"after {n} the attributes that define the portfolio can be changed")


def rewriting(P, rep, cls, fig, inputs):
    me = fig.me
    guards = protection(P, cls, me)
    ev = Evaluator(P)
    ev.run(cls.init(), cls=cls)
    protected(rep, cls, "__init__", cls.init(), ev, guards)
    data = set(inputs) | {"returns", "observations"}
    private = {a for a in data if a.startswith("_")}
    for n, f in entry_points(P, cls):
        if f.is_property and n in fig.props:
            continue
        ev = Evaluator(P, inline=lambda g: not g.name.startswith("plot"))
        ev.run(f, cls=cls)
        rep.saw(ev)
        protected(rep, cls, n, f, ev, guards)
        wrote = {}
        for e in ev.effects:
            a = is_store(e, me)
            if a in data:
                wrote.setdefault(a, []).append(e)
            if e.kind in ("mutcall", "setitem", "delitem", "aug"):
                t = e.data[0]
                if e.kind == "aug" and e.data[4]:
                    continue
                a = held(t, me)
                bad = a is not None and a not in fig.slot.values()
                if bad:
                    rep.bad("shared", f"{cls.name}.{n}.{a}", e.loc, f"{n} modifies {a} in place: copies of the portfolio share it")
        rep.ok("shared", f"{cls.name}.{n}", f.loc)
        for a, es in wrote.items():
            for g in sorted(fig.slot):
                ok = all(forgets(ev, me, fig.slot[g], e) for e in es)
                if not ok and not all_known(ev, me):
                    ok = None
                rep.check(ok, "rewritten", f"{cls.name}.{n}.{a}->{g}", es[0].loc, f"{n} rewrites {a} and {g} stays as it was")
        if wrote and private:
            for a in sorted(private | {"returns", "observations"}):
                rep.check(a in wrote, "together", f"{cls.name}.{n}.{a}", f.loc, f"{n} rewrites {sorted(wrote)} and leaves {a} as it was")


def held(t, me):
    """The attribute of the object whose content a term is (not a copy of it)."""
    while True:
        if t.op == "attr" and t.args[0] is me:
            return t.args[1]
        if t.op in ("upd", "mut", "sub", "index"):
            t = t.args[0]
        elif t.op in ("prev", "loop"):
            t = t.args[2]
        else:
            return None


def descriptor(P, rep):
    """The cached property keeps a figure under the name it looks for."""
    done = set()
    for cls in classes(P):
        for n, f in cached(cls).items():
            for d in f.decorator_names():
                c = P.classes.get(P.canonical(d)) or next((k for k in P.classes.values() if k.name == d.rsplit(".", 1)[-1]), None)
                if c is None or c.qual in done:
                    continue
                done.add(c.qual)
                get, name = c.find_method("__get__"), c.find_method("__set_name__")
                if get is None or name is None:
                    continue
                ev = Evaluator(P)
                ps = name.params()
                ev.run(name, cls=c, args={ps[-1]: const("figure")})
                inst = mk("given", "instance")
                r = ev.run(get, cls=c, args={get.params()[0]: inst})
                read = {t.args[1] for t in walk(r) if t.op == "attr" and t.args[0] is inst}
                wrote = {e.data[1] for e in ev.effects if e.kind == "store" and e.data[0] is inst}
                rep.check(wrote == {"_figure"} if wrote else None, "kept-in", f"{c.name}:written", get.loc,
                          f"the value is kept under {sorted(map(str, wrote))}")  # fmt: skip
                rep.check(None if not read else read <= {"_figure"}, "kept-in", f"{c.name}:read", get.loc,
                          f"the value is looked for under {sorted(map(str, read))}")  # fmt: skip
                vals = [a for a in alternatives(r)]
                got = [a for a in vals if a.op == "call" and any(x is inst for x in a.args[1])]
                rep.check(bool(got) or None, "kept-in", f"{c.name}:computed", get.loc, "the function is not applied to the instance")
                st = c.find_method("__set__")
                if st is not None:
                    ev = Evaluator(P)
                    r = ev.run(st, cls=c)
                    rep.check(r.op == "raises", "kept-in", f"{c.name}:set", st.loc, "a figure can be overwritten by the caller")

