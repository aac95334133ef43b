"""C28: vine copula samples respect the fit and the conditioning."""

from fractions import Fraction

from sa import algebra as A
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.vg import FALSE, TRUE, Budget, Evaluator, T, const, cval, decide, is_const, mk, seq_items, show, walk

SAME = {
    "asarray",
    "array",
    "asanyarray",
    "ascontiguousarray",
    "copy",
    "clip",
    "atleast_2d",
    "asfortranarray",
    "minimum",
    "maximum",
}
JOIN = {"hstack", "column_stack"}


def check(P, rep):
    rep.rule("same-scale", "scoring puts the data on the scale the model was fitted on", need=1)
    rep.rule("undone", "samples are brought back by undoing what the fit did, column by column", need=1)
    rep.rule("smooth", "the transformation used beyond a threshold meets the exact one at the threshold", need=0)
    rep.rule("conditioning", "the values conditioned on are put on the scale of the fit", need=1)
    rep.rule("unit-range", "the bounds of a conditioning range are between 0 and 1 when drawn from", need=0)
    rep.rule("enforced", "conditioned assets have the requested values in what is returned", need=1)
    rep.rule("conditioned-last", "the asset drawn given the others is not the conditioned one", need=0)
    rep.rule("step", "each step of the sampling inverts what scoring computes", need=1)
    rep.rule("side", "a value is kept on the side of the variable it belongs to", need=1)
    rep.rule("cleared", "intermediate results are cleared at the start and at the end of every call", need=1)
    rep.rule("cleared-all", "clearing resets every intermediate result", need=1)
    c = P.cls("VineCopula")
    Vine(P, rep, c).all()


class Other(Exception):
    """A construct the reader does not follow."""


def name_of(f):
    return str(f.args[-1]).rsplit(".", 1)[-1] if f.op in ("ext", "fn", "meth", "attr", "bound") else ""


def called(t):
    return name_of(t.args[0]) if t.op == "call" and isinstance(t.args[0], T) else ""


def strip(t):
    while called(t) in ("asarray", "array", "asanyarray", "ascontiguousarray", "copy", "float"):
        t = t.args[1][0] if t.args[1] else t.args[0].args[0]
    return t


def kw(t, name, at=None):
    for k, v in t.args[2]:
        if k == name:
            return v
    return t.args[1][at] if at is not None and len(t.args[1]) > at else None


class Vine:
    def __init__(self, P, rep, c):
        self.P, self.rep, self.c = P, rep, c
        self.me = selfterm(c)

    def all(self):
        stop = {"select_univariate_dist", "select_bivariate_copula"}
        self.runs = {}
        for fitted in (True, False):
            for m in ("fit", "score_samples", "sample"):
                f = self.c.find_method(m)
                if f is None:
                    raise AnalysisBroken(f"VineCopula has no method {m}")
                ev = Evaluator(
                    self.P,
                    budget=400000,
                    inline=lambda f, *a: f.name not in stop,
                    self_attrs={"fit_marginals": TRUE if fitted else FALSE},
                )
                r = ev.run(f, cls=self.c, selfterm=self.me)
                self.rep.saw(ev)
                self.runs[m, fitted] = (f, ev, r)
        fit = self.runs["fit", True][1]
        self.flags = {
            e.data[1]
            for e in fit.effects
            if e.kind == "store" and e.data[0] is self.me and mentions(e.data[2], self.me, "log_transform")
        }
        self.flags -= {"marginal_distributions_", "trees_"}
        self.marginals = {
            e.data[1]
            for e in fit.effects
            if e.kind == "store"
            and e.data[0] is self.me
            and any(called(t) in ("select_univariate_dist",) for t in walk(e.data[2]))
            and e.data[2].op == "comp"
        } or {"marginal_distributions_"}
        self.transforms()
        self.conditioning()
        self.enforced()
        self.branch()
        self.steps()
        self.clearing()

    # the scale of the data -------------------------------------------------------------------------------------

    def transforms(self):
        rep = self.rep
        for fitted in (True, False):
            for log in (True, False):
                label = f"{'fitted' if fitted else 'uniform'}-margins,{'log' if log else 'plain'}"
                want = [("log1p", ("x",)) if log else ("x",)]
                want.append(("cdf", want[0]) if fitted else want[0])
                for m in ("fit", "score_samples"):
                    f, ev, _ = self.runs[m, fitted]
                    R = Column(self, log)
                    seen = set()
                    for what, t, pos, loc in self.sinks(m, ev):
                        try:
                            got = R.read(t, pos)
                        except Other:
                            got = None
                        w = want[1] if what == "uniform" else want[0]
                        if (what, got) in seen:
                            continue
                        seen.add((what, got))
                        rep.check(
                            None if got is None else got == w,
                            "same-scale",
                            f"{m}.{what}:{label}",
                            loc,
                            f"the data reach the {'copulas' if what == 'uniform' else 'marginal distributions'} as "
                            f"{text(got)} instead of {text(w)}",
                        )
                f, ev, r = self.runs["sample", fitted]
                try:
                    got = Column(self, log).read(self.forced(r)[0], None)
                except Other:
                    got = None
                if got is None:
                    rep.undecided("undone", label, f.loc, "the samples are built in an unknown way")
                    continue
                self.undone(label, f.loc, got, fitted, log)

    def sinks(self, m, ev):
        """Where the data reach the marginal distributions and the copulas."""
        for e in ev.effects:
            if e.kind == "call":
                n = called(mk("call", e.data[0], (), (), None)) if isinstance(e.data[0], T) else ""
                kws = dict(e.data[2])
                if n == "select_univariate_dist":
                    x = kws.get("X", e.data[1][0] if e.data[1] else None)
                    if x is not None:
                        yield "marginal", x, None, e.loc
                elif n == "score_samples" and self.position_of_dist(e.data[0].args[0]) is not None:
                    x = kws.get("X", e.data[1][0] if e.data[1] else None)
                    if x is not None:
                        yield "marginal", x, self.position_of_dist(e.data[0].args[0]), e.loc
                elif "pseudo_values" in kws:
                    p = position(kws.get("ref"))
                    if p is not None:
                        yield "uniform", kws["pseudo_values"], p, e.loc
            elif e.kind == "store" and e.data[1] == "pseudo_values" and m == "score_samples":
                o = e.data[0]
                if o.op == "elem":
                    yield "uniform", e.data[2], (o.args[1] if roots(o.args[0]) else "?"), e.loc

    def is_marginals(self, t):
        if t.op == "attr" and t.args[0] is self.me and t.args[1] in self.marginals:
            return True
        return t.op == "comp" and called(t.args[1]) == "select_univariate_dist"

    def position_of_dist(self, t):
        if t.op == "elem" and self.is_marginals(t.args[0]):
            return t.args[1]
        if t.op == "sub" and self.is_marginals(t.args[0]):
            return position(t.args[1])
        return None

    def is_flags(self, t):
        t = strip(t)
        if t.op == "attr" and t.args[0] is self.me and t.args[1] in self.flags:
            return True
        return (
            t.op not in ("call",)
            and mentions(t, self.me, "log_transform")
            and not any(x.op == "in" for x in walk(t))
            or (
                mentions(t, self.me, "log_transform")
                and called(t) not in ("any", "all", "where", "log1p", "hstack", "isscalar")
                and t.op in ("phi", "call", "bin")
                and not any(called(x) in ("log1p", "cdf", "ppf") for x in walk(t))
            )
        )

    def undone(self, label, loc, got, fitted, log):
        rep = self.rep
        base = ("ppf", ("u",)) if fitted else ("u",)
        z = A.sym("z", real=True)
        exact, rest = got, None
        if isinstance(got, tuple) and got[0] == "where":
            _, cond, exact, rest = got
            try:
                op, a, b = cond[1:]
                small = op in ("<", "<=") and a == base or op in (">", ">=") and b == base
                if not small:
                    exact, rest = rest, exact
                limit = value(b if a == base else a, base, z)
            except (Other, A.Unsupported, ValueError, TypeError):
                limit = None
        try:
            v = value(exact, base, z)
            back = A.log(A.add(v, A.ONE)) if log else v
            ok = A.equal(back, z, [{"z": (-0.31, -0.31 + 1e-9)}, {"z": (0.17, 0.17 + 1e-9)}])
        except Other:
            ok = None if unknown(exact) else False
        except A.Unsupported:
            ok = None
        rep.check(
            ok,
            "undone",
            label,
            loc,
            f"samples come out as {text(exact)} of the marginal draw, which does not undo the transformation of the fit",
        )
        if rest is not None:
            try:
                r = value(rest, base, z)
                at = A.sub(A.substitute(v, {"z": limit}), A.substitute(r, {"z": limit}))
                ok = A.equal(at, A.num(0), [{}])
            except (Other, A.Unsupported, TypeError, UnboundLocalError):
                ok = None
            rep.check(ok, "smooth", label, loc, "samples jump where the large values start to be damped")

    # conditioning ----------------------------------------------------------------------------------------------

    def stored_per_asset(self, ev):
        """Tables filled with one entry per conditioned asset."""
        out = {}
        for e in ev.effects:
            if e.kind == "setitem" and mentions_input(e.data[2], "conditioning") and not is_const(e.data[1]):
                out.setdefault(show(e.data[0]), []).append(e)
        return out

    def conditioning(self):
        for fitted in (True, False):
            f, ev, r = self.runs["sample", fitted]
            tables = self.stored_per_asset(ev)
            for log in (True, False):
                label = f"{'fitted' if fitted else 'uniform'}-margins,{'log' if log else 'plain'}"
                for table, es in sorted(tables.items()):
                    for e in es:
                        key, v = e.data[1], e.data[2]
                        if not self.uniform_table(ev, e):
                            continue
                        self.per_kind(label, e, key, v, fitted, log)

    def uniform_table(self, ev, e):
        """Whether the entries end up in the nodes of the vine (the others are kept to be enforced)."""
        return any(called(t) in ("uniform", "full") or called(t) == "cdf" for t in walk(e.data[2]))

    def per_kind(self, label, e, key, v, fitted, log):
        rep = self.rep
        for kind in ("value", "range", "array"):
            for side in ("finite", "open") if kind == "range" else ("finite",):
                R = Scalar(self, key, kind, side, log)
                try:
                    got = R.read(v)
                except Other:
                    rep.undecided("conditioning", f"{kind}:{label}", e.loc, "the value is built in an unknown way")
                    continue
                if kind != "range":
                    w = ("v",)
                    w = ("log1p", w) if log else w
                    w = ("cdf", w) if fitted else w
                    rep.check(
                        got == w,
                        "conditioning",
                        f"{kind}:{label}",
                        e.loc,
                        f"the {kind} conditioned on reaches the copulas as {text(got)} instead of {text(w)}",
                    )
                    continue
                if got[0] != "uniform":
                    rep.check(False, "conditioning", f"{kind}:{label}", e.loc, f"a range is not drawn from but is {text(got)}")
                    continue
                for end, g in zip(("low", "high"), got[1:]):
                    if side == "finite":
                        w = (end,)
                        w = ("log1p", w) if log else w
                        w = ("cdf", w) if fitted else w
                        rep.check(
                            g == w or g == ("unit", w),
                            "conditioning",
                            f"{end}:{label}",
                            e.loc,
                            f"the {end} bound conditioned on reaches the copulas as {text(g)} instead of {text(w)}",
                        )
                        if g in (w, ("unit", w)) and not fitted and not log:
                            rep.check(
                                g[0] == "unit",
                                "unit-range",
                                f"{end}:finite",
                                e.loc,
                                f"a {end} bound outside of the unit interval is drawn from as it is",
                            )
                    else:
                        w = ("num", 0 if end == "low" else 1)
                        open_ = ("infinite", end)
                        ok = g in (w, ("unit", open_), ("cdf", open_)) or end == "high" and g == ("cdf", ("log1p", open_))
                        if log and not fitted:
                            continue
                        rep.check(
                            ok,
                            "unit-range",
                            f"{end}:{label}",
                            e.loc,
                            f"a range without {end} bound is drawn from {text(g)} instead of {w[1]}",
                        )

    # what is returned ------------------------------------------------------------------------------------------

    def forced(self, r):
        """The samples before the conditioned values are put back, and the loop that does it."""
        t = strip(r)
        if t.op == "loop" and any(mentions_input(x, "conditioning") for x in walk(t.args[3])):
            return t.args[2], t
        return t, None

    def enforced(self):
        rep = self.rep
        for fitted in (True, False):
            f, ev, r = self.runs["sample", fitted]
            label = "fitted-margins" if fitted else "uniform-margins"
            _, loop = self.forced(r)
            if loop is None:
                inner = [x for x in walk(r) if x.op == "loop" and x.args[1] == "samples"]
                wrote = [
                    x
                    for x in walk(r)
                    if x.op == "loop" and any(y.op == "upd" and mentions_input(y, "conditioning") for y in walk(x.args[3]))
                ]
                if (
                    wrote
                    and strip(r).op in ("upd", "phi", "bin", "call")
                    and called(strip(r)) in ("", "where", "exp", "expm1", "clip", "hstack")
                ):
                    rep.bad("enforced", label, f.loc, "the conditioned values are transformed after they were put back")
                elif not wrote and not inner:
                    keeps = any(mentions_input(x, "conditioning") for x in walk(r) if x.op == "upd")
                    if not keeps:
                        rep.bad("enforced", label, f.loc, "the conditioned values are not put back into the samples")
                    else:
                        rep.undecided("enforced", label, f.loc, "the samples are returned in an unknown form")
                else:
                    rep.undecided("enforced", label, f.loc, "the samples are returned in an unknown form")
                continue
            tables = self.stored_per_asset(ev)
            assets = {e.data[1] for es in tables.values() for e in es if self.uniform_table(ev, e)}
            raw = [e for es in tables.values() for e in es if not self.uniform_table(ev, e) and e.data[1] in assets]
            for kind in ("value", "range", "array"):
                got = set()
                for e in raw:
                    try:
                        if not self.applies(e, kind):
                            continue
                        got.add(Scalar(self, e.data[1], kind, "finite", False).read(e.data[2]))
                    except Other:
                        got.add(None)
                want = ("tuple", ("low",), ("high",)) if kind == "range" else ("v",)
                ok = None if None in got or not raw else got == {want}
                rep.check(
                    ok, "enforced", f"kept-{kind}:{label}", f.loc, f"the {kind} asked for is kept as {[text(g) for g in got]}"
                )
            for kind, body in (("range", self.side(loop.args[3], True)), ("value", self.side(loop.args[3], False))):
                ok = self.written(body, loop, kind)
                rep.check(
                    ok,
                    "enforced",
                    f"{kind}:{label}",
                    f.loc,
                    f"a {kind} conditioned on is not written into the column of its asset",
                )

    def applies(self, e, kind):
        for g, pol in e.guard:
            k = kind_test(g)
            if k is None:
                continue
            if k == "range" and (kind == "range") != pol:
                return False
            if k == "scalar" and (kind == "value") != pol:
                return False
        return True

    def side(self, t, is_range):
        while t.op == "phi" and kind_test(t.args[0]) == "range":
            t = t.args[1] if is_range else t.args[2]
        if t.op == "upd":
            v = self.side(t.args[2], is_range)
            return t if v is t.args[2] else mk("upd", t.args[0], t.args[1], v)
        return t

    def written(self, body, loop, kind):
        if body.op != "upd":
            return False if body.op == "prev" else None
        base, key, v = body.args
        items = seq_items(key)
        if items is None or len(items) != 2:
            return None
        col = items[1]
        if col.op != "elem":
            return None
        cond = mk("sub", col.args[0], col)
        if kind == "value":
            return v is cond
        lo, hi = mk("sub", cond, const(0)), mk("sub", cond, const(1))
        if called(v) == "clip":
            a, b = kw(v, "a_min", 1) or kw(v, "min", 1), kw(v, "a_max", 2) or kw(v, "max", 2)
            x = v.args[1][0] if v.args[1] else kw(v, "a")
            if x is not None and x.op == "sub" and x.args[1] is not key:
                return False
            return a is lo and b is hi if a is not None and b is not None else None
        return False if v is cond else None

    # the order of the draws ------------------------------------------------------------------------------------

    def branch(self):
        rep = self.rep
        f, ev, r = self.runs["sample", True]
        seen = set()
        for e in ev.effects:
            if e.kind != "mutcall" or e.data[1] not in ("append", "appendleft") or len(e.data[2]) != 1:
                continue
            items = seq_items(e.data[2][0])
            if items is None or len(items) != 2:
                continue
            left = items[1]
            for t in choices(left):
                a = member(t)
                if a is not None and t not in seen:
                    seen.add(t)
                    first, second = a
                    for which, (x, y), want in (("first", (True, False), FALSE), ("second", (False, True), TRUE)):
                        got = settle(t, {first: x, second: y})
                        rep.check(
                            None if got not in (TRUE, FALSE) else got is want,
                            "conditioned-last",
                            f"{which}@{e.func.name if e.func else ''}",
                            e.loc,
                            f"when only the {which} variable of an edge is conditioned on, it is the one drawn given the other",
                        )

    # the steps of the sampling ---------------------------------------------------------------------------------

    def slots(self):
        """The sides of a node: which conditional value each one holds and how the pair of an edge is read."""
        out = {}
        for c in self.P.classes.values():
            for m in c.methods.values() if hasattr(c, "methods") else ():
                if not getattr(m, "is_property", False):
                    continue
                ev = Evaluator(
                    self.P,
                    budget=60000,
                    inline=lambda g, *a, c=c: g.cls is None or g.cls is c and not getattr(g, "is_property", False),
                )
                try:
                    ev.run(m, cls=c, selfterm=selfterm(c))
                except (AnalysisBroken, Budget):
                    continue
                for e in ev.effects:
                    if e.kind == "call" and isinstance(e.data[0], T) and name_of(e.data[0]) == "partial_derivative":
                        t = mk("call", e.data[0], e.data[1], e.data[2], None)
                        fm, x = kw(t, "first_margin", 1), kw(t, "X", 0)
                        fm = FALSE if fm is None else fm
                        out.setdefault(c, {})[m.name] = (fm, x, m)
        return out

    def steps(self):
        rep = self.rep
        slots = self.slots()
        if len(slots) != 1:
            for r in ("step", "side"):
                rep.undecided(r, "VineCopula", self.c.loc, "the nodes of the vine are not recognised")
            return
        ((node, sides),) = slots.items()
        for s, (fm, x, m) in sorted(sides.items()):
            rep.check(
                None if fm not in (TRUE, FALSE) else len({v[0] for v in sides.values()}) == len(sides),
                "side",
                f"{node.name}.{s}",
                m.loc,
                "both sides of a node are given the same margin",
            )
        first = [s for s, v in sides.items() if v[0] is FALSE]
        second = [s for s, v in sides.items() if v[0] is TRUE]
        if len(first) != 1 or len(second) != 1:
            return
        side = (first[0], second[0])
        self.variable(node, side)
        pair = self.pair(sides)
        f, ev, r = self.runs["sample", True]
        n = 0
        for e in ev.effects:
            if e.kind != "store" or e.data[1] not in (*side, "pseudo_values"):
                continue
            o, name, v = e.data
            inv = [t for t in walk(v) if called(t) == "inverse_partial_derivative"]
            if not inv:
                self.start(e, side)
                continue
            inv = inv[0]
            edge = inv.args[0].args[0]
            if edge.op != "attr" or pair is None:
                rep.undecided("step", f"{name}", e.loc, "the edge of the step is not recognised")
                continue
            edge = edge.args[0]
            n += 1
            self.step(e, inv, edge, side, pair)
            self.goes_on(ev, e, side)
        if not n:
            rep.undecided("step", "VineCopula", f.loc, "no step of the sampling recognised")

    def pair(self, sides):
        """The function reading the pair of values of an edge."""
        names = {name_of(x.args[0]) for _, x, _ in sides.values() if x is not None and x.op == "call"}
        if len(names) != 1:
            return None
        (n,) = names
        fs = [f for c in self.P.classes.values() for f in [c.methods.get(n)] if f is not None and "distribution" in c.qual]
        return fs[0] if len(fs) == 1 else None

    def columns(self, t):
        t = strip(t)
        if t.op == "attr" and t.args[1] == "T":
            t = strip(t.args[0])
        elif called(t) == "transpose":
            t = strip(t.args[1][0] if t.args[1] else t.args[0].args[0])
        elif called(t) != "column_stack" and not (called(t) == "stack" and constant(kw(t, "axis", 1)) in (1, -1)):
            return None
        if called(t) not in ("stack", "vstack", "array", "column_stack", "asarray", "row_stack"):
            return None
        items = seq_items(t.args[1][0]) if t.args[1] else None
        return items if items is not None and len(items) == 2 else None

    def step(self, e, inv, edge, side, pair):
        rep = self.rep
        o, name, _ = e.data
        ev = Evaluator(self.P, budget=60000, inline=lambda *a: False)
        got = ev.run(pair, cls=pair.cls, selfterm=edge)
        cols = self.columns(got)
        k = {"node1": 0, "node2": 1}.get(o.args[1]) if o.op == "attr" and o.args[0] is edge else None
        x = self.columns(kw(inv, "X", 0)) if kw(inv, "X", 0) is not None else None
        fm = kw(inv, "first_margin", 1)
        fm = FALSE if fm is None else fm
        if cols is None or k is None or x is None or fm not in (TRUE, FALSE):
            rep.undecided("step", f"{name}", e.loc, "the step has an unknown form")
            return
        label = f"{('first', 'second')[k]}.{name}"
        guard = list(e.guard)
        margin = 1 if fm is TRUE else 0
        where = f"{e.loc}"
        rep.check(
            margin == k,
            "step",
            f"{label}:margin",
            where,
            f"the {('first', 'second')[k]} variable of an edge is recovered with the inverse of the conditional "
            f"distribution of the {('first', 'second')[margin]} one",
        )
        if margin != k:
            return
        given, other = x[k], x[1 - k]
        ok = given.op == "attr" and given.args[1] == side[k]
        rep.check(
            ok if given.op == "attr" else None,
            "step",
            f"{label}:given",
            where,
            f"the {('first', 'second')[k]} variable is recovered from {show(given)[:80]}, which is not its conditional value",
        )
        for want, have, what in (
            (cols[1 - k], other, "condition"),
            (cols[k], mk("attr", o, name), "target"),
        ):
            ok = agree(want, have, guard)
            rep.check(
                ok,
                "step",
                f"{label}:{what}",
                where,
                f"sampling {'conditions on' if what == 'condition' else 'recovers'} {show(have)[-60:]}, while scoring "
                f"reads another value",
            )

    def goes_on(self, ev, e, side):
        """The next step starts from the value just recovered."""
        o, name, _ = e.data
        if name not in side:
            return
        done = set()
        for x in ev.effects:
            if x.kind != "mutcall" or len(x.data[2]) != 1 or not x.data[1].startswith("append"):
                continue
            items = seq_items(x.data[2][0])
            if items is None or len(items) != 2 or items[0] is not o or (items[1], name) in done:
                continue
            if any((g, not p) in e.guard for g, p in x.guard):
                continue
            done.add((items[1], name))
            d = decide(items[1], e.guard)
            self.rep.check(
                d if d is None else bool(d) == (name == side[0]),
                "side",
                f"next.{name}",
                x.loc,
                "the next step goes on with the side of the node that was not recovered",
            )

    def variable(self, node, side):
        """Which variable each side stands for, as the node itself tells."""
        m = next((m for m in node.methods.values() if "is_left" in m.params()), None)
        if m is None:
            return
        got = {}
        for left in (TRUE, FALSE):
            ev = Evaluator(self.P, budget=60000, inline=lambda *a: False)
            r = ev.run(m, cls=node, selfterm=selfterm(node), args={"is_left": left})
            got[left] = cval(r.args[1]) if r.op == "sub" and is_const(r.args[1]) else None
        ok = None if None in got.values() else got == {TRUE: 0, FALSE: 1}
        self.rep.check(ok, "side", f"{node.name}.{m.name}", m.loc, "the left side of a node is not its first variable")

    def start(self, e, side):
        o, name, v = e.data
        if name not in side or o.op == "self":
            return
        for g, pol in reversed(e.guard):
            if g.op == "sub" and is_const(g.args[1]) and cval(g.args[1]) == 1:
                self.rep.check(
                    pol == (name == side[0]),
                    "side",
                    f"start.{name}",
                    e.loc,
                    "the draw of a variable is put on the side of the other one",
                )
                return

    # clearing --------------------------------------------------------------------------------------------------

    def clearing(self):
        rep = self.rep
        for m in ("score_samples", "sample"):
            f, ev, r = self.runs[m, True]
            work, clear = [], []
            for i, e in enumerate(ev.effects):
                if e.kind == "store" and e.data[1] in ("pseudo_values", "u", "v"):
                    work.append((i, e))
                elif e.kind == "call" and isinstance(e.data[0], T):
                    if name_of(e.data[0]) == "clear_cache":
                        clear.append((i, e))
                    elif name_of(e.data[0]) in ("get_X",):
                        work.append((i, e))
            if not work:
                rep.undecided("cleared", m, f.loc, "no intermediate result found")
                continue
            need = needed(ev, f)
            sure = [i for i, e in clear if all(g.op == "inloop" or (g, p) in need for g, p in e.guard)]
            first, last = work[0][0], work[-1][0]
            full = {i for i, e in clear if dict(e.data[2]).get("clear_count", TRUE) is not FALSE}
            rep.check(
                any(i < first and i in full for i in sure),
                "cleared",
                f"{m}.before",
                work[0][1].loc,
                f"{m} uses intermediate results without clearing those of an earlier call",
            )
            rep.check(
                any(i > last for i in sure),
                "cleared",
                f"{m}.after",
                work[-1][1].loc,
                f"{m} leaves its intermediate results behind",
            )
            # a tree left counting its visits would not propagate data the next time
            flag = [(i, e) for i, e in enumerate(ev.effects) if e.kind == "store" and e.data[1] == "is_count_visits"]
            if flag:
                on = [i for i, e in flag if e.data[2] is TRUE]
                off = [i for i, e in flag if e.data[2] is FALSE]
                if on:
                    rep.check(
                        any(i > max(on) for i in off),
                        "cleared",
                        f"{m}.count",
                        flag[0][1].loc,
                        "the trees are left counting visits instead of propagating data",
                    )
        for c in self.P.classes.values():
            clear = c.methods.get("clear_cache")
            if clear is None or "distribution" not in c.qual or clear.is_abstract:
                continue
            slots = self.written_slots(c)
            if not slots:
                continue
            args = {p: TRUE for p in clear.params()}
            args = {p: v for p, v in args.items() if p != "kwargs"}
            ev = Evaluator(self.P, budget=60000, inline=lambda *a: True)
            ev.run(clear, cls=c, selfterm=selfterm(c), args=args)
            reset = {e.data[1] for e in ev.effects if e.kind == "store" and e.data[0] is selfterm(c) and always(e)}
            for s in sorted(slots):
                rep.check(
                    s in reset,
                    "cleared-all",
                    f"{c.name}.{s}",
                    clear.loc,
                    f"clearing keeps `{s}`, which an earlier call filled",
                )

    def written_slots(self, c):
        """Attributes filled while scoring or sampling: those behind properties that can be set, and plain ones."""
        init = c.methods.get("__init__")
        out = set()
        ev = Evaluator(self.P, budget=60000, inline=lambda *a: False)
        if init is None:
            return out
        ev.run(init, cls=c, selfterm=selfterm(c))
        own = {e.data[1] for e in ev.effects if e.kind == "store" and e.data[0] is selfterm(c)}
        for m in c.methods.values():
            if m.name in ("__init__", "clear_cache"):
                continue
            ev = Evaluator(self.P, budget=60000, inline=lambda *a: False)
            ev.run(m, cls=c, selfterm=selfterm(c))
            if not any(
                e.kind == "call" and isinstance(e.data[0], T) and name_of(e.data[0]) == "partial_derivative" for e in ev.effects
            ):
                continue
            out |= {e.data[1] for e in ev.effects if e.kind in ("store", "aug") and e.data[0] is selfterm(c)}
        if "pseudo_values" in own:
            out.add("pseudo_values")
        return out & own


# helpers -------------------------------------------------------------------------------------------------------


def constant(t):
    return cval(t) if isinstance(t, T) and is_const(t) else None


def mentions(t, me, attr):
    return any(x.op == "attr" and x.args[0] is me and x.args[1] == attr for x in walk(t))


def mentions_input(t, name):
    return any(x.op == "in" and x.args[-1] == name for x in walk(t))


def roots(t):
    """The nodes of the first tree."""
    return (
        t.op == "attr"
        and t.args[1] == "nodes"
        and t.args[0].op == "sub"
        and is_const(t.args[0].args[1])
        and cval(t.args[0].args[1]) == 0
    )


def position(t):
    """Which column an index stands for."""
    if t is None:
        return None
    items = seq_items(t)
    if items is not None and len(items) == 1:
        t = items[0]
    if t.op == "index" and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return t.args[0]
    if t.op == "index" and t.args[1] == 0:
        return t.args[0]
    if t.op == "attr" and t.args[1] in ("ref", "_ref") and t.args[0].op == "elem" and roots(t.args[0].args[0]):
        return t.args[0].args[1]
    if t.op == "elem" and called(t.args[0]) == "range" and len(t.args[0].args[1]) == 1:
        return t.args[1]
    return None


def moved(t):
    """A column next to the one of the asset, or always the same one."""
    items = seq_items(t)
    if items is not None and len(items) == 1:
        t = items[0]
    if is_const(t):
        return isinstance(cval(t), int)
    return t.op == "bin" and t.args[0] in ("+", "-") and position(t.args[1]) is not None and constant(t.args[2]) not in (None, 0)


def kind_test(t):
    """What a test on a conditioning value asks."""
    if called(t) == "isinstance" and len(t.args[1]) == 2 and t.args[1][1].op == "ext" and t.args[1][1].args[0] == "tuple":
        return "range"
    if called(t) == "isscalar":
        return "scalar"
    return None


def member(t):
    """The tests of a choice on whether the two variables of an edge are conditioned on."""
    out = {}
    for x in walk(t):
        if x.op == "cmp" and x.args[0] in ("in", "not in") and x.args[1].op == "sub" and is_const(x.args[1].args[1]):
            if x.args[1].args[0].op == "attr" and x.args[1].args[0].args[1] == "conditioned":
                out.setdefault(cval(x.args[1].args[1]), set()).add(mk("cmp", "in", *x.args[1:]))
    if set(out) != {0, 1} or any(len(v) != 1 for v in out.values()):
        return None
    return tuple(next(iter(out[k])) for k in (0, 1))


def choices(t):
    """The choices of a side that depend on what is conditioned on."""
    if t.op != "phi":
        return
    if any(x.op == "cmp" and x.args[0] in ("in", "not in") for x in spine(t.args[0])):
        yield t
        return
    yield from choices(t.args[1])
    yield from choices(t.args[2])


def spine(c):
    yield c
    if c.op in ("and", "or", "not"):
        for a in c.args:
            yield from spine(a)


def settle(t, known):
    if t.op == "phi":
        c = truth(t.args[0], known)
        return None if c is None else settle(t.args[1] if c else t.args[2], known)
    return t


def truth(t, known):
    if t in known:
        return known[t]
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "cmp" and t.args[0] == "not in":
        c = known.get(mk("cmp", "in", *t.args[1:]))
        return None if c is None else not c
    if t.op == "not":
        c = truth(t.args[0], known)
        return None if c is None else not c
    if t.op in ("and", "or"):
        vals = [truth(a, known) for a in t.args]
        if t.op == "and":
            return False if False in vals else None if None in vals else True
        return True if True in vals else None if None in vals else False
    if t.op == "phi":
        c = truth(t.args[0], known)
        return None if c is None else truth(t.args[1] if c else t.args[2], known)
    return None


def agree(want, have, guard):
    """Whether two reads are of the same value in every case allowed by the guard."""
    conds, todo = [], [want, have]
    while todo:
        t = todo.pop()
        if t.op == "phi":
            if t.args[0] not in conds:
                conds.append(t.args[0])
            todo += t.args[1:]
    known = {}
    free = []
    for c in conds:
        d = decide(c, tuple(guard))
        d = d if isinstance(d, bool) else True if d is TRUE else False if d is FALSE else None
        if d is None:
            free.append(c)
        else:
            known[c] = d
    if len(free) > 4:
        return None
    for bits in range(2 ** len(free)):
        k = dict(known)
        k.update({c: bool(bits >> i & 1) for i, c in enumerate(free)})
        a, b = settle(want, k), settle(have, k)
        if a is None or b is None:
            return None
        if a is not b:
            return False if a.op == b.op == "attr" else None
    return True


def always(e):
    return all(p is True and (is_const(g) or g.op == "inloop") for g, p in e.guard)


def needed(ev, f):
    """The conditions under which the function returns at all."""
    rets = [set(e.guard) for e in ev.effects if e.kind == "return" and e.func is f]
    return set.intersection(*rets) if rets else set()


def text(v):
    if v is None:
        return "an unknown value"
    if isinstance(v, tuple):
        if v[0] in ("x", "u", "v", "low", "high"):
            return {"x": "the data", "u": "the uniform draw", "v": "the value", "low": "the bound", "high": "the bound"}[v[0]]
        if v[0] == "num":
            return str(v[1])
        if v[0] == "infinite":
            return "infinity"
        return f"{v[0]}({', '.join(text(a) for a in v[1:])})"
    return str(v)


def unknown(v):
    return isinstance(v, tuple) and (v[0] == "?" or any(unknown(a) for a in v[1:]))


def value(v, base, z):
    """A column as a formula of the marginal draw."""
    if v == base:
        return z
    if v[0] == "num":
        return A.num(v[1])
    if v[0] == "bin":
        a, b = value(v[2], base, z), value(v[3], base, z)
        return {"+": A.add, "-": A.sub, "*": A.mul, "/": A.div}[v[1]](a, b)
    if v[0] == "exp":
        return A.exp(value(v[1], base, z))
    if v[0] == "expm1":
        return A.sub(A.exp(value(v[1], base, z)), A.ONE)
    if v[0] == "log":
        return A.log(value(v[1], base, z))
    if v[0] == "log1p":
        return A.log(A.add(value(v[1], base, z), A.ONE))
    if v[0] == "neg":
        return A.neg(value(v[1], base, z))
    raise Other


class Column:
    """What a column of a table holds, for an asset with or without the log transformation."""

    def __init__(self, vine, log):
        self.vine, self.log = vine, log

    def read(self, t, pos):
        v = self.vine
        if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            return ("num", Fraction(str(cval(t))))
        if t.op == "phi":
            return self.choice(t, pos)
        n = called(t)
        if n == "validate_data":
            return ("x",)
        if n in SAME:
            return self.read(t.args[1][0] if t.args[1] else (kw(t, "a") or t.args[0].args[0]), pos)
        if n in ("log1p", "exp", "expm1", "log"):
            return (n, self.read(t.args[1][0], pos))
        if n == "where" and len(t.args[1]) == 3:
            c, a, b = t.args[1]
            if v.is_flags(c):
                return self.read(a if self.log else b, pos)
            if c.op == "not" and v.is_flags(c.args[0]) or called(c) == "logical_not" and v.is_flags(c.args[1][0]):
                return self.read(b if self.log else a, pos)
            if c.op == "un" and c.args[0] == "~" and v.is_flags(c.args[1]):
                return self.read(b if self.log else a, pos)
            if c.op == "cmp":
                return (
                    "where",
                    ("cmp", c.args[0], self.read(c.args[1], pos), self.read(c.args[2], pos)),
                    self.read(a, pos),
                    self.read(b, pos),
                )
            raise Other
        if n in JOIN and t.args[1] and t.args[1][0].op == "comp":
            return self.joined(t.args[1][0], pos)
        if t.op == "attr" and t.args[1] == "T" or n == "transpose":
            s = t.args[0] if t.op == "attr" else (t.args[1][0] if t.args[1] else t.args[0].args[0])
            if called(s) in ("stack", "array", "vstack", "asarray") and s.args[1] and s.args[1][0].op == "comp":
                return self.joined(s.args[1][0], pos)
            raise Other
        if n in ("stack",) and constant(kw(t, "axis", 1)) in (1, -1) and t.args[1][0].op == "comp":
            return self.joined(t.args[1][0], pos)
        if t.op == "sub":
            items = seq_items(t.args[1])
            if items is not None and len(items) == 2 and show(items[0]).startswith("slice(None, None, None"):
                if v.is_flags(items[1]):
                    if not self.log:
                        raise Other
                    return self.read(t.args[0], pos)
                p = position(items[1])
                if p is None:
                    if moved(items[1]):
                        return ("other-column", self.read(t.args[0], None))
                    raise Other
                if pos is not None and p != pos:
                    return ("other-column", self.read(t.args[0], p))
                return self.read(t.args[0], p)
            raise Other
        if t.op == "upd":
            items = seq_items(t.args[1])
            if items is not None and len(items) == 2 and v.is_flags(items[1]):
                return self.read(t.args[2] if self.log else t.args[0], pos)
            raise Other
        if t.op == "bin":
            return ("bin", t.args[0], self.read(t.args[1], pos), self.read(t.args[2], pos))
        if t.op == "neg":
            return ("neg", self.read(t.args[0], pos))
        if n in ("cdf", "ppf", "sf", "isf"):
            p = v.position_of_dist(t.args[0].args[0])
            if p is None:
                raise Other
            x = self.read(kw(t, "X", 0), p)
            return (n, x)
        raise Other

    def choice(self, t, pos):
        v = self.vine
        c = t.args[0]
        if called(c) == "any" and c.args[1] and v.is_flags(c.args[1][0]):
            if self.log:
                return self.read(t.args[1], pos)
            a, b = self.read(t.args[1], pos), self.read(t.args[2], pos)
            return a if a == b else ("depends", a, b)
        if called(c) == "all" and c.args[1] and v.is_flags(c.args[1][0]):
            a, b = self.read(t.args[1], pos), self.read(t.args[2], pos)
            return a if a == b else ("depends", a, b)
        a, b = self.read(t.args[1], pos), self.read(t.args[2], pos)
        if a == b:
            return a
        raise Other

    def joined(self, comp, pos):
        """Tables joined from one column per asset."""
        v = self.vine
        kind, elt, iters, conds = comp.args
        if len(iters) != 1 or conds:
            raise Other
        it = iters[0]
        if elt.op == "attr" and elt.args[1] == "pseudo_values" and elt.args[0].op == "elem":
            return ("u",) if roots(elt.args[0].args[0]) else ("?",)
        inner = it.args[1][0] if called(it) in ("enumerate",) and it.args[1] else it
        if v.is_marginals(inner) or called(inner) == "range" or called(inner) == "zip":
            return self.read(elt, None)
        if called(inner) == "reversed":
            return ("reversed", self.read(elt, None))
        raise Other


class Scalar:
    """What a value conditioned on becomes."""

    def __init__(self, vine, key, kind, side, log):
        self.vine, self.key, self.kind, self.side, self.log = vine, key, kind, side, log

    def read(self, t):
        v = self.vine
        t0 = t
        if t.op == "phi":
            c = self.test(t.args[0])
            if c is None:
                a, b = self.read(t.args[1]), self.read(t.args[2])
                if a == b:
                    return a
                raise Other
            return self.read(t.args[1] if c else t.args[2])
        if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            return ("num", cval(t))
        n = called(t)
        if n in ("asarray", "array", "asanyarray", "atleast_1d", "float", "ravel", "squeeze"):
            return self.read(t.args[1][0])
        if n == "full":
            return self.read(kw(t, "fill_value", 1))
        if n == "uniform":
            return ("uniform", self.read(kw(t, "low", 0)), self.read(kw(t, "high", 1)))
        if n == "log1p":
            return ("log1p", self.read(t.args[1][0]))
        if n == "cdf":
            d = t.args[0].args[0]
            if not (d.op == "sub" and v.is_marginals(d.args[0])):
                raise Other
            x = self.read(kw(t, "X", 0))
            return ("cdf", x) if d.args[1] is self.key else ("cdf-of-another-asset", x)
        if n in ("max", "maximum", "min", "minimum") and len(t.args[1]) == 2:
            a, b = (self.read(x) for x in t.args[1])
            lo = n.startswith("max")
            for x, y in ((a, b), (b, a)):
                if y == ("num", 0 if lo else 1):
                    return ("unit", x[1]) if x[0] == "unit" else ("unit", x)
            raise Other
        if n == "clip":
            a, b = kw(t, "a_min", 1), kw(t, "a_max", 2)
            x = self.read(t.args[1][0])
            if a is not None and b is not None and is_const(a) and is_const(b) and 0 <= cval(a) <= 1e-3 and 0.999 <= cval(b) <= 1:
                return ("unit", x)
            raise Other
        if t.op == "neg" and infinite(t.args[0]):
            return ("infinite", "low")
        if infinite(t):
            return ("infinite", "high")
        if t.op == "tuple":
            return ("tuple", *(self.read(x) for x in t.args))
        if t.op == "sub" and is_const(t.args[1]) and cval(t.args[1]) in (0, 1) and self.kind == "range":
            if self.read(t.args[0]) == ("of-another-asset",):
                return ("of-another-asset",)
            end = ("low", "high")[cval(t.args[1])]
            return (end,) if self.side == "finite" else ("infinite", end)
        if t0.op == "sub" and t0.args[1].op == "elem" and t0.args[0].op == "in" and t0.args[1].args[1] == turn(self.key):
            if not ordered(self.key.args[0]):
                return ("of-another-asset",)
        if self.raw(t0):
            if self.kind == "range":
                return ("tuple", ("low",), ("high",))
            return ("v",)
        raise Other

    def raw(self, t):
        """The entry of the conditioning that goes with the asset."""
        return t.op == "sub" and t.args[1].op == "elem" and t.args[0].op == "in" and same_turn(t.args[1], self.key)

    def test(self, c):
        v = self.vine
        if c.op == "not":
            r = self.test(c.args[0])
            return None if r is None else not r
        k = kind_test(c)
        if k == "range":
            return self.kind == "range"
        if k == "scalar":
            return self.kind == "value"
        if c.op == "cmp" and c.args[0] in ("is", "is not") and c.args[2].op == "const" and cval(c.args[2]) is None:
            return c.args[0] == "is not"
        if called(c) in ("isneginf", "isposinf", "isinf"):
            try:
                x = self.read(c.args[1][0])
            except Other:
                return None
            while x[0] in ("log1p",):
                x = x[1]
            if x[0] == "infinite":
                return called(c) == "isinf" or (called(c) == "isneginf") == (x[1] == "low")
            return False
        if called(c) == "isfinite":
            x = self.read(c.args[1][0])
            return x[0] != "infinite"
        if c.op == "sub" and v.is_flags(c.args[0]):
            return self.log if c.args[1] is self.key else None
        return None


def infinite(t):
    return t.op == "ext" and t.args[0] in ("numpy.inf", "math.inf", "numpy.Inf") or is_const(t) and cval(t) == float("inf")


def turn(t):
    return t.args[1] if t.op == "elem" else None


def same_turn(a, b):
    """Two elements taken in the same turn of a loop."""
    return b.op == "elem" and a.args[1] == b.args[1] and ordered(b.args[0])


def ordered(t):
    """A list of assets in the order in which they were given."""
    if called(t) in ("set", "sorted", "unique", "frozenset", "reversed"):
        return False
    if t.op == "loop":
        return ordered(t.args[2])
    return True
