"""C32: price conversion never invents or misaligns returns."""

import itertools
import operator

import sa.algebra as A
from sa.affine import rebuild
from sa.index import AnalysisBroken
from sa.vg import FALSE, NONE, TRUE, Evaluator, T, cval, const, decide, is_const, mk, seq_items, show, walk

INVENT = {"bfill", "backfill", "fillna", "interpolate", "replace", "mask", "where", "combine_first"}
ROWS = {"drop", "dropna"}
FILL = {"ffill", "pad"}
OTHER = {"exp", "expm1", "log2", "log10", "sqrt", "abs", "absolute", "square", "sign", "cbrt", "tanh", "negative", "reciprocal"}
TESTS = {">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne}
SAME = {"copy", "astype", "sort_index", "infer_objects", "convert_dtypes"}


def check(P, rep):
    rep.rule("return", "each return is made of two consecutive prices of one column, in the kind asked for", need=2)
    rep.rule("first", "the row without a previous price is removed", need=1)
    rep.rule("fill", "missing prices are only replaced by earlier ones, and only on request", need=1)
    rep.rule("rows", "rows are removed from assets and factors together", need=1)
    rep.rule("inception", "rows with any missing price are removed only on request", need=0)
    rep.rule("threshold", "the share of missing prices is taken over the columns it is compared with", need=0)
    rep.rule("order", "missing prices are counted before and dropped after they are filled", need=0)
    rep.rule("columns", "each output has the columns of its own input", need=1)
    fs = [f for f in P.funcs.values() if f.name == "prices_to_returns" and f.cls is None]
    if len(fs) != 1:
        raise AnalysisBroken("prices_to_returns not found")
    f = fs[0]
    names = f.params()
    opts = [n for n in ("log_returns", "fill_nan", "drop_inceptions_nan") if n in names]
    for values in itertools.product((True, False), repeat=len(opts) + 1):
        cfg = dict(zip((*opts, "y"), values))
        Prices(P, rep, f, cfg).all()


class Other(Exception):
    """A construct the reader does not follow."""


def meth(t):
    return t.args[0].args[1] if t.op == "call" and t.args[0].op == "meth" else ""


def fn(t):
    return str(t.args[0].args[0]) if t.op == "call" and t.args[0].op == "ext" else ""


def kw(t, name, at=None):
    for k, v in t.args[2]:
        if k == name:
            return v
    return t.args[1][at] if at is not None and len(t.args[1]) > at else None


class Prices:
    def __init__(self, P, rep, f, cfg):
        self.rep, self.f, self.cfg = rep, f, cfg
        args = {k: TRUE if v else FALSE for k, v in cfg.items() if k != "y"}
        if not cfg["y"]:
            args["y"] = NONE
        self.ev = Evaluator(P, budget=100000, inline=lambda *a: True)
        self.r = self.ev.run(f, args=args)
        rep.saw(self.ev)
        self.label = ",".join(k for k, v in cfg.items() if v) or "none"
        y = mk("in", "y")
        for x in (x for e in self.ev.effects for g, _ in e.guard if isinstance(g, T) for x in walk(g)):
            if x.op == "in" and x.args[-1] == "y":
                y = x
        self.facts = ((mk("cmp", "is", y, NONE), False),) if cfg["y"] else ()
        self.memo = {}

    def settle(self, t):
        """The term with the choices between one and two tables made."""

        def f(x):
            if x.op == "phi":
                d = decide(x.args[0], self.facts)
                if d is not None:
                    return x.args[1] if d else x.args[2]
            return x

        return rebuild(t, f, self.memo)

    def results(self):
        if self.cfg["y"]:
            rets = [e for e in self.ev.effects if e.kind == "return" and e.func is self.f]
            for e in rets:
                t = e.data if isinstance(e.data, T) else e.data[0]
                if t.op == "tuple" and len(t.args) == 2:
                    return [("X", t.args[0]), ("y", t.args[1])], e.loc
            return None, self.f.loc
        rets = [e for e in self.ev.effects if e.kind == "return" and e.func is self.f]
        if not rets:
            return None, self.f.loc
        e = rets[-1]
        return [("X", e.data if isinstance(e.data, T) else e.data[0])], e.loc

    def all(self):
        rep = self.rep
        outs, loc = self.results()
        outs = outs and [(w, self.settle(t)) for w, t in outs]
        if outs is None:
            rep.undecided("return", self.label, loc, "the outputs are not recognised")
            return
        tables = []
        for which, t in outs:
            t = self.columns(which, t, loc)
            try:
                kind, skipped, table = self.returns(t)
            except Other:
                rep.undecided("return", f"{which}:{self.label}", loc, "the returns are built in an unknown way")
                continue
            want = "log" if self.cfg.get("log_returns") else "simple"
            rep.check(
                kind == want,
                "return",
                f"{which}:{self.label}",
                loc,
                f"{kind} returns come out where {want} ones are asked for",
            )
            rep.check(skipped, "first", f"{which}:{self.label}", loc, "the first row, which has no return, is kept")
            tables.append((which, table))
        if not tables:
            return
        steps = {w: self.history(t) for w, t in tables}
        if len(steps) == 2:
            rep.check(
                tables[0][1] is tables[1][1] or None,
                "rows",
                self.label,
                loc,
                "assets and factors are taken from tables with different rows",
            )
            base = self.base(tables[0][1])
            rep.check(
                meth(base) in ("join", "merge")
                or fn(base) in ("pandas.concat", "pandas.merge")
                or (None if meth(base) != "copy" else False),
                "rows",
                f"joined:{self.label}",
                loc,
                "rows are not removed from a table holding both assets and factors",
            )
            if meth(base) in ("join", "merge") and "join" in self.f.params():
                how = kw(base, "how", 1)
                rep.check(
                    how is not None and any(x.op == "in" and x.args[-1] == "join" for x in walk(how)),
                    "rows",
                    f"join:{self.label}",
                    loc,
                    "assets and factors are not joined in the way asked for",
                )
        for w, table in tables[:1]:
            self.steps(steps[w], table, loc)

    def columns(self, which, t, loc):
        rep = self.rep
        if not self.cfg["y"]:
            return t
        while t.op == "sub" or t.op == "call" and meth(t) in ("filter", "reindex"):
            c = t.args[1] if t.op == "sub" else kw(t, "columns") or kw(t, "items")
            if t.op != "sub" or c is None or c.op == "slice":
                break
            items = seq_items(c)
            if items is not None and len(items) == 2 and show(items[0]).startswith("slice(None, None"):
                c = items[1]
            owners = {x.args[0].args[-1] for x in walk(c) if x.op == "attr" and x.args[1] == "columns" and x.args[0].op == "in"}
            if not owners:
                break
            head = c.args[2][0] if c.op == "comp" else c
            owner = {x.args[0].args[-1] for x in walk(head) if x.op == "attr" and x.args[1] == "columns" and x.args[0].op == "in"}
            rep.check(
                owner == {which} if len(owner) == 1 else None,
                "columns",
                f"{which}:{self.label}",
                loc,
                f"the returns of `{which}` have the columns of `{', '.join(sorted(owner))}`",
            )
            t = t.args[0]
            if t.op == "attr" and t.args[1] in ("loc",):
                t = t.args[0]
        return t

    def returns(self, t):
        """The kind of return, whether the first row is gone, and the table of prices."""
        skipped, log, other = False, 0, ""
        for _ in range(12):
            if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "iloc":
                s = t.args[1]
                items = seq_items(s)
                s = items[0] if items else s
                if s.op == "slice" and is_const(s.args[0]) and cval(s.args[0]) == 1:
                    if not (is_const(s.args[1]) and cval(s.args[1]) is None):
                        raise Other
                    skipped = True
                    t = t.args[0].args[0]
                    continue
                if s.op == "slice":
                    skipped = skipped or False
                    if is_const(s.args[0]) and cval(s.args[0]) in (None, 0):
                        t = t.args[0].args[0]
                        continue
                raise Other
            if fn(t) == "numpy.log1p":
                log += 1
                t = t.args[1][0]
                continue
            if fn(t).startswith("numpy.") and fn(t)[6:] in OTHER and t.args[1]:
                other = f"{fn(t)[6:]} of "
                t = t.args[1][0]
                continue
            if meth(t) in SAME:
                t = t.args[0].args[0]
                continue
            if meth(t) == "dropna":
                skipped = True
                how = kw(t, "how", 1)
                if how is None and kw(t, "thresh") is None or how is not None and is_const(how) and cval(how) == "any":
                    lost = not self.cfg.get("drop_inceptions_nan", True)
                    self.rep.check(
                        False if lost else None if not self.cfg.get("fill_nan", True) else True,
                        "rows",
                        f"kept:{self.label}",
                        self.f.loc,
                        "rows where only some returns are missing are dropped although drop_inceptions_nan is unset",
                    )
                t = t.args[0].args[0]
                continue
            if meth(t) == "drop" and any(x.op == "attr" and x.args[1] == "index" for x in walk(t)):
                skipped = True
                t = t.args[0].args[0]
                continue
            break
        kind, table = self.prices(t)
        for _ in range(log):
            kind = {"simple": "log", "log": "twice logged"}.get(kind, kind)
        return other + kind, skipped, table

    def prices(self, t):
        if meth(t) == "pct_change":
            periods, axis = kw(t, "periods", 0), kw(t, "axis")
            fm = kw(t, "fill_method", 1)
            if periods is not None and is_const(periods) and cval(periods) != 1:
                return f"{cval(periods)}-period", t.args[0].args[0]
            if axis is not None and is_const(axis) and cval(axis) not in (0, "index", "rows"):
                return "cross-sectional", t.args[0].args[0]
            if fm is None or fm is not NONE and is_const(fm):
                # pandas then fills the missing prices itself
                if not self.cfg.get("fill_nan", True):
                    self.rep.bad(
                        "fill",
                        f"pct_change:{self.label}",
                        t.loc or self.f.loc,
                        "missing prices are filled while computing returns",
                    )
            return "simple", t.args[0].args[0]
        if fn(t) == "numpy.log" and t.args[1]:
            k, table = self.prices(mk("bin", "-", t.args[1][0], const(1)))
            return ("log" if k == "simple" else k), table
        if t.op == "bin" and t.args[0] == "-" and is_const(t.args[2]) and cval(t.args[2]) == 1:
            q = t.args[1]
            if q.op == "bin" and q.args[0] == "/" and meth(q.args[2]) == "shift":
                p, s = q.args[1], q.args[2]
                n = kw(s, "periods", 0)
                if s.args[0].args[0] is not p:
                    return "mixed", p
                if n is not None and is_const(n) and cval(n) != 1:
                    return f"{cval(n)}-period", p
                return "simple", p
        if meth(t) == "diff" and fn(t.args[0].args[0]) == "numpy.log":
            return "log", t.args[0].args[0].args[1][0]
        raise Other

    def before(self, t):
        """The table a table was made of, or None for the first one."""
        if meth(t) == "copy" and t.args[0].args[0].op == "in":
            return None
        if meth(t) in ROWS | FILL | SAME | INVENT:
            return t.args[0].args[0]
        if t.op == "phi":
            # one arm goes further than the other
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if any(x is b for x in walk(a)):
                    return a
        if t.op == "sub" and t.args[1].op in ("cmp", "not", "un"):
            r = t.args[0]
            return r.args[0] if r.op == "attr" and r.args[1] == "loc" else r
        return None

    def chain(self, t):
        out = []
        while t is not None:
            out.append(t)
            t = self.before(t)
        return out

    def base(self, t):
        return self.chain(t)[-1]

    def history(self, t):
        """What was done to a table, in order."""
        out = []
        for x in reversed(self.chain(t)):
            if x.op == "sub":
                out.append(("filter", x, None))
            elif self.before(x) is not None and x.op != "phi":
                out.append((meth(x), x, None))
            for e in self.ev.effects:
                if (
                    e.kind == "call"
                    and isinstance(e.data[0], T)
                    and e.data[0].op == "meth"
                    and self.settle(e.data[0].args[0]) is x
                ):
                    c = self.settle(mk("call", e.data[0], e.data[1], e.data[2], None))
                    if kw(c, "inplace") is TRUE:
                        out.append((e.data[0].args[1], c, e))
        return out

    def steps(self, steps, table, loc):
        rep, cfg = self.rep, self.cfg
        names = [s[0] for s in steps]
        bad = [s for s in steps if s[0] in INVENT]
        rep.check(
            not bad,
            "fill",
            f"invented:{self.label}",
            bad[0][2].loc if bad and bad[0][2] else loc,
            f"missing prices are replaced with `{bad[0][0] if bad else ''}`",
        )
        fills = [i for i, n in enumerate(names) if n in FILL]
        if "fill_nan" in cfg:
            rep.check(
                bool(fills) == cfg["fill_nan"],
                "fill",
                f"fill_nan:{self.label}",
                loc,
                f"missing prices are {'not ' if cfg['fill_nan'] else ''}filled although fill_nan is {cfg['fill_nan']}",
            )
        for i, (n, c, e) in enumerate(steps):
            if n == "filter":
                self.threshold(c, e, table, loc)
                continue
            axis = kw(c, "axis")
            axis = cval(axis) if axis is not None and is_const(axis) else 0 if axis is None else None
            if n in FILL and axis not in (0, "index"):
                rep.check(
                    None if axis is None else False, "fill", f"axis:{self.label}", loc, "missing prices are filled across assets"
                )
            if n == "dropna" and axis in (1, "columns"):
                how = kw(c, "how")
                how = (
                    cval(how) if how is not None and is_const(how) else "any" if how is None and kw(c, "thresh") is None else None
                )
                rep.check(
                    None if how is None else how == "all",
                    "columns",
                    f"dropped:{self.label}",
                    e.loc if e else loc,
                    "assets with some prices are dropped",
                )
            if n == "dropna" and axis in (0, "index"):
                how = kw(c, "how")
                how = (
                    cval(how) if how is not None and is_const(how) else "any" if how is None and kw(c, "thresh") is None else None
                )
                if "drop_inceptions_nan" in cfg and how is not None:
                    rep.check(
                        (how == "any") == cfg["drop_inceptions_nan"],
                        "inception",
                        self.label,
                        e.loc if e else loc,
                        f"rows with {how} missing prices are dropped although drop_inceptions_nan is {cfg['drop_inceptions_nan']}",
                    )
                if fills:
                    rep.check(
                        i > min(fills),
                        "order",
                        f"dropna:{self.label}",
                        e.loc if e else loc,
                        "rows are dropped before their missing prices are filled",
                    )
            if n == "drop" and axis in (0, "index"):
                if fills:
                    rep.check(
                        i < min(fills),
                        "order",
                        f"threshold:{self.label}",
                        e.loc if e else loc,
                        "missing prices are counted after they were filled",
                    )
                self.threshold(c, e, table, loc)

    def threshold(self, c, e, table, loc):
        """The columns counted and the columns compared with."""
        rep = self.rep
        kept = c.op == "sub"
        t = c.args[1] if kept else c.args[1][0] if c.args[1] else kw(c, "index") or kw(c, "labels")
        if t is None:
            return
        where = e.loc if e else loc
        cmps = [x for x in walk(t) if x.op == "cmp" and x.args[0] in (">", ">=", "<", "<=")]
        counts = [x for x in walk(t) if meth(x) in ("isna", "isnull", "notna", "notnull", "count")]
        if len(set(cmps)) != 1 or not counts:
            rep.undecided("threshold", self.label, where, "the threshold has an unknown form")
            return
        for g, pol in e.guard if e else ():
            # left out only when there is nothing to drop
            if isinstance(g, T) and g.op == "cmp" and g.args[0] in TESTS and fn(g.args[1]) == "len" and is_const(g.args[2]):
                if any(x is cmps[0] for x in walk(g.args[1])):
                    rep.check(
                        TESTS[g.args[0]](1, cval(g.args[2])) is pol,
                        "threshold",
                        f"each:{self.label}",
                        where,
                        "a single row above the threshold is not dropped",
                    )
        op, a, b = cmps[0].args
        if not any(x in counts for x in walk(a)):
            op, a, b = {">": "<", "<": ">", ">=": "<=", "<=": ">="}[op], b, a
        present = any(meth(x) in ("notna", "notnull", "count") for x in counts)
        if kept != any(x.op in ("not", "un") and x.args[-1] is cmps[0] for x in walk(t)):
            op = {">": "<=", "<": ">=", ">=": "<", "<=": ">"}[op]
        if not present:
            rep.check(
                op == ">",
                "threshold",
                f"above:{self.label}",
                where,
                f"rows are dropped when the missing share is `{op}` the threshold",
            )
        self.share(a, b, present, where)
        counted = self.owner(counts[0].args[0].args[0])
        share = any(meth(x) == "mean" for x in walk(a))
        against = {o for o in (self.owner(x.args[0].args[0]) for x in walk(b) if shape1(x)) if o}
        if share:
            against = {counted}
        if counted is None or len(against) != 1:
            rep.undecided("threshold", f"columns:{self.label}", where, "the columns counted are not recognised")
            return
        (against,) = against
        rep.check(
            counted == against,
            "threshold",
            f"columns:{self.label}",
            where,
            f"missing prices are counted over the columns of {text(counted)} but compared with the number of columns of {text(against)}",
        )

    def share(self, a, b, present, where):
        """What the missing prices are compared with is the threshold times their number."""
        n, s = A.sym("n"), A.sym("s")

        def read(t):
            if is_const(t) and isinstance(cval(t), int | float):
                return A.num(cval(t))
            if t.op == "in" and t.args[-1] == "nan_threshold" or fn(t) == "float" and t.args[1]:
                return s if t.op == "in" else read(t.args[1][0])
            if shape1(t):
                return n
            if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
                return A.sym("rows")
            if fn(t) == "len" and t.args[1]:
                x = t.args[1][0]
                return n if x.op == "attr" and x.args[1] == "columns" else A.sym("rows")
            if t.op == "bin" and t.args[0] in "+-*/":
                return {"+": A.add, "-": A.sub, "*": A.mul, "/": A.div}[t.args[0]](read(t.args[1]), read(t.args[2]))
            raise A.Unsupported("limit")

        try:
            got = read(b)
        except A.Unsupported:
            return
        parts = any(meth(x) == "mean" for x in walk(a))
        if a.op == "bin":
            return
        want = A.sub(A.num(1), s) if present else s
        want = want if parts else A.mul(n, want)
        box = {"n": (10, 10), "s": (0.25, 0.25), "rows": (1000, 1000)}
        self.rep.check(
            A.equal(got, want, [box]),
            "threshold",
            f"limit:{self.label}",
            where,
            f"the missing prices of a row are compared with {A.text(got)}, not {A.text(want)}",
        )

    def owner(self, t):
        """Whose columns a table has."""
        if t.op == "in":
            return t.args[-1]
        if t.op == "sub":
            cols = {
                x.args[0].args[-1] for x in walk(t.args[1]) if x.op == "attr" and x.args[1] == "columns" and x.args[0].op == "in"
            }
            return next(iter(cols)) if len(cols) == 1 else None
        if meth(t) in ROWS | FILL | SAME:
            return self.owner(t.args[0].args[0])
        if meth(t) in ("join", "merge"):
            return "X+y"
        return None


def shape1(t):
    return (
        t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and cval(t.args[1]) == 1
    )


def text(o):
    return {"X": "the assets", "y": "the factors", "X+y": "assets and factors"}.get(o, str(o))
