"""C29: cluster-based allocations stay fully invested and within bounds."""

from fractions import Fraction

from sa.affine import form
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.poly import MAX, MIN, Reader, Unknown, entails, feasible, name, number
from sa.vg import Evaluator, T, cval, guard_atoms, is_const, mk, seq_items, show, walk

STATS = {"numpy.min": "least", "numpy.amin": "least", "min": "least", "numpy.mean": "mean", "numpy.max": "most", "max": "most"}
BOUNDS = ("min_weights", "max_weights")
PIECEWISE = MIN | MAX | {"numpy.clip"}


def check(P, rep):
    rep.rule("shares", "the two shares of a split add up to one and are not negative", need=1)
    rep.rule("parts", "the two sides of a split are the two parts of one cluster", need=0)
    rep.rule("within", "user bounds hold at every split, or on the final weights", need=1)
    rep.rule("defined", "a split never divides by a weight that may be zero", need=0)
    rep.rule("rejected", "bounds that no weights can meet are rejected before allocating", need=4)
    rep.rule("start", "the weight to split starts at one", need=0)
    rep.rule("inside", "weights inside a cluster add up to one and lie on its own assets", need=0)
    rep.rule("combine", "each cluster's weight multiplies the assets of that cluster", need=0)
    rep.rule("nested", "outer weights multiply the inner weights of the cluster they were computed for", need=0)
    base = P.cls("BaseHierarchicalOptimization")
    todo = [c for c in P.classes.values() if c is not base and base in c.repo_mro() and not c.is_abstract()]
    if len(todo) < 2:
        raise AnalysisBroken("the hierarchical optimisations were not found")
    for c in sorted(todo, key=lambda c: c.qual):
        Tree(P, rep, c).all()
    nested = P.cls("NestedClustersOptimization")
    Nested(P, rep, nested).all()


def fn(t):
    return str(t.args[0].args[0]) if t.op == "call" and t.args[0].op == "ext" else ""


def meth(t):
    return t.args[0].args[1] if t.op == "call" and t.args[0].op == "meth" else ""


class Run:
    def __init__(self, P, rep, c):
        self.rep, self.c = rep, c
        f = c.find_method("fit")
        self.ev = Evaluator(P, budget=600000, inline=lambda *a: True)
        self.ev.run(f, cls=c, selfterm=selfterm(c))
        rep.saw(self.ev)
        self.loc = f.loc
        self.final = [e for e in self.ev.effects if e.kind == "store" and e.data[1] == "weights_" and e.data[0].op == "self"]
        self.cache = {}

    def kinds(self, t):
        """Which of the bounds a term is made of."""
        if id(t) not in self.cache:
            k = {x.args[1] for x in walk(t) if x.op == "attr" and x.args[1] in BOUNDS}
            self.cache[id(t)] = (t, k)
        return self.cache[id(t)][1]


class Tree(Run):
    def all(self):
        rep, name_ = self.rep, self.c.name
        self.found = self.splits()
        if not self.found:
            rep.undecided("shares", name_, self.loc, "no split is recognised")
        bounded = [self.split(i, *s) for i, s in enumerate(self.found)]
        for e in self.final:
            self.end(e.data[2], tuple(e.guard), e.loc, bounded)
        self.rejected()
        self.inside()

    # splits

    def scalings(self):
        """(effect, array, key, factor) of every in-place scaling of a part of an array."""
        out = []
        for e in self.ev.effects:
            if e.kind == "aug" and e.data[1] == "*" and e.data[3] is not None and e.data[5] is not None:
                out.append((e, e.data[3], e.data[5], e.data[2]))
            elif e.kind == "setitem" and isinstance(e.data[2], T) and e.data[2].op == "bin" and e.data[2].args[0] == "*":
                o, k, v = e.data[:3]
                for a, b in ((1, 2), (2, 1)):
                    if v.args[a].op == "sub" and v.args[a].args[0] is o and v.args[a].args[1] is k:
                        out.append((e, o, k, v.args[b]))
                        break
        return out

    def splits(self):
        groups = {}
        for e, o, k, f in self.scalings():
            groups.setdefault((id(e.func), e.guard), []).append((e, o, k, f))
        out, seen = [], set()
        for g in groups.values():
            if len(g) == 1:
                self.scaled(*g[0])
                continue
            for a, b in zip(g[::2], g[1::2]):
                if (a[0].loc, b[0].loc) not in seen:
                    seen.add((a[0].loc, b[0].loc))
                    out.append((a, b))
        return out

    def atom(self, array, left, right, quotients, total):
        def f(t):
            if t.op == "sub" and t.args[0] is array and any(x is left or x is right for x in walk(t.args[1])):
                return number(total)
            k = self.kinds(t)
            if len(k) == 1:
                x = None
                if fn(t) in ("numpy.sum", "sum") and t.args[1]:
                    x = t.args[1][0]
                elif meth(t) == "sum" and not t.args[1]:
                    x = t.args[0].args[0]
                if x is not None and x.op == "sub":
                    side = "left" if x.args[1] is left else "right" if x.args[1] is right else None
                    if side:
                        (b,) = k
                        return name(f"{b[:3]}_{side}")
                y = t.args[1][0] if fn(t) in STATS and t.args[1] else None
                if y is not None and y.op == "sub" and (y.args[1] is left or y.args[1] is right):
                    (b,) = k
                    return name(f"{b[:3]}_{'left' if y.args[1] is left else 'right'}_{STATS[fn(t)]}")
            if is_const(t):
                return None
            if not k and not any(x is array for x in walk(t)):
                if t.op == "bin" and t.args[0] == "/":
                    return self.quotient(t, quotients)
                if t.op not in ("bin", "un", "neg", "phi") and not fn(t):
                    return name(f"risk{quotients.setdefault(t, len(quotients))}")
            return None

        return f

    def quotient(self, t, quotients):
        x, d = t.args[1], t.args[2]
        if d.op == "bin" and d.args[0] == "+" and (x is d.args[1] or x is d.args[2]):
            y = d.args[2] if x is d.args[1] else d.args[1]
            for (u, v), n in list(quotients.items() if quotients else []):
                if u is y and v is x:
                    return number(1) - name(n)
            n = quotients.setdefault((x, y), f"share{len(quotients)}")
            return name(n)
        n = quotients.setdefault((t, None), f"quotient{len(quotients)}")
        return name(n)

    def split(self, i, a, b):
        (ea, array, left, fl), (_, _, right, fr) = a, b
        label = f"{self.c.name}:{i}"
        bounded = bool(self.kinds(fl) or self.kinds(fr))
        for total in (Fraction(1), Fraction(1, 2)) if bounded else (Fraction(1),):
            if not self.amounts(label, array, left, right, fl, fr, ea.loc, total):
                break
        self.parts(label, left, right, ea.loc)
        self.defined(label, array, fl, fr, ea)
        self.start(label, array, ea.loc)
        return bounded

    def amounts(self, label, array, left, right, fl, fr, loc, total):
        """Check the shares when a given weight is split; whether they were found right."""
        rep = self.rep
        quotients = {}
        reader = Reader(self.atom(array, left, right, quotients, total))
        one = number(1)
        fine = True
        try:
            both = [(c, f) for c, f in reader.cases(mk("bin", "+", fl, fr)) if feasible(c)]
            lefts, rights = reader.cases(fl), reader.cases(fr)
            names = {k for cs in (lefts, rights) for c, f in cs for g in [f, *[x for x, _ in c]] for k in g.d if k}
            sure = not any(n.startswith(("risk", "quotient")) for n in names)
            bounded = any(n.startswith(("min_", "max_")) for n in names)
            domain = self.domain(names, bounded, total)
            off = [f for c, f in both if not (entails(c, f - one) and entails(c, one - f))]
            rep.check(
                True if not off else False if sure else None,
                "shares",
                f"{label}:sum",
                loc,
                f"the two shares add up to {off[0] if off else ''} instead of one",
            )
            fine = not off
            for side, cs in (("left", lefts), ("right", rights)):
                goals = [("shares", "zero", lambda f: f, "is negative")]
                if bounded:
                    goals += [
                        (
                            "within",
                            "min",
                            lambda f, s=side: f.scale(total) - name(f"min_{s}"),
                            "is below the smallest weight allowed",
                        ),
                        (
                            "within",
                            "max",
                            lambda f, s=side: name(f"max_{s}") - f.scale(total),
                            "is above the largest weight allowed",
                        ),
                    ]
                for rule, what, goal, text in goals:
                    bad = [f for c, f in cs if feasible(domain + c) and not entails(domain + c, goal(f))]
                    fine = fine and not bad
                    rep.check(
                        True if not bad else False if sure else None,
                        rule,
                        f"{label}:{side}:{what}",
                        loc,
                        f"the {side} share of {total} can be {bad[0] if bad else ''}, which {text} for that side",
                    )
        except Unknown:
            rep.undecided("shares", label, loc, "the shares have an unknown form")
            return False
        return fine

    def domain(self, names, bounded, total):
        one = number(total)
        out = []
        if bounded:
            lo = {s: name(f"min_{s}") for s in ("left", "right")}
            hi = {s: name(f"max_{s}") for s in ("left", "right")}
            for s in ("left", "right"):
                out += [(lo[s], False), (hi[s] - lo[s], False)]
                # of two assets
                half = Fraction(1, 2)
                for b, x in (("min", lo[s]), ("max", hi[s])):
                    y = name(f"{b}_{s}_least")
                    out += [(y, False), (x.scale(half) - y, False)]
                    y = name(f"{b}_{s}_mean")
                    out += [(y - x.scale(half), False), (x.scale(half) - y, False)]
                    y = name(f"{b}_{s}_most")
                    out += [(y - x.scale(half), False), (x - y, False)]
            out += [(one - lo["left"] - lo["right"], False), (hi["left"] + hi["right"] - one, False)]
        else:
            for n in names:
                if n.startswith("share"):
                    out += [(name(n), False), (number(1) - name(n), False)]
        return out

    def parts(self, label, left, right, loc):
        rep = self.rep
        if left is right:
            rep.bad("parts", label, loc, "both shares multiply the same assets")
            return
        pairs = list(zip(self.variants(left), self.variants(right)))
        verdict, why = None, "the parts are not recognised"
        for a, b in pairs:
            if a.op == b.op == "sub" and a.args[1].op == b.args[1].op == "slice" and a.args[0] is b.args[0]:
                verdict, why = self.slices(a, b)
            elif (la := grown(a)) and (lb := grown(b)):
                verdict, why = self.trees(la, lb)
        rep.check(verdict, "parts", label, loc, why)

    def variants(self, t):
        """What an item of a generator of pairs can be."""
        if t.op == "sub" and is_const(t.args[1]) and t.args[0].op == "elem" and t.args[0].args[0].op == "gen":
            for x in walk(t.args[0].args[0]):
                items = seq_items(x) if x.op in ("list", "tuple") else None
                if items is not None and len(items) == 2 and cval(t.args[1]) in (0, 1):
                    return [items[cval(t.args[1])]]
        return [t]

    def slices(self, a, b):
        e, (a0, a1, a2), (b0, b1, b2) = a.args[0], a.args[1].args, b.args[1].args
        n = mk("call", mk("ext", "len"), (e,), (), None)

        def is_none(x):
            return is_const(x) and cval(x) is None

        if not (is_none(a2) and is_none(b2)):
            return None, "the parts have a step"
        if not is_none(a0) and not (is_const(a0) and cval(a0) == 0):
            return (False if is_const(a0) else None), "the first asset of the cluster is in no part"
        if not is_none(b1) and not any(x.op == "call" and fn(x) == "len" and x.args[1][0] is e for x in [b1]):
            return None, f"the parts do not reach the end of the cluster ({show(n)[:20]})"
        gap = form(b0) - form(a1)
        if gap and set(gap) - {None}:
            return None, "the parts are not recognised"
        return not gap, "the parts overlap or leave assets out"

    def trees(self, la, lb):
        """Each side collects the clusters below its own child of the node."""
        (ta, ca), (tb, cb) = la, lb
        sides = []
        for conds in (ca, cb):
            s = set()
            for c, pol in conds:
                if pol:
                    s |= {(meth(x), x.args[0].args[0]) for x in walk(c) if meth(x) in ("get_left", "get_right")}
            sides.append(s)
        if len(sides[0]) != 1 or len(sides[1]) != 1:
            if ta is not tb:
                return None, ""
            # nested nodes: look at the outermost call only
            return None, "the parts are not recognised"
        ((m1, n1),), ((m2, n2),) = sides
        return m1 != m2 and n1 is n2, "both sides are made of the clusters of the same branch"

    def defined(self, label, array, fl, fr, e):
        """Divisions by the weight that is split, and whether zero was excluded."""
        bad, some = None, False

        def zero(c, pol):
            # facts that exclude a zero weight
            if c.op == "cmp" and any(is_const(x) and cval(x) == 0 for x in c.args[1:]):
                op = c.args[0]
                return op == "==" and not pol or op in ("!=", ">") and pol or op in ("<=",) and not pol
            if c.op == "sub" and c.args[0] is array:
                return pol
            return False

        def rec(t, facts, seen):
            nonlocal bad, some
            if (id(t), facts) in seen or not isinstance(t, T):
                return
            seen.add((id(t), facts))
            if t.op == "bin" and t.args[0] == "/":
                d = t.args[2]
                if d.op == "sub" and d.args[0] is array:
                    some = True
                    if not any(zero(c, p) for g, p in facts for c, p in guard_atoms(g, p) if about(c, array)):
                        bad = t
            if t.op == "phi":
                rec(t.args[0], facts, seen)
                rec(t.args[1], (*facts, (t.args[0], True)), seen)
                rec(t.args[2], (*facts, (t.args[0], False)), seen)
                return
            for a in t.args:
                for x in a if isinstance(a, tuple) else (a,):
                    if isinstance(x, T) and x.op not in ("loop", "prev"):
                        rec(x, facts, seen)

        for f in (fl, fr):
            rec(f, tuple(g for g in e.guard if isinstance(g[0], T)), set())
        if some:
            self.rep.check(
                bad is None,
                "defined",
                label,
                e.loc,
                "the bounds are divided by the weight of the cluster, which is zero when the bounds exclude it",
            )

    def start(self, label, array, loc):
        t = array
        for _ in range(50):
            if t.op == "upd":
                t = t.args[0]
            elif t.op in ("prev", "loop"):
                t = t.args[2]
            else:
                break
        n = fn(t)
        verdict = None
        if n == "numpy.ones":
            verdict = True
        elif n in ("numpy.zeros", "numpy.empty"):
            verdict = False
        elif n == "numpy.full" and len(t.args[1]) > 1 and is_const(t.args[1][1]):
            verdict = cval(t.args[1][1]) == 1
        self.rep.check(verdict, "start", label, loc, f"the weights that are split start from `{show(t)[:60]}`")

    def scaled(self, e, array, key, factor):
        """A part of the weights times the weight of its cluster."""
        if key.op != "elem":
            return
        it, tag = key.args
        if factor.op == "sub" and factor.args[1].op == "index":
            self.rep.check(
                factor.args[1].args[0] == tag,
                "combine",
                self.c.name,
                e.loc,
                "a cluster is multiplied by the weight of another cluster",
            )
        elif factor.op == "sub" and factor.args[1].op == "sub" and factor.args[1].args[1].op == "index":
            of, i = factor.args[1].args
            if i.args[0] == tag and any(x.op == "attr" and x.args[1] == "labels_" for x in walk(of)):
                self.rep.bad("combine", self.c.name, e.loc, "the number of a cluster is used as the number of an asset")
        elif factor.op == "sub" and is_const(factor.args[1]):
            self.rep.bad("combine", self.c.name, e.loc, "every cluster is multiplied by the weight of one cluster")

    def inside(self):
        """The weights inside a cluster: normalised, and on the assets of the cluster."""
        seen = set()
        for e in self.ev.effects:
            if e.kind != "setitem" or e.data[1].op != "elem" or e.loc in seen:
                continue
            key, v = e.data[1], e.data[2]
            if not isinstance(v, T) or v.op != "sub" or v.args[0].op != "bin" or v.args[0].args[0] != "/":
                continue
            seen.add(e.loc)
            num, den = v.args[0].args[1:3]
            total = meth(den) == "sum" and den.args[0].args[0] or fn(den) in ("numpy.sum", "sum") and den.args[1][0]
            own = num.op == "upd" and num.args[1] is key and fn(num.args[0]) in ("numpy.zeros", "numpy.zeros_like")
            self.rep.check(
                v.args[1] is key and total is num and own or (None if not total else False),
                "inside",
                self.c.name,
                e.loc,
                "the weights inside a cluster are not its own weights divided by their sum",
            )

    # the end

    def end(self, t, facts, loc, bounded):
        rep = self.rep
        if t.op == "phi":
            self.end(t.args[1], (*facts, (t.args[0], True)), loc, bounded)
            self.end(t.args[2], (*facts, (t.args[0], False)), loc, bounded)
            return
        solved = {x.args[0] for x in walk(t) if x.op == "attr" and x.args[1] == "value" and fn(x.args[0]) == "cvxpy.Variable"}
        if len(solved) == 1:
            self.problem(solved.pop(), loc)
            return
        if self.found and bounded and all(bounded):
            rep.ok("within", f"{self.c.name}:final")
            return
        known = []
        for g, p in facts:
            if isinstance(g, T):
                known += self.elementwise(g, p, t)
        label = f"{self.c.name}:unchanged"
        for what, goal in (("min", name("w") - name("min")), ("max", name("max") - name("w"))):
            rep.check(
                entails(known, goal) if self.found else None,
                "within",
                f"{label}:{what}",
                loc,
                f"weights are returned without being within `{what}_weights`",
            )

    def names(self, t, w):
        k = self.kinds(t)
        if t is w:
            return name("w")
        if t.op not in ("bin", "un", "neg") and len(k) == 1 and fn(t) not in PIECEWISE:
            return name(next(iter(k))[:3])
        if not k and t.op not in ("bin", "un", "neg", "const") and fn(t) not in PIECEWISE:
            return name(f"other{id(t)}")
        return None

    def elementwise(self, c, pol, w):
        """Facts about each weight from a condition on all of them."""
        if c.op == "not":
            return self.elementwise(c.args[0], not pol, w)
        inner = None
        if fn(c) in ("numpy.all", "all") and pol or fn(c) in ("numpy.any", "any") and not pol:
            inner = c.args[1][0]
        elif meth(c) == "all" and pol or meth(c) == "any" and not pol:
            inner = c.args[0].args[0]
        if inner is not None:
            return self.elementwise(inner, pol, w)
        if c.op in ("and", "or"):
            if (c.op == "and") == pol:
                return [x for a in c.args for x in self.elementwise(a, pol, w)]
            return []
        if c.op == "bin" and c.args[0] in ("&", "|"):
            if (c.args[0] == "&") == pol:
                return [x for a in c.args[1:3] for x in self.elementwise(a, pol, w)]
            return []
        if fn(c) in ("numpy.logical_and", "numpy.logical_or"):
            if (fn(c) == "numpy.logical_and") == pol:
                return [x for a in c.args[1] for x in self.elementwise(a, pol, w)]
            return []
        if c.op == "un" and c.args[0] == "~":
            return self.elementwise(c.args[1], not pol, w)
        if c.op == "cmp":
            pos, neg = Reader(lambda t: self.names(t, w)).condition(c)
            return list((pos if pol else neg) or [])
        return []

    @staticmethod
    def facts(c, atom):
        """What a constraint says, as a list of alternatives."""
        if c.op != "cmp" or c.args[0] not in ("<=", ">=", "<", ">", "=="):
            raise Unknown
        op, a, b = c.args
        out = []
        for cond, f in Reader(atom).cases(mk("bin", "-", a, b)):
            g = f.scale(-1)
            out.append(cond + ([(f, False)] if op in (">=", ">") else [(g, False)] if op != "==" else [(f, False), (g, False)]))
        return out

    def problem(self, var, loc):
        """The constraints of the problem whose solution is returned."""
        rep = self.rep
        calls = [
            e
            for e in self.ev.effects
            if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op == "ext" and e.data[0].args[0] == "cvxpy.Problem"
        ]
        calls = [e for e in calls if any(x is var for a in e.data[1] for x in walk(a))]
        label = f"{self.c.name}:problem"
        if len(calls) != 1:
            rep.undecided("within", label, loc, "the problem solved is not recognised")
            return
        e = calls[0]
        cons = e.data[1][1] if len(e.data[1]) > 1 else dict(e.data[2]).get("constraints")
        items = seq_items(cons) if cons is not None else []
        if items is None:
            rep.undecided("within", label, e.loc, "the constraints are not recognised")
            return

        def atom(t):
            if t.op == "call" and fn(t) in ("cvxpy.sum", "sum") and t.args[1] and t.args[1][0] is var:
                return name("sum")
            if meth(t) == "sum" and t.args[0].args[0] is var:
                return name("sum")
            return self.names(t, var)

        known = [[]]
        for c in items:
            try:
                known = [a + b for a in known for b in self.facts(c, atom)]
            except Unknown:
                rep.undecided("within", label, e.loc, "a constraint is not recognised")
                return
        one = number(1)
        for what, goal, text in (
            ("min", name("w") - name("min"), "the smallest weights allowed"),
            ("max", name("max") - name("w"), "the largest weights allowed"),
            ("sum", name("sum") - one, "a total of one"),
            ("total", one - name("sum"), "a total of one"),
        ):
            rep.check(
                all(entails(k, goal) for k in known), "within", f"{label}:{what}", e.loc, f"the final weights are not constrained to {text}"
            )

    # validation

    WANTED = {
        ("min", "<", "0"): "negative `min_weights`",
        ("sum max", "<", "1"): "`max_weights` that add up to less than one",
        ("min", ">", "max"): "`min_weights` above `max_weights`",
        ("sum min", ">", "1"): "`min_weights` that add up to more than one",
    }

    def rejected(self):
        found = set()
        stores = [self.ev.effects.index(e) for e in self.final]
        last = max(stores) if stores else len(self.ev.effects)
        for i, e in enumerate(self.ev.effects):
            if e.kind == "raise" and i < last:
                for g, p in e.guard[-2:]:
                    if isinstance(g, T):
                        for c, q in guard_atoms(g, p):
                            found |= self.reason(c, q)
        for k, text in self.WANTED.items():
            about = {x for x in ("min", "max") if x in " ".join(k)}
            open_ = any(x[0] == "?" and x[1] == about and x[2] == ("sum" in " ".join(k)) for x in found)
            ok = any(x[0] == k for x in found) or (None if open_ else False)
            self.rep.check(ok, "rejected", f"{self.c.name}:{' '.join(k)}", self.loc, f"{text} are not rejected")

    def reason(self, c, pol):
        if c.op == "not":
            return self.reason(c.args[0], not pol)
        if fn(c) in ("numpy.any", "any") and pol or fn(c) in ("numpy.all", "all") and not pol:
            return self.reason(c.args[1][0], pol)
        if meth(c) == "any" and pol or meth(c) == "all" and not pol:
            return self.reason(c.args[0].args[0], pol)
        if c.op in ("and", "or"):
            return {x for a in c.args for x in self.reason(a, pol)}
        if c.op != "cmp" or c.args[0] not in ("<", "<=", ">", ">="):
            return set()
        op, a, b = c.args
        if not pol:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        try:
            d = combine(self.side(a), self.side(b), -1)
        except Unknown:
            total = any(fn(x) in SUMS or meth(x) in ("sum", "mean") for y in (a, b) for x in walk(y))
            return {("?", frozenset(k[:3] for k in self.kinds(a) | self.kinds(b)), total)}
        return {(name, op) for name in self.WANTED if matches(d, op[0], *name)}

    def side(self, t):
        """Multiples of the bounds and of their sums, with a constant under the key ''."""
        if is_const(t):
            if isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
                return {"": float(cval(t))}
            raise Unknown
        if t.op == "neg":
            return combine({}, self.side(t.args[0]), -1)
        if t.op == "bin" and t.args[0] in ("+", "-"):
            return combine(self.side(t.args[1]), self.side(t.args[2]), 1 if t.args[0] == "+" else -1)
        if t.op == "bin" and t.args[0] in ("*", "/"):
            a, b = self.side(t.args[1]), self.side(t.args[2])
            if t.args[0] == "*" and not set(a) - {""}:
                a, b = b, a
            if set(b) - {""} or t.args[0] == "/" and not b.get(""):
                raise Unknown
            f = b.get("", 0.0)
            return {k: v * f if t.args[0] == "*" else v / f for k, v in a.items()}
        k = self.kinds(t)
        if len(k) != 1:
            raise Unknown
        (k,) = k
        if fn(t) in ("numpy.sum", "sum") and t.args[1] or meth(t) == "sum":
            d = self.side(t.args[1][0] if fn(t) else t.args[0].args[0])
            if "" in d or any(x.startswith("sum ") for x in d):
                raise Unknown
            return {f"sum {x}": v for x, v in d.items()}
        return {k[:3]: 1.0}


SUMS = ("numpy.sum", "sum", "math.fsum", "numpy.mean")


def combine(a, b, sign):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0.0) + sign * v
    return {k: v for k, v in out.items() if v or k == ""}


def matches(d, op, left, want, right):
    """Whether `d op 0` says `left want right`, but for a small tolerance."""
    goal = combine({left: 1.0}, {"": float(right)} if right.isdigit() else {right: 1.0}, -1)
    keys = set(goal) | set(d)
    for s, o in ((1, op), (-1, {"<": ">", ">": "<"}[op])):
        if o == want and (f := s * d.get(left, 0.0)) > 0:
            if all(abs(s * d.get(k, 0.0) / f - goal.get(k, 0.0)) <= 1e-3 for k in keys):
                return True
    return False


def about(c, array):
    return any(x is array for x in walk(c))


def grown(t):
    """(loop tag, conditions) under which a list is extended in a loop, through array conversions."""
    while t.op == "call" and fn(t) in ("numpy.array", "numpy.asarray", "list") and t.args[1]:
        t = t.args[1][0]
    if t.op != "loop":
        return None
    conds, b = [], t.args[3]
    for _ in range(10):
        if b.op == "phi":
            c, x, y = b.args
            if any(z.op == "cat" for z in walk(x)) and not any(z.op == "cat" and z.args[0].op == "prev" for z in walk(y)):
                conds.append((c, True))
                b = x
            else:
                conds.append((c, False))
                b = y
            continue
        break
    return (t.args[0], conds) if b.op == "cat" else None


class Nested(Run):
    def all(self):
        rep, label = self.rep, self.c.name
        if len(self.final) != 1:
            rep.undecided("nested", label, self.loc, "the final weights are not recognised")
            return
        e = self.final[0]
        t = e.data[2]
        rows = self.rows(t)
        if rows is None:
            rep.undecided("nested", label, e.loc, "the final weights are not a product of outer and inner weights")
            return
        outer, loop = rows
        tag = loop.args[0]
        body = loop.args[3]
        items = seq_items(body.args[1]) if body.op == "cat" else None
        if not items or len(items) != 1:
            rep.undecided("nested", f"{label}:rows", e.loc, "the inner weights are not recognised")
            return
        its = {x.args[0] for x in walk(items[0]) if x.op == "elem" and x.args[1] == tag}
        if len(its) != 1:
            rep.undecided("nested", f"{label}:rows", e.loc, "the clusters are not recognised")
            return
        (clusters,) = its
        self.covered(clusters, e.loc)
        self.own_columns(clusters)
        self.row(items[0], clusters, tag, e.loc, ())
        # the order in which the outer optimisation sees the clusters
        for c in self.ev.effects:
            if c.kind == "call" and isinstance(c.data[0], T) and c.data[0].op == "meth" and c.data[0].args[1] == "fit":
                if c.data[0].args[0] is not outer or not c.data[1]:
                    continue
                x = unwrap(c.data[1][0])
                seen = set()
                if x.op == "loop" and x.args[3].op == "cat":
                    seen = {y.args[0] for y in walk(x.args[3].args[1]) if y.op == "elem" and y.args[1] == x.args[0]}
                rep.check(
                    clusters in seen if len(seen) == 1 else None,
                    "nested",
                    f"{label}:columns",
                    c.loc,
                    "the outer optimisation sees the clusters in another order than their inner weights",
                )

    def covered(self, clusters, loc):
        """Every label names a cluster, from zero to the largest one."""
        if clusters.op != "comp" or len(clusters.args[2]) != 1:
            return
        it = clusters.args[2][0]
        if fn(it) != "range" or len(it.args[1]) > 2:
            return
        a = it.args[1]
        ok = not (len(a) == 2 and is_const(a[0]) and cval(a[0]) != 0)
        n, extra = a[-1], 0
        if n.op == "bin" and n.args[0] in ("+", "-") and is_const(n.args[2]):
            n, extra = n.args[1], cval(n.args[2]) * (1 if n.args[0] == "+" else -1)
        if not any(x.op == "attr" and x.args[1] == "labels_" for x in walk(n)):
            return
        if fn(n) in ("max", "numpy.max", "numpy.amax") or meth(n) == "max":
            ok = ok and extra == 1
        elif fn(n) == "len" or n.op == "attr" and n.args[1] in ("size", "n_clusters_"):
            ok = ok and extra == 0
        else:
            return
        self.rep.check(ok, "nested", f"{self.c.name}:every-label", loc, "the assets of one of the clusters are left out")

    def own_columns(self, clusters):
        """Inner optimisations see the columns of their own cluster, and nothing else."""

        def own(t):
            return t.op == "elem" and t.args[0] is clusters

        for e in self.ev.effects:
            if e.kind != "call" or e.data[0].op != "meth" or e.data[0].args[1] not in ("fit", "predict"):
                continue
            recv, data = e.data[0].args[0], [*e.data[1], *[v for k, v in e.data[2] if k == "X"]]
            if not data or not any(x.op == "attr" and x.args[1] == "inner_estimator" for x in walk(recv, into_cond=False)):
                continue
            columns = rows = False
            for x in walk(data[0], into_cond=False):
                if x.op == "sub" and x.args[1].op == "tuple":
                    key = seq_items(x.args[1]) or ()
                    columns |= len(key) == 2 and any(own(y) for y in walk(key[1]))
                elif x.op == "sub" and own(x.args[1]):
                    rows = True
                elif x.op == "call" and any(own(y) for y in x.args[1]):
                    axis = [cval(v) for k, v in x.args[2] if k == "axis" and is_const(v)]
                    columns |= axis == [1]
                    rows |= axis == [0]
            some = any(own(x) for x in walk(data[0], into_cond=False))
            self.rep.check(
                True if columns and not rows else False if rows or not some else None,
                "nested",
                f"{self.c.name}:own-columns",
                e.loc,
                "the inner optimisation of a cluster does not get the columns of its own assets",
            )

    def rows(self, t):
        if t.op == "bin" and t.args[0] in ("*", "/") and is_product(t.args[1]):
            if not any(x is t.args[1] for x in walk(t.args[2])):
                self.rep.check(
                    is_const(t.args[2]) and cval(t.args[2]) == 1,
                    "nested",
                    f"{self.c.name}:scaled",
                    self.final[0].loc,
                    "the product of outer and inner weights is scaled again",
                )
            t = t.args[1]
        if t.op == "call" and fn(t) in ("numpy.dot", "numpy.matmul") and len(t.args[1]) == 2:
            a, b = t.args[1]
        elif t.op == "bin" and t.args[0] == "@":
            a, b = t.args[1], t.args[2]
        elif meth(t) == "dot" and t.args[1]:
            a, b = t.args[0].args[0], t.args[1][0]
        else:
            return None
        for x, y in ((a, b), (b, a)):
            if x.op == "attr" and x.args[1] == "weights_":
                y = unwrap(y)
                if y.op == "sub" and y.args[1].op == "slice" and is_const(y.args[1].args[2]) and cval(y.args[1].args[2]) == -1:
                    self.rep.bad(
                        "nested", f"{self.c.name}:order", self.final[0].loc, "the inner weights are used in reverse order"
                    )
                    return None
                if y.op == "loop":
                    return x.args[0], y
        return None

    def row(self, t, clusters, tag, loc, facts):
        rep, label = self.rep, self.c.name
        if t.op == "phi":
            self.row(t.args[1], clusters, tag, loc, (*facts, (t.args[0], True)))
            self.row(t.args[2], clusters, tag, loc, (*facts, (t.args[0], False)))
            return
        if t.op != "upd":
            rep.undecided("nested", f"{label}:row", loc, "a row of inner weights is not recognised")
            return
        base, key, value = t.args
        fitted = any(x.op == "attr" and x.args[1] == "weights_" for x in walk(value))
        kind = "fitted" if fitted else "single"
        rep.check(
            placed(key, clusters, tag),
            "nested",
            f"{label}:{kind}:assets",
            loc,
            "inner weights are placed on the assets of another cluster",
        )
        rep.check(
            {"numpy.zeros": True, "numpy.ones": False, "numpy.full": False, "numpy.empty": False}.get(fn(base)),
            "nested",
            f"{label}:{kind}:others",
            loc,
            "assets outside of a cluster do not get a zero inner weight",
        )
        if not fitted:
            rep.check(
                is_const(value) and cval(value) == 1,
                "nested",
                f"{label}:single:one",
                loc,
                "the only asset of a cluster does not get all of it",
            )
            return
        comps = [x for x in walk(value) if x.op == "comp" and x.args[2] and same_kind(x.args[2][0], clusters)]
        comps = [x for x in comps if any(fn(n) == "next" for n in walk(value))]
        if not comps:
            return
        x = comps[0]
        rep.check(
            x.args[2][0] is clusters,
            "nested",
            f"{label}:order",
            loc,
            "inner estimators are fitted in another order than their weights are used",
        )
        kept = [sizes([(c, True)]) for c in x.args[3]]
        used = sizes(facts)
        known = used is not None and all(k is not None for k in kept)
        rep.check(
            set.intersection(set(range(1, 9)), *kept) == used if known else None,
            "nested",
            f"{label}:skipped",
            loc,
            "the clusters without a fitted estimator are not those that use none",
        )


def is_product(t):
    return t.op == "bin" and t.args[0] == "@" or fn(t) in ("numpy.dot", "numpy.matmul") or meth(t) == "dot"


def placed(key, clusters, tag):
    """Whether weights are written to the assets of their cluster."""
    if key.op == "elem":
        return key.args[0] is clusters and key.args[1] == tag
    own = any(x.op == "elem" and x.args[0] is clusters for x in walk(key, stop=lambda y: fn(y) == "len"))
    if own and key.op != "slice" and not any(fn(x) == "len" for x in walk(key)):
        return None
    return False if key.op in ("slice", "const") or not own else None


def sizes(facts):
    """The cluster sizes up to eight that conditions on a length allow."""
    out = set(range(1, 9))
    for g, p in facts:
        for c, q in guard_atoms(g, p):
            if c.op == "cmp" and fn(c.args[1]) == "len" and is_const(c.args[2]):
                n = cval(c.args[2])
                test = {
                    "==": lambda i: i == n,
                    "!=": lambda i: i != n,
                    "<": lambda i: i < n,
                    "<=": lambda i: i <= n,
                    ">": lambda i: i > n,
                    ">=": lambda i: i >= n,
                }.get(c.args[0])
                if test is None:
                    return None
                out &= {i for i in range(1, 9) if test(i) == q}
            else:
                return None
    return out


STACK = ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.stack", "numpy.column_stack", "numpy.transpose")


def unwrap(t):
    """The list of rows or columns a matrix is made of."""
    while True:
        if t.op == "attr" and t.args[1] == "T":
            t = t.args[0]
        elif t.op == "call" and t.args[1] and fn(t) in STACK:
            t = t.args[1][0]
        elif meth(t) == "transpose":
            t = t.args[0].args[0]
        else:
            return t


def same_kind(a, b):
    """Two iterables built from the same cluster labels."""
    if a is b:
        return True
    return any(x is b for x in walk(a)) or any(x is a for x in walk(b))
