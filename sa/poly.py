"""Exact linear reasoning on piecewise linear terms (polyhedra over the rationals)."""

from fractions import Fraction

from sa.vg import cval, is_const, mk, seq_items

LIMIT = 4000


class Unknown(Exception):
    """The reasoning does not cover a term or grew too large."""


class Lin:
    """A linear form: a mapping from names to coefficients, None being the constant."""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, Fraction(0)) + v
        return Lin(d)

    def scale(self, c):
        return Lin({k: v * c for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    @property
    def value(self):
        """The number it is, or None."""
        if any(k is not None for k in self.d):
            return None
        return self.d.get(None, Fraction(0))

    def key(self):
        return tuple(sorted(((str(k), v) for k, v in self.d.items())))

    def __repr__(self):
        return " + ".join(f"{v}" if k is None else f"{v}*{k}" for k, v in self.d.items()) or "0"


def number(x):
    return Lin({None: Fraction(x)})


def name(n):
    return Lin({n: Fraction(1)})


def feasible(cons):
    """Whether constraints [(form, strict)], meaning form >= 0 or form > 0, have a common point."""
    cons = simplify(cons)
    if cons is None:
        return False
    while True:
        names = {k for f, _ in cons for k in f.d if k is not None}
        if not names:
            return True
        n = min(
            names,
            key=lambda n: (sum(f.d.get(n, 0) > 0 for f, _ in cons) * sum(f.d.get(n, 0) < 0 for f, _ in cons), str(n)),
        )
        up = [(f, s) for f, s in cons if f.d.get(n, 0) > 0]
        down = [(f, s) for f, s in cons if f.d.get(n, 0) < 0]
        rest = [(f, s) for f, s in cons if n not in f.d]
        for f, s in up:
            for g, r in down:
                rest.append((f.scale(-g.d[n]) + g.scale(f.d[n]), s or r))
        if len(rest) > LIMIT:
            raise Unknown
        cons = simplify(rest)
        if cons is None:
            return False


def simplify(cons):
    out = {}
    for f, s in cons:
        v = f.value
        if v is not None:
            if v < 0 or s and v == 0:
                return None
            continue
        k = max(abs(c) for n, c in f.d.items() if n is not None)
        f = f.scale(1 / k)
        key = f.key()
        out[key] = (f, s or out.get(key, (f, False))[1])
    return list(out.values())


def entails(cons, form):
    """Whether form >= 0 wherever the constraints hold."""
    return not feasible([*cons, (form.scale(-1), True)])


MIN = {"min", "numpy.minimum", "numpy.min", "numpy.amin", "numpy.fmin"}
MAX = {"max", "numpy.maximum", "numpy.max", "numpy.amax", "numpy.fmax"}
SAME = {"float", "numpy.float64", "numpy.asarray", "numpy.array"}


class Reader:
    """Reads a term as linear forms, each with the constraints under which it holds.

    ``atom(term)`` gives the form of a term that is not arithmetic, or None.
    """

    def __init__(self, atom):
        self.atom, self.memo = atom, {}

    def cases(self, t):
        if id(t) not in self.memo:
            self.memo[id(t)] = (t, self.read(t))
        return self.memo[id(t)][1]

    def read(self, t):
        a = self.atom(t)
        if a is not None:
            return [([], a)]
        if is_const(t) and isinstance(cval(t), (int, float)) and cval(t) == cval(t) and abs(cval(t)) != float("inf"):
            return [([], number(Fraction(cval(t))))]
        if t.op == "neg" or t.op == "un" and t.args[0] == "-":
            return [(c, f.scale(-1)) for c, f in self.cases(t.args[-1])]
        if t.op == "bin":
            op, x, y = t.args[:3]
            return [(c + d, self.arith(op, f, g)) for c, f in self.cases(x) for d, g in self.cases(y)]
        if t.op == "call":
            f = t.args[0]
            n = str(f.args[0]) if f.op == "ext" else ""
            args = list(t.args[1])
            if n in SAME and len(args) == 1:
                return self.cases(args[0])
            if n in MIN or n in MAX:
                if len(args) == 1:
                    args = seq_items(args[0])
                    if args is None:
                        raise Unknown
                return self.pick([self.cases(x) for x in args], n in MIN)
            if n == "numpy.clip":
                kw = dict(t.args[2])
                lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
                hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
                if lo is None or hi is None:
                    raise Unknown
                out = []
                for c, x in self.pick([self.cases(args[0]), self.cases(lo)], False):
                    out += self.pick([[(c, x)], self.cases(hi)], True)
                return out
        if t.op == "phi":
            return self.choice(t)
        raise Unknown

    def choice(self, t):
        cond, a, b = t.args
        pos, neg = self.condition(cond)
        out = []
        if pos is not None:
            out += [(c + list(pos), f) for c, f in self.cases(a)]
        if neg is not None:
            out += [(c + list(neg), f) for c, f in self.cases(b)]
        return out

    def condition(self, cond):
        """Constraints when a condition holds and when it does not (None: impossible)."""
        if cond.op == "not":
            p, n = self.condition(cond.args[0])
            return n, p
        if cond.op == "cmp" and cond.args[0] in ("<", "<=", ">", ">=", "==", "!="):
            op, x, y = cond.args
            try:
                cs = self.cases(mk("bin", "-", x, y))
            except Unknown:
                return [], []
            if len(cs) == 1 and not cs[0][0]:
                f = cs[0][1]
                if f.value is not None:
                    v = f.value
                    true = {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
                    return ([], None) if true else (None, [])
                g = f.scale(-1)
                return {
                    "<": ([(g, True)], [(f, False)]),
                    "<=": ([(g, False)], [(f, True)]),
                    ">": ([(f, True)], [(g, False)]),
                    ">=": ([(f, False)], [(g, True)]),
                    "==": ([(f, False), (g, False)], []),
                    "!=": ([], [(f, False), (g, False)]),
                }[op]
        return [], []

    def pick(self, lists, least):
        out = lists[0]
        for other in lists[1:]:
            new = []
            for c, f in out:
                for d, g in other:
                    diff = g - f if least else f - g
                    new.append((c + d + [(diff, False)], f))
                    new.append((c + d + [(diff.scale(-1), False)], g))
            out = [x for x in new if feasible(x[0])]
            if len(out) > LIMIT:
                raise Unknown
        return out

    def arith(self, op, f, g):
        if op == "+":
            return f + g
        if op == "-":
            return f - g
        if op == "*":
            if g.value is not None:
                return f.scale(g.value)
            if f.value is not None:
                return g.scale(f.value)
        if op == "/" and g.value:
            return f.scale(1 / g.value)
        raise Unknown
