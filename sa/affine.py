"""Affine forms over index terms: exact comparisons of bounds, no solving."""

from fractions import Fraction

from sa.vg import T, cval, decide, is_const, mk, phi, walk


def rebuild(t, f, memo=None):
    """The term with ``f`` applied to every subterm, children first."""
    memo = {} if memo is None else memo
    if id(t) in memo:
        return memo[id(t)][1]

    def rec(x):
        if isinstance(x, T):
            return rebuild(x, f, memo)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x

    new = tuple(rec(x) for x in t.args)
    same = all(a is b for a, b in zip(new, t.args))
    r = t if same or new == t.args else phi(*new) if t.op == "phi" else mk(t.op, *new)
    r = f(r)
    memo[id(t)] = (t, r)
    return r


def replace(t, what):
    """The term with subterms replaced according to a list of (old, new)."""
    table = {id(a): b for a, b in what}
    return rebuild(t, lambda x: table.get(id(x), x))


def cases(t, guard=(), limit=64):
    """(conditions, term) pairs: the term with every choice in it made."""
    out, todo = [], [((), t)]
    while todo:
        g, x = todo.pop()
        c = next((y.args[0] for y in walk(x) if y.op == "phi"), None)
        if c is None:
            out.append((g, x))
            continue
        if len(out) + len(todo) > limit:
            return None
        d = decide(c, tuple(guard) + g)
        for pol in (True, False):
            if d is not None and d != pol:
                continue

            def pick(y, c=c, pol=pol):
                return (y.args[1] if pol else y.args[2]) if y.op == "phi" and y.args[0] is c else y

            todo.append(((*g, (c, pol)), rebuild(x, pick)))
    return out


class Form(dict):
    """atom -> coefficient; the constant under ``None``."""

    def __add__(self, o):
        r = Form(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v
        return r.clean()

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, n):
        return Form({k: v * n for k, v in self.items()}).clean()

    def clean(self):
        for k in [k for k, v in self.items() if v == 0]:
            del self[k]
        return self

    def key(self):
        return frozenset(self.items())

    def constant(self):
        return self.get(None, Fraction(0))


def number(n):
    return Form({None: Fraction(n)}).clean()


WRAP = {"int", "numpy.int64", "operator.index", "numpy.asarray", "numpy.intp"}


def form(t):
    """The affine form of an integer term."""
    if is_const(t):
        v = cval(t)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float("inf"):
            return number(Fraction(v))
        return Form({t: Fraction(1)})
    if t.op == "bin":
        o, a, b = t.args
        if o == "+":
            return form(a) + form(b)
        if o == "-":
            return form(a) - form(b)
        if o == "*":
            fa, fb = form(a), form(b)
            for x, y in ((fa, fb), (fb, fa)):
                if set(x) <= {None}:
                    return y.scale(x.constant())
    if t.op in ("neg", "un") and t.args[-1] is not None and (t.op == "neg" or t.args[0] == "-"):
        return form(t.args[-1]).scale(-1)
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in WRAP and len(t.args[1]) == 1:
        return form(t.args[1][0])
    if t.op == "sub" and t.args[1].op not in ("slice", "tuple") and not is_const(t.args[1]):
        return Form({("at", t.args[0], form(t.args[1]).key()): Fraction(1)})
    return Form({t: Fraction(1)})


def at_least(f, minima, lower=None):
    """Whether a form is non-negative for all values of its atoms.

    ``minima`` gives the least value of independent atoms, ``lower`` replaces an
    atom by the form of its least value. Look-ups in a sorted table may be compared
    when their positions can. Returns None where an atom is not known.
    """
    f = Form(f)
    for _ in range(8):
        hit = False
        for k in list(f):
            if k not in f or k is None or isinstance(k, tuple) or f[k] < 0 or lower is None:
                continue
            b = lower(k)
            if b is not None:
                n = f.pop(k)
                f = f + b.scale(n)
                hit = True
        if not hit:
            break
    total = f.pop(None, Fraction(0))
    ats = {k: f.pop(k) for k in list(f) if isinstance(k, tuple)}
    pos = [k for k, v in ats.items() for _ in range(int(v)) if v > 0]
    neg = [k for k, v in ats.items() for _ in range(int(-v)) if v < 0]
    if len(pos) != len(neg):
        return None
    for n in neg:
        for p in pos:
            if p[1] is n[1] and at_least(Form(dict(p[2])) - Form(dict(n[2])), minima, lower):
                pos.remove(p)
                break
        else:
            if len(neg) == 1 and pos[0][1] is n[1]:
                # the position is earlier for some sizes, and so is what is found there
                if at_least(Form(dict(pos[0][2])) - Form(dict(n[2])), minima, lower) is False and all(
                    v <= 0 or minima(k) == 0 for k, v in f.items()
                ):
                    return False
            return None
    ok = True
    for k, v in f.items():
        m = minima(k)
        if m is None:
            return None
        total += m * v
        ok = ok and v >= 0
    return ok and total >= 0


CONCRETE = {
    "max": max,
    "min": min,
    "abs": abs,
    "numpy.maximum": max,
    "numpy.minimum": min,
    "numpy.abs": abs,
    "int": int,
}


def value(t, env):
    """The value of an index term for given values of its atoms, or None."""
    if t in env:
        return Fraction(env[t])
    if is_const(t):
        v = cval(t)
        return Fraction(v) if isinstance(v, int) else None
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in CONCRETE and not t.args[2] and t.args[1]:
        a = [value(x, env) for x in t.args[1]]
        if None in a:
            return None
        if len(a) == 1 and t.args[0].args[0] in ("max", "min"):
            return None
        return Fraction(CONCRETE[t.args[0].args[0]](*a))
    if t.op == "bin":
        a, b = value(t.args[1], env), value(t.args[2], env)
        if a is None or b is None:
            return None
        o = t.args[0]
        if o in ("//", "/", "%") and b == 0:
            return None
        ops = {"+": a + b, "-": a - b, "*": a * b}
        if o in ops:
            return ops[o]
        if o == "/":
            return a / b
        if o == "//":
            return Fraction(a // b)
        return a % b if o == "%" else None
    if t.op == "neg" or t.op == "un" and t.args[0] == "-":
        a = value(t.args[-1], env)
        return None if a is None else -a
    if t.op == "phi":
        c = t.args[0]
        c_val = truth(c, env)
        return None if c_val is None else value(t.args[1] if c_val else t.args[2], env)
    return None


def truth(c, env):
    if c.op == "not":
        r = truth(c.args[0], env)
        return None if r is None else not r
    if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "==", "!="):
        a, b = value(c.args[1], env), value(c.args[2], env)
        if a is None or b is None:
            return None
        o = c.args[0]
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[o]
    a = value(c, env)
    return None if a is None else bool(a)


def at(f, env):
    """The value of a form for given values of its atoms, or None."""
    total = Fraction(0)
    for k, n in f.items():
        v = Fraction(1) if k is None else None if isinstance(k, tuple) else value(k, env)
        if v is None:
            return None
        total += n * v
    return total
