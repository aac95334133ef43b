"""Exact algebra on closed-form expressions taken from the source.

A value is ``(coefficient, factors, exponent)``: a rational number times a
product of powers of bases times ``e`` to a value.  Bases are symbols, minus
logarithms, functions, and primitive sums; powers are rational functions of one
symbol.  Sums are brought to a normal form, so two expressions that denote the
same function usually become the same value.  ``ranges`` bounds a value over a
box of inputs, so two values whose ranges are disjoint are certainly different.
Nothing of the analysed program is executed.
"""

import math
import statistics
from fractions import Fraction
from functools import lru_cache


class Unsupported(Exception):
    pass


#: products of terms formed since the last question was put, and how many are allowed
WORK, LIMIT = [0], 50_000
#: length of the text of the largest sum
SIZE = 20000


def fresh():
    """Start the work for another question."""
    WORK[0] = 0


def spend(n):
    WORK[0] += n
    if WORK[0] > LIMIT:
        raise Unsupported("too much work")


# ---------------------------------------------------------------- exponents
# (symbol or None, numerator, denominator): coefficients, lowest degree first


def _trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return tuple(p)


def _pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return _trim(r)


def _padd(a, b):
    n = max(len(a), len(b))
    return _trim((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n))


def _pdiv(a, b):
    a, q = list(a), [Fraction(0)] * max(len(a) - len(b) + 1, 0)
    while len(a) >= len(b):
        c, k = a[-1] / b[-1], len(a) - len(b)
        q[k] = c
        for i, y in enumerate(b):
            a[i + k] -= c * y
        a.pop()
    return _trim(q), _trim(a)


def rat(sym, num, den=(Fraction(1),)):
    if not num:
        return (None, (), (Fraction(1),))
    a, b = num, den
    while b:
        a, b = b, _pdiv(a, b)[1]
    num, den = _pdiv(num, a)[0], _pdiv(den, a)[0]
    num, den = tuple(x / den[-1] for x in num), tuple(x / den[-1] for x in den)
    if len(num) == 1 and len(den) == 1:
        sym = None
    return (sym, num, den)


def rnum(n):
    return rat(None, (Fraction(n),) if n else ())


R0, R1 = rnum(0), rnum(1)


def _sym(a, b):
    if a[0] is not None and b[0] is not None and a[0] != b[0]:
        raise Unsupported("a power of several symbols")
    return a[0] or b[0]


def radd(a, b):
    return rat(_sym(a, b), _padd(_pmul(a[1], b[2]), _pmul(b[1], a[2])), _pmul(a[2], b[2]))


def rmul(a, b):
    return rat(_sym(a, b), _pmul(a[1], b[1]), _pmul(a[2], b[2]))


def rneg(a):
    return (a[0], tuple(-x for x in a[1]), a[2])


def rinv(a):
    if not a[1]:
        raise Unsupported("division by zero")
    return rat(a[0], a[2], a[1])


def rint(a):
    """The integer a power is, or None."""
    if not a[1]:
        return 0
    if a[0] is None and a[1][0].denominator == 1:
        return int(a[1][0])
    return None


def rsign(a):
    """A translation-invariant order: the sign for a large symbol."""
    return 0 if not a[1] else 1 if a[1][-1] > 0 else -1


def rpositive(a):
    """True / False / None for every positive value of the symbol."""
    if not a[1]:
        return None
    s = {x > 0 for x in a[1] if x} | {x > 0 for x in a[2] if x}
    if s == {True}:
        return True
    n, d = {x > 0 for x in a[1] if x}, {x > 0 for x in a[2] if x}
    return n == d if len(n) == 1 and len(d) == 1 else None


# ------------------------------------------------------------------- values
# (coef, factors, expo); factors: sorted ((base, power), ...); expo: value or None

ZERO = (Fraction(0), (), None)
ONE = (Fraction(1), (), None)
REAL = {"real"}


def num(n):
    return (Fraction(n), (), None)


def sym(name, real=False):
    """A symbol; positive unless ``real``."""
    return (Fraction(1), ((("real" if real else "s", name), R1),), None)


def func(name, *args):
    return (Fraction(1), (((name, *args), R1),), None)


def is_num(v):
    return not v[1] and v[2] is None


_REPR = {}


def _r(x):
    r = _REPR.get(x)
    if r is None:
        r = _REPR[x] = repr(x)
    return r


def _order(fac):
    return tuple(sorted(((b, p) for b, p in fac.items() if p[1]), key=lambda x: _r(x[0])))


def mul(a, b):
    c = a[0] * b[0]
    if not c:
        return ZERO
    fac = dict(a[1])
    for base, p in b[1]:
        fac[base] = radd(fac[base], p) if base in fac else p
    c, fac = _fold(c, fac)
    return (c, _order(fac), _xadd(a[2], b[2]))


def _xadd(a, b):
    if a is None or b is None:
        return a or b
    s = add(a, b)
    return s if s[0] else None


def _fold(c, fac):
    for base in [x for x in fac if x[0] == "n"]:
        n = rint(fac[base])
        if n is not None:
            c *= Fraction(base[1]) ** n
            del fac[base]
            continue
        whole = _pdiv(fac[base][1], fac[base][2])[0]
        k = math.floor(whole[0]) if whole else 0
        if k:
            c *= Fraction(base[1]) ** k
            fac[base] = radd(fac[base], rnum(-k))
    return c, fac


def neg(a):
    return (-a[0], a[1], a[2])


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, rnum(-1)))


def _primes(n):
    out, p = {}, 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def power(a, r):
    n = rint(r)
    if n == 0:
        return ONE
    if not a[0]:
        if rpositive(r):
            return ZERO
        raise Unsupported("power of zero")
    fac = {}
    if n is not None:
        c = a[0] ** n
    else:
        if a[0] < 0:
            flipped = _flip(a)
            if flipped is None:
                raise Unsupported("fractional power of a negative number")
            a = flipped
        c = Fraction(1)
        for m, s in ((a[0].numerator, 1), (a[0].denominator, -1)):
            for p, k in _primes(m).items():
                b = ("n", p)
                fac[b] = radd(fac.get(b, R0), rmul(r, rnum(s * k)))
    for base, p in a[1]:
        k = rint(p)
        if n is None and k is not None and k % 2 == 0 and base[0] in ("real", "ndtri", "stdtrit", "+"):
            raise Unsupported("root of a square")
        if n is None and base[0] in ("real", "ndtri", "stdtrit"):
            raise Unsupported("fractional power of a signed value")
        fac[base] = radd(fac.get(base, R0), rmul(p, r))
    c, fac = _fold(c, fac)
    x = None if a[2] is None else mul(a[2], of_rat(r))
    return (c, _order(fac), x)


def _flip(a):
    """The same value with a positive coefficient, by turning a sum around."""
    for i, (base, p) in enumerate(a[1]):
        k = rint(p)
        if base[0] == "+" and k is not None and k % 2:
            d = {m: -c for m, c in base[1]}
            if any(c > 0 for c in d.values()):
                t = ("+", tuple(sorted(d.items(), key=lambda x: _r(x[0]))))
                fac = dict(a[1])
                del fac[base]
                fac[t] = radd(fac.get(t, R0), p)
                return (-a[0], _order(fac), a[2])
    return None


def of_rat(r):
    def poly(p):
        out = ZERO
        for i, c in enumerate(p):
            out = add(out, mul(num(c), power(sym(r[0]), rnum(i)) if i else ONE))
        return out

    return div(poly(r[1]), poly(r[2]))


def to_rat(v):
    """The value as a power, or an exception."""
    if v[2] is not None:
        raise Unsupported("not a power")
    out = rnum(v[0])
    for base, p in v[1]:
        k = rint(p)
        if k is None:
            raise Unsupported("not a rational power")
        if base[0] in ("s", "real"):
            b = rat(base[1], (Fraction(0), Fraction(1)))
        elif base[0] == "+":
            b = R0
            for (f, x), c in base[1]:
                b = radd(b, to_rat((c, f, x)))
        else:
            raise Unsupported("not a rational power")
        for _ in range(abs(k)):
            out = rmul(out, b if k > 0 else rinv(b))
    return out


def terms(v):
    """monomial -> coefficient, with the whole positive powers of sums multiplied out."""
    out = {((), None): Fraction(1)}
    rest = {}
    for base, p in v[1]:
        k = rint(p)
        if base[0] == "+" and k is not None and k > 0:
            if k > 6:
                raise Unsupported("high power of a sum")
            for _ in range(k):
                out = _tmul(out, dict(base[1]))
        else:
            rest[base] = p
    return _tmul(out, {(_order(rest), v[2]): v[0]})


def _tmul(a, b):
    if len(a) * len(b) > 4000:
        raise Unsupported("too many terms")
    spend(len(a) * len(b))
    out = {}
    for (f, x), c in a.items():
        for (g, y), d in b.items():
            m = mul((c, f, x), (d, g, y))
            k = (m[1], m[2])
            out[k] = out.get(k, 0) + m[0]
    return _clean(out)


def _clean(d):
    """Multiply out sums that ended up with whole positive powers again."""
    todo = [m for m in d if any(b[0] == "+" and (rint(p) or 0) > 0 for b, p in m[0])]
    for m in todo:
        c = d.pop(m)
        if c:
            for k, e in terms((c, m[0], m[1])).items():
                d[k] = d.get(k, 0) + e
    return {k: c for k, c in d.items() if c}


def add(a, b):
    if not a[0]:
        return b
    if not b[0]:
        return a
    return _add(a, b)


@lru_cache(maxsize=None)
def _add(a, b):
    # what both have in common stays outside
    fa, fb = dict(a[1]), dict(b[1])
    common = {x: p for x, p in fa.items() if fb.get(x) == p}
    if common and (a[2] == b[2]):
        ra = (a[0], tuple(t for t in a[1] if t[0] not in common), None)
        rb = (b[0], tuple(t for t in b[1] if t[0] not in common), None)
        return mul(add(ra, rb), (Fraction(1), _order(common), a[2]))
    d = terms(a)
    for k, c in terms(b).items():
        d[k] = d.get(k, 0) + c
    return from_terms({k: c for k, c in d.items() if c})


def from_terms(d):
    d = together(d)
    if not d:
        return ZERO
    if len(d) == 1:
        ((f, x), c), = d.items()
        return (c, f, x)
    # content: the least power of every base, and a positive number
    bases = {}
    for f, _ in d:
        for b, p in f:
            bases.setdefault(b, p)
    content = {}
    for b in bases:
        ps = [dict(f).get(b, R0) for f, _ in d]
        low = ps[0]
        for p in ps[1:]:
            if _comparable(p, low) and rsign(radd(p, rneg(low))) < 0:
                low = p
        if low[1]:
            content[b] = low
    inv = (Fraction(1), _order({b: rneg(p) for b, p in content.items()}), None)
    prim = {}
    for (f, x), c in d.items():
        m = mul((c, f, x), inv)
        prim[(m[1], m[2])] = prim.get((m[1], m[2]), 0) + m[0]
    prim = {m: c for m, c in prim.items() if c}
    if len(prim) < 2:
        out = ZERO if not prim else (prim[next(iter(prim))], *next(iter(prim)))
        return mul((Fraction(1), _order(content), None), out)
    lead = max(prim, key=_r)
    k = abs(prim[lead])
    base = ("+", tuple(sorted(((m, c / k) for m, c in prim.items()), key=lambda x: _r(x[0]))))
    if len(_r(base)) > SIZE:
        raise Unsupported("too large a sum")
    if not _usual(base):
        base, k = ("+", tuple((m, -c) for m, c in base[1])), -k
    return mul((k, _order(content), None), (Fraction(1), ((base, R1),), None))


def _usual(base):
    """One of a sum and its opposite: the one that is more likely positive."""
    n = sum(1 if c > 0 else -1 for _, c in base[1])
    d = dict(base[1])
    return n > 0 if n else d.get(((), None), d[max(d, key=_r)]) > 0


def _comparable(p, q):
    return p[0] is None or q[0] is None or p[0] == q[0]


def together(d):
    """One common whole-number shift for each class of powers of each sum."""
    for _ in range(8):
        d = {k: c for k, c in d.items() if c}
        changed = False
        for s in sorted({b for f, _ in d for b, _ in f if b[0] == "+"}, key=_r):
            classes = {}
            for m in d:
                p = dict(m[0]).get(s, R0)
                for q in classes:
                    if rint(radd(p, rneg(q))) is not None:
                        classes[q].append((m, rint(radd(p, rneg(q)))))
                        break
                else:
                    classes[p] = [(m, 0)]
            for q, ms in classes.items():
                low = min(k for _, k in ms)
                if any(k != low for _, k in ms):
                    changed = True
                    for m, k in ms:
                        if k == low:
                            continue
                        c = d.pop(m)
                        fac = dict(m[0])
                        fac[s] = radd(q, rnum(low))
                        new = {(_order(fac), m[1]): c}
                        for _ in range(k - low):
                            new = _tmul(new, dict(s[1]))
                        for x, e in new.items():
                            d[x] = d.get(x, 0) + e
            if changed:
                break
            # a class that the sum divides
            for q, ms in classes.items():
                if rint(q) == 0 and not any(k for _, k in ms) or len(ms) < len(s[1]):
                    continue
                n = {}
                for m, _ in ms:
                    fac = dict(m[0])
                    fac.pop(s, None)
                    n[(_order(fac), m[1])] = d[m]
                quo = divide(n, dict(s[1]))
                if quo is not None:
                    for m, _ in ms:
                        del d[m]
                    up = {(_order({s: radd(q, R1)}), None): Fraction(1)}
                    for x, e in _tmul(quo, up).items():
                        d[x] = d.get(x, 0) + e
                    changed = True
                    break
            if changed:
                break
        if not changed:
            return {k: c for k, c in d.items() if c}
    return {k: c for k, c in d.items() if c}


def _less(m, n, bases):
    """m < n, lexicographically over the bases, compatible with products."""
    f, g = dict(m[0]), dict(n[0])
    for b in bases:
        s = rsign(radd(f.get(b, R0), rneg(g.get(b, R0))))
        if s:
            return s < 0
    return False


def divide(n, s):
    """The exact quotient of two sums, or None."""
    if any(x is not None for _, x in n) or any(x is not None for _, x in s):
        return None
    bases = sorted({b for f, _ in [*n, *s] for b, _ in f}, key=_r)

    def lead(d):
        best = None
        for m in d:
            if best is None or _less(best, m, bases):
                best = m
        return best

    try:
        ls = lead(s)
        inv = power((s[ls], ls[0], ls[1]), rnum(-1))
        quo, n = {}, dict(n)
        for _ in range(12):
            if not n:
                return quo
            ln = lead(n)
            t = mul((n[ln], ln[0], ln[1]), inv)
            quo[(t[1], t[2])] = quo.get((t[1], t[2]), 0) + t[0]
            for m, c in _tmul({(t[1], t[2]): t[0]}, s).items():
                n[m] = n.get(m, 0) - c
            n = {k: c for k, c in n.items() if c}
    except Unsupported:
        return None
    return None


# ---------------------------------------------------------------- functions


def log(v):
    if not v[0]:
        raise Unsupported("logarithm of zero")
    if v[0] < 0:
        f = _flip(v)
        if f is None:
            raise Unsupported("logarithm of a negative number")
        v = f
    out = v[2] or ZERO
    for m, s in ((v[0].numerator, 1), (v[0].denominator, -1)):
        for p, k in _primes(m).items():
            out = add(out, mul(num(-s * k), func("L", ("n", p))))
    for b, p in v[1]:
        if b == ("s", "e"):
            out = add(out, of_rat(p))
        else:
            out = add(out, mul(neg(of_rat(p)), func("L", b)))
    return out


def exp(v):
    out, rest = ONE, ZERO
    for (f, x), c in terms(v).items():
        logs = [(b, p) for b, p in f if b[0] == "L" and p == R1]
        if len(logs) == 1 and x is None:
            try:
                r = to_rat((-c, tuple(t for t in f if t[0] is not logs[0][0]), None))
                out = mul(out, mul((Fraction(1), ((logs[0][0][1], r),), None), ONE))
                continue
            except Unsupported:
                pass
        rest = add(rest, (c, f, x))
    return mul(out, (Fraction(1), (), rest if rest[0] else None))


PI = sym("pi")
HALF = rnum(Fraction(1, 2))


def phi_density(z):
    return div(exp(mul(num(Fraction(-1, 2)), mul(z, z))), power(mul(num(2), PI), HALF))


def gamma(v):
    return func("G", to_rat(v))


def t_density(nu, z):
    n1 = add(nu, ONE)
    c = div(gamma(div(n1, num(2))), mul(gamma(div(nu, num(2))), power(mul(nu, PI), HALF)))
    return mul(c, power(add(ONE, div(mul(z, z), nu)), rneg(to_rat(div(n1, num(2))))))


def _single(v, name):
    return v[0] == 1 and v[2] is None and len(v[1]) == 1 and v[1][0][1] == R1 and v[1][0][0][0] == name


def ndtr(v):
    return v[1][0][0][1] if _single(v, "ndtri") else func("ndtr", v)


def _inside(v):
    if is_num(v) and not 0 < v[0] < 1:
        raise Unsupported("an infinite quantile")


def ndtri(v):
    _inside(v)
    return v[1][0][0][1] if _single(v, "ndtr") else func("ndtri", v)


def stdtr(nu, v):
    if _single(v, "stdtrit") and v[1][0][0][1] == nu:
        return v[1][0][0][2]
    return func("stdtr", nu, v)


def stdtrit(nu, v):
    _inside(v)
    if _single(v, "stdtr") and v[1][0][0][1] == nu:
        return v[1][0][0][2]
    return func("stdtrit", nu, v)


@lru_cache(maxsize=None)
def diff(v, x):
    """The derivative with respect to the symbol named x."""
    out = ZERO
    for b, p in v[1]:
        db = _dbase(b, x)
        if db[0]:
            inner = (Fraction(1), ((b, radd(p, rnum(-1))),), None) if p != R1 else ONE
            rest = (v[0], tuple(t for t in v[1] if t[0] is not b), v[2])
            out = add(out, mul(mul(rest, of_rat(p)), mul(inner, db)))
        if p[0] == x:
            raise Unsupported("derivative of a power")
    if v[2] is not None:
        d = diff(v[2], x)
        if d[0]:
            out = add(out, mul(v, d))
    return out


def _dbase(b, x):
    kind = b[0]
    if kind in ("s", "real"):
        return ONE if b[1] == x else ZERO
    if kind in ("n", "G"):
        return ZERO
    if kind == "L":
        d = _dbase(b[1], x)
        return neg(div(d, (Fraction(1), ((b[1], R1),), None))) if d[0] else ZERO
    if kind == "+":
        out = ZERO
        for (f, e), c in b[1]:
            out = add(out, diff((c, f, e), x))
        return out
    if kind == "ndtr":
        return mul(phi_density(b[1]), diff(b[1], x))
    if kind == "ndtri":
        d = diff(b[1], x)
        return div(d, phi_density(func(*b))) if d[0] else ZERO
    if kind == "stdtr":
        return mul(t_density(b[1], b[2]), diff(b[2], x))
    if kind == "stdtrit":
        d = diff(b[2], x)
        return div(d, t_density(b[1], func(*b))) if d[0] else ZERO
    if kind == "bvn":
        _, a, c, rho = b
        s = power(sub(ONE, mul(rho, rho)), HALF)
        out = ZERO
        for p, q in ((a, c), (c, a)):
            d = diff(p, x)
            if d[0]:
                out = add(out, mul(mul(phi_density(p), d), ndtr(div(sub(q, mul(rho, p)), s))))
        return out
    if kind == "bvt":
        _, nu, a, c, rho = b
        n1 = add(nu, ONE)
        out = ZERO
        for p, q in ((a, c), (c, a)):
            d = diff(p, x)
            if d[0]:
                w = mul(sub(ONE, mul(rho, rho)), div(add(nu, mul(p, p)), n1))
                z = div(sub(q, mul(rho, p)), power(w, HALF))
                out = add(out, mul(mul(t_density(nu, p), d), stdtr(n1, z)))
        return out
    raise Unsupported(f"derivative of {kind}")


def substitute(v, table):
    """Symbols replaced by values."""
    memo = {}

    def val(w):
        if w not in memo:
            out = num(w[0])
            for b, p in w[1]:
                if p[0] in table:
                    raise Unsupported("substitution in a power")
                out = mul(out, power(base(b), p))
            if w[2] is not None:
                out = mul(out, exp(val(w[2])))
            memo[w] = out
        return memo[w]

    def base(b):
        kind = b[0]
        if kind in ("s", "real"):
            return table.get(b[1], (Fraction(1), ((b, R1),), None))
        if kind in ("n", "G"):
            return (Fraction(1), ((b, R1),), None)
        if kind == "L":
            return neg(log(base(b[1])))
        if kind == "+":
            out = ZERO
            for (f, e), c in b[1]:
                out = add(out, val((c, f, e)))
            return out
        if kind in ("ndtr", "ndtri"):
            return {"ndtr": ndtr, "ndtri": ndtri}[kind](val(b[1]))
        if kind in ("stdtr", "stdtrit"):
            return {"stdtr": stdtr, "stdtrit": stdtrit}[kind](val(b[1]), val(b[2]))
        return (Fraction(1), (((kind, *map(val, b[1:])), R1),), None)

    return val(v)


def symbols(v, out=None):
    out = set() if out is None else out

    def base(b):
        if b[0] in ("s", "real"):
            out.add(b[1])
        elif b[0] == "L":
            base(b[1])
        elif b[0] == "+":
            for (f, e), c in b[1]:
                symbols((c, f, e), out)
        elif b[0] == "G":
            out.add(b[1][0])
        elif b[0] != "n":
            for a in b[1:]:
                symbols(a, out)

    for b, p in v[1]:
        base(b)
        out.add(p[0])
    if v[2] is not None:
        symbols(v[2], out)
    out.discard(None)
    return out


# ------------------------------------------------------------------- ranges


def _hull(*xs):
    lo, hi = min(x[0] for x in xs), max(x[1] for x in xs)
    return lo, hi


def _wide(lo, hi):
    e = 1e-13
    return lo - abs(lo) * e - 1e-300, hi + abs(hi) * e + 1e-300


def _imul(a, b):
    ps = [x * y for x in a for y in b]
    return _wide(min(ps), max(ps))


def ranges(v, box):
    """An interval that contains the value for every input of the box."""
    try:
        return _range(v, box)
    except (OverflowError, ValueError, ZeroDivisionError):
        raise Unsupported("no range") from None


def _range(v, box):
    out = (float(v[0]), float(v[0]))
    for b, p in v[1]:
        out = _imul(out, _ipow(_ibase(b, box), _irat(p, box), p))
    if v[2] is not None:
        lo, hi = _range(v[2], box)
        out = _imul(out, _wide(math.exp(lo), math.exp(hi)))
    return out


def _irat(p, box):
    if p[0] is None:
        x = float(p[1][0]) if p[1] else 0.0
        return x, x
    s = box[p[0]]

    def poly(c):
        out = (0.0, 0.0)
        for k in reversed(c):
            out = _imul(out, s)
            out = _wide(out[0] + float(k), out[1] + float(k))
        return out

    n, d = poly(p[1]), poly(p[2])
    if d[0] <= 0 <= d[1]:
        raise Unsupported("no range")
    return _imul(n, (1 / d[1], 1 / d[0]))


def _ipow(b, e, p):
    k = rint(p)
    if k is not None:
        if k < 0:
            if b[0] <= 0 <= b[1]:
                raise Unsupported("no range")
            b, k = _wide(1 / b[1], 1 / b[0]), -k
        if k % 2 == 0 and b[0] < 0:
            b = (0.0 if b[1] > 0 else min(abs(b[0]), abs(b[1])), max(abs(b[0]), abs(b[1])))
        return _wide(b[0] ** k, b[1] ** k)
    if b[0] <= 0:
        raise Unsupported("no range")
    ps = [x**y for x in b for y in e]
    return _wide(min(ps), max(ps))


def _ibase(b, box):
    kind = b[0]
    if b == ("s", "pi"):
        return _wide(math.pi, math.pi)
    if kind in ("s", "real"):
        return box[b[1]]
    if kind == "n":
        return (float(b[1]), float(b[1]))
    if kind == "L":
        lo, hi = _ibase(b[1], box)
        return _wide(-math.log(hi), -math.log(lo))
    if kind == "+":
        lo = hi = 0.0
        m = 0.0
        for (f, e), c in b[1]:
            x = _range((c, f, e), box)
            lo, hi, m = lo + x[0], hi + x[1], max(m, abs(x[0]), abs(x[1]))
        return lo - m * 1e-13, hi + m * 1e-13
    if kind == "G":
        lo, hi = _irat(b[1], box)
        if lo <= 0:
            raise Unsupported("no range")
        ys = [math.gamma(lo), math.gamma(hi)] + ([0.8856] if lo < 1.4617 and hi > 1.4616 else [])
        return _wide(min(ys), max(ys))
    if kind == "ndtr":
        lo, hi = _range(b[1], box)
        n = statistics.NormalDist()
        return n.cdf(lo) - 1e-12, n.cdf(hi) + 1e-12
    if kind == "ndtri":
        lo, hi = _range(b[1], box)
        n = statistics.NormalDist()
        return n.inv_cdf(lo) - 1e-9, n.inv_cdf(hi) + 1e-9
    if kind in ("stdtr", "stdtrit"):
        nu, x = _range(b[1], box), _range(b[2], box)
        f = _t_cdf if kind == "stdtr" else _t_ppf
        ys = [f(n, z) for n in nu for z in x]
        return min(ys) - 1e-7, max(ys) + 1e-7
    raise Unsupported(f"range of {kind}")


def _t_cdf(nu, z):
    """Student's distribution function, by the continued fraction of the beta integral."""
    if z == 0:
        return 0.5
    x = nu / (nu + z * z)
    a, b = nu / 2, 0.5
    flip = x > (a + 1) / (a + b + 2)
    if flip:
        a, b, x = b, a, 1 - x
    front = math.exp(math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) + a * math.log(x) + b * math.log1p(-x)) / a
    f = c = 1.0
    d = 0.0
    for i in range(300):
        m = i // 2
        if i == 0:
            n = 1.0
        elif i % 2 == 0:
            n = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m))
        else:
            n = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1))
        d = 1 / (1 + n * d or 1e-30)
        c = 1 + n / c or 1e-30
        f *= c * d
        if abs(c * d - 1) < 1e-15:
            break
    p = front * (f - 1)
    if flip:
        p = 1 - p
    return p / 2 if z < 0 else 1 - p / 2


def _t_ppf(nu, q):
    lo, hi = -1e3, 1e3
    for _ in range(100):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if _t_cdf(nu, mid) < q else (lo, mid)
    return (lo + hi) / 2


# --------------------------------------------------------------- comparison


def equal(a, b, boxes=()):
    """True: the same function; False: different on one of the boxes; None."""
    try:
        if not sub(a, b)[0]:
            return True
    except Unsupported:
        pass
    for box in boxes:
        try:
            x, y = ranges(a, box), ranges(b, box)
        except Unsupported:
            continue
        if x[1] < y[0] or y[1] < x[0]:
            return False
    return None


def text(v, depth=4):
    """A readable form."""

    def p_(p):
        if p[0] is None:
            return str(p[1][0]) if p[1] else "0"

        def poly(c):
            return "+".join(
                (f"{k}" if i == 0 else (f"{k}*" if k != 1 else "") + p[0] + (f"^{i}" if i > 1 else ""))
                for i, k in enumerate(c)
                if k
            )

        return f"({poly(p[1])})" + (f"/({poly(p[2])})" if p[2] != (Fraction(1),) else "")

    def base(b, d):
        if b[0] in ("s", "real", "n"):
            return str(b[1])
        if d == 0:
            return "…"
        if b[0] == "L":
            return f"(-log {base(b[1], d - 1)})"
        if b[0] == "+":
            return "(" + " + ".join(text((c, f, e), d - 1) for (f, e), c in b[1]) + ")"
        if b[0] == "G":
            return f"Gamma({p_(b[1])})"
        return f"{b[0]}(" + ", ".join(text(a, d - 1) for a in b[1:]) + ")"

    out = [str(v[0])] if v[0] != 1 or is_num(v) else []
    for b, p in v[1]:
        out.append(base(b, depth) + ("" if p == R1 else f"^{p_(p)}"))
    if v[2] is not None:
        out.append(f"exp({text(v[2], depth - 1) if depth else '…'})")
    return "*".join(out)
