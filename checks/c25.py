"""C25: textual constraints and views mean what they say."""

from sa.affine import cases, rebuild
from sa.index import AnalysisBroken
from sa.vg import Evaluator, T, const, cval, is_const, mk, show, walk

SIGNS = {"+": 1, "-": -1}
DIRECTION = {"<=": 1, ">=": -1}
EQUAL = {"=", "=="}
OPERATORS = {*SIGNS, *DIRECTION, *EQUAL, "*"}
WORD = const("\x00word")
#: positions of the parts of the result, as documented
PARTS = ("left_equality", "right_equality", "left_inequality", "right_inequality")


def check(P, rep):
    rep.rule("tables", "tables of operators give every operator its own meaning", need=1)
    rep.rule("pieces", "text is cut at whole operators", need=0)
    rep.rule("routed", "equalities and inequalities go to their own part of the result", need=2)
    rep.rule("term-sign", "every term keeps its sign on its side of the comparison", need=4)
    rep.rule("multiplier", "every term keeps exactly its own multiplier", need=2)
    rep.rule("direction", "each comparison keeps its direction", need=1)
    rep.rule("opposite-sides", "coefficients and constants end on opposite sides", need=1)
    rep.rule("members", "a reference selects exactly the assets that carry it", need=2)
    rep.rule("one-comparison", "text with several comparisons is rejected", need=1)
    rep.rule("rejected", "text that is not understood is rejected, never dropped", need=2)
    rep.rule("used-as", "callers read the result as it was built", need=4)
    f = next((f for f in P.funcs.values() if f.cls is None and f.name == "equations_to_matrix"), None)
    if f is None:
        raise AnalysisBroken("equations_to_matrix not found")
    tables(P, rep, f.module)
    for summed in (False, True):
        ev = Evaluator(P, budget=400000)
        r = ev.run(f, args={"sum_to_one": const(summed)})
        rep.saw(ev)
        members(rep, f, r, summed)
        if not summed:
            parser(rep, f, r, ev.carried)
            rejected(rep, f, ev)
            pieces(rep, f, ev)
    users(P, rep, f)


# -- tables -------------------------------------------------------------------------


def tables(P, rep, module):
    """Constant tables from operators to signs."""
    import ast

    n = 0
    for name, node in sorted(module_constants(module)):
        if not isinstance(node, ast.Dict) or not node.keys:
            continue
        try:
            d = ast.literal_eval(node)
        except ValueError:
            continue
        if not all(isinstance(k, str) and k in OPERATORS for k in d) or not all(
            isinstance(v, int) and v in (1, -1) for v in d.values()
        ):
            continue
        n += 1
        for k, v in SIGNS.items():
            if k in d:
                rep.check(d[k] == v, "tables", f"{name}[{k}]", f"{module.rel}:{node.lineno}", f"`{k}` has sign {d[k]}")
        if all(k in d for k in DIRECTION):
            rep.check(
                d["<="] == -d[">="],
                "tables",
                f"{name}[<=,>=]",
                f"{module.rel}:{node.lineno}",
                "both comparisons have the same direction",
            )
    if not n:
        rep.undecided("tables", module.name, f"{module.rel}:1", "no table of operators")


def module_constants(module):
    import ast

    for s in module.tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    yield t.id, s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            yield s.target.id, s.value


def pieces(rep, f, ev):
    """Alternatives of the pattern that cuts the text: an operator before its own prefixes."""
    for e in ev.effects:
        if (
            e.kind != "call"
            or e.data[0].op != "ext"
            or e.data[0].args[0] not in ("re.split", "re.findall", "re.compile")
            or not e.data[1]
        ):
            continue
        for x in walk(e.data[1][0]):
            if x.op != "list":
                continue
            ops = [cval(y).replace("\\", "") for y in x.args[1:] if isinstance(y, T) and is_const(y) and isinstance(cval(y), str)]
            if len(ops) < 2 or not set(ops) <= OPERATORS:
                continue
            cut = [(a, b) for i, a in enumerate(ops) for b in ops[i + 1 :] if b.startswith(a) and a != b]
            rep.check(not cut, "pieces", f.name, e.loc, f"`{cut[0][1]}` is cut at `{cut[0][0]}`" if cut else "")
            for op in sorted(OPERATORS):
                rep.check(op in ops, "pieces", f"{f.name}[{op}]", e.loc, f"the text is not cut at `{op}`")


# -- abstract tokens ------------------------------------------------------------------


def simplify(t):
    """Fold what a known token decides."""

    def f(x):
        if x.op == "cmp" and is_const(x.args[1]):
            o, a, b = x.args
            if o in ("is", "is not") and is_const(b):
                same = cval(a) is cval(b)
                return const(same if o == "is" else not same)
            if o in ("==", "!=") and is_const(b):
                return const((cval(a) == cval(b)) == (o == "=="))
            if o in ("in", "not in") and b.op in ("set", "list", "tuple", "dict"):
                ks = [k[0] if isinstance(k, tuple) else k for k in (b.args[1:] if b.op in ("list", "dict") else b.args)]
                if all(isinstance(k, T) and is_const(k) for k in ks):
                    return const((cval(a) in [cval(k) for k in ks]) == (o == "in"))
        if x.op == "not" and is_const(x.args[0]):
            return const(not cval(x.args[0]))
        if x.op in ("and", "or"):
            stop = x.op == "or"
            rest = [y for y in x.args if not is_const(y)]
            if any(is_const(y) and bool(cval(y)) == stop for y in x.args):
                return const(stop)
            if not rest:
                return const(not stop)
            return rest[0] if len(rest) == 1 else mk(x.op, *rest) if len(rest) < len(x.args) else x
        if x.op == "phi" and is_const(x.args[0]):
            return x.args[1] if cval(x.args[0]) else x.args[2]
        if x.op == "sub" and x.args[0].op == "dict" and is_const(x.args[1]):
            for k, v in x.args[0].args[1:]:
                if is_const(k) and cval(k) == cval(x.args[1]):
                    return v
        if x.op == "bin" and x.args[0] == "*" and is_const(x.args[1]) and is_const(x.args[2]):
            a, b = cval(x.args[1]), cval(x.args[2])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return const(a * b)
        return x

    return rebuild(t, f)


def factors(t):
    """(constant, other factors) of a product."""
    if is_const(t) and isinstance(cval(t), (int, float)):
        return cval(t), []
    if t.op == "bin" and t.args[0] == "*":
        a, b = factors(t.args[1]), factors(t.args[2])
        return a[0] * b[0], a[1] + b[1]
    if t.op == "un" and t.args[0] in ("-", "USub"):
        a = factors(t.args[1])
        return -a[0], a[1]
    if t.op == "neg":
        a = factors(t.args[0])
        return -a[0], a[1]
    return 1, [t]


def appended(t):
    """(condition path, value) of what a loop adds to a list."""
    out = []

    def rec(x, g):
        if x.op == "phi":
            rec(x.args[1], (*g, (x.args[0], True)))
            rec(x.args[2], (*g, (x.args[0], False)))
        elif x.op == "cat":
            for p in x.args:
                if p.op == "list" and p.args[0] is None:
                    out.extend((g, y) for y in p.args[1:])
                elif p.op in ("phi", "cat"):
                    rec(p, g)

    for x in walk(t):
        if x.op == "loop":
            rec(x.args[3], ())
            break
    return out


def parser(rep, f, r, carried):
    """What the parts of the result are made of."""
    if r.op != "tuple" or len(r.args) != len(PARTS):
        rep.undecided("routed", f.name, f.loc)
        return
    parts = [appended(x) for x in r.args]
    if not all(parts):
        rep.undecided("routed", f.name, f.loc)
        return
    values = [{v for _, v in p} for p in parts]
    if any(len(v) != 1 for v in values):
        rep.undecided("routed", f.name, f.loc)
        return
    left, right = values[0].copy().pop(), values[1].copy().pop()
    for i, k in ((2, 0), (3, 1)):
        rep.check(
            values[i] == values[k], "routed", PARTS[i], f.loc, f"{PARTS[i]} is not filled with what {PARTS[k]} is filled with"
        )
    loops = [
        next((x for x in factors(v)[1] if x.op == "loop" and depends_on_tokens(x) and accumulates(x)), None)
        for v in (left, right)
    ]
    if None in loops or loops[0].args[0] != loops[1].args[0]:
        rep.undecided("term-sign", f.name, f.loc)
        return
    tag = loops[0].args[0]
    token = token_of(loops[0])
    kinds(rep, f, parts, tag, token)
    comparison(rep, f, left, right, loops, token)
    contributions(rep, f, loops, token, carried)


def depends_on_tokens(loop):
    return token_of(loop) is not None


def accumulates(loop):
    """Whether the loop adds to its variable."""
    return any(
        x.op == "bin" and x.args[0] in ("+", "-") and x.args[1].op == "prev" and x.args[1].args[1] == loop.args[1]
        for x in walk(loop.args[3])
    )


def token_of(loop):
    """The loop variable that holds the current piece of the text."""
    for x in walk(loop.args[3]):
        if x.op == "cmp" and x.args[0] == "in" and x.args[1].op == "prev" and x.args[2].op in ("set", "list", "tuple", "dict"):
            ks = [k[0] if isinstance(k, tuple) else k for k in x.args[2].args if isinstance(k, (T, tuple))]
            if any(isinstance(k, T) and is_const(k) and cval(k) in OPERATORS for k in ks):
                return x.args[1]
    return None


def given(t, *pairs):
    table = {id(a): b for a, b in pairs}
    return simplify(rebuild(t, lambda x: table.get(id(x), x)))


def kinds(rep, f, parts, tag, token):
    """Which comparisons go to which part."""
    for i, part in enumerate(parts):
        want = i >= 2
        for g, _ in part:
            flag = [
                (c, pol)
                for c, pol in g
                for x in [c]
                if x.op == "loop" and x.args[0] == tag or x.op == "not" and x.args[0].op == "loop" and x.args[0].args[0] == tag
            ]
            for c, pol in flag:
                v = c
                if c.op == "not":
                    v, pol = c.args[0], not pol
                for op in sorted({*DIRECTION, *EQUAL}):
                    b = given(v.args[3], (token, const(op)))
                    if not is_const(b):
                        rep.undecided("routed", f"{PARTS[i]}[{op}]", f.loc)
                        continue
                    taken = bool(cval(b)) == pol
                    rep.check(
                        taken == ((op in DIRECTION) == want),
                        "routed",
                        f"{PARTS[i]}[{op}]",
                        f.loc,
                        f"`{op}` {'goes' if taken else 'does not go'} to {PARTS[i]}",
                    )


def comparison(rep, f, left, right, loops, token):
    """The factors applied after the last term."""
    fl, fr = factors(left), factors(right)
    rl = [x for x in fl[1] if x is not loops[0]]
    rr = [x for x in fr[1] if x is not loops[1]]
    if len(rl) == len(fl[1]) or len(rr) == len(fr[1]):
        rep.undecided("opposite-sides", f.name, f.loc)
        return
    same = sorted(map(id, rl)) == sorted(map(id, rr))
    rep.check(
        same and fl[0] == -fr[0],
        "opposite-sides",
        f.name,
        f.loc,
        f"coefficients are scaled by {fl[0]}·{[show(x, 1) for x in rl]}, constants by {fr[0]}·{[show(x, 1) for x in rr]}",
    )
    if len(rl) != 1 or rl[0].op != "loop":
        rep.undecided("direction", f.name, f.loc)
        return
    sign = {}
    for op in sorted({*DIRECTION, *EQUAL}):
        v = given(rl[0].args[3], (token, const(op)))
        if is_const(v):
            sign[op] = cval(v) * fl[0]
        else:
            rep.undecided("direction", op, f.loc)
    for op, s in sorted(sign.items()):
        if op in DIRECTION:
            rep.check(s == DIRECTION[op], "direction", op, f.loc, f"`a {op} b` becomes {s:+d}·a <= {s:+d}·b")
        else:
            rep.check(s in (1, -1), "direction", op, f.loc, f"`{op}` scales the equation by {s}")


def contributions(rep, f, loops, token, carried):
    for what, loop in (("coefficients", loops[0]), ("constants", loops[1])):
        body = loop.args[3]
        for first in ("", "+", "-", *sorted({*DIRECTION, *EQUAL})):
            t = given(body, (token, const(first) if first else WORD))
            follow = [""]
            nxt = None
            if first in DIRECTION or first in EQUAL:
                nxt = next(
                    (
                        x.args[1]
                        for x in walk(t)
                        if x.op == "cmp"
                        and x.args[0] == "in"
                        and x.args[1].op == "call"
                        and x.args[2].op in ("set", "list", "tuple", "dict")
                        and signs(x.args[2])
                    ),
                    None,
                )
                if nxt is not None:
                    follow = ["", "+", "-"]
            for second in follow:
                u = given(t, (nxt, const(second) if second else WORD)) if nxt is not None else t
                one(rep, f, loop, what, first, second, u, token, carried)


def signs(s):
    ks = [k[0] if isinstance(k, tuple) else k for k in s.args if isinstance(k, (T, tuple))]
    ks = [cval(k) for k in ks if isinstance(k, T) and is_const(k)]
    return ks and set(ks) <= set(SIGNS)


def one(rep, f, loop, what, first, second, t, token, carried):
    text = f"{first}{second}"
    key = f"{what}[{text or 'term'}]"
    leaves = cases(t)
    if leaves is None:
        rep.undecided("term-sign", key, f.loc)
        return
    for g, v in leaves:
        v = simplify(v)
        if v.op == "prev":
            continue
        if not (v.op == "bin" and v.args[0] in ("+", "-") and v.args[1].op == "prev" and v.args[1].args[1] == loop.args[1]):
            rep.undecided("term-sign", key, f.loc)
            continue
        k, fs = factors(v.args[2])
        if v.args[0] == "-":
            k = -k
        side = [x for x in fs if x.op == "prev" and is_const(x.args[2]) and isinstance(cval(x.args[2]), int)]
        rest = [x for x in fs if x not in side]
        sign = SIGNS.get(second or first, 1)
        after = first in DIRECTION or first in EQUAL
        if after:
            # the side has just changed: the sign is that of the other side
            rep.check(
                k == -sign and not side,
                "term-sign",
                key,
                f.loc,
                f"a term right of `{first}` with sign {sign:+d} counts {k:+d} on the left",
            )
        else:
            ok = k == sign and len(side) == 1
            if ok:
                m = side[0]
                body = carried.get((m.args[0], m.args[1]), m)
                flips = [given(body, (token, const(op))) for op in sorted({*DIRECTION, *EQUAL})]
                stays = [given(body, (token, const(op))) for op in "+-"] + [given(body, (token, WORD))]
                ok = (
                    cval(m.args[2]) == 1
                    and all(is_const(y) and cval(y) == -1 for x in flips for _, y in cases(x) or [((), x)])
                    and all(y.op == "prev" and y.args[1] == m.args[1] for x in stays for _, y in cases(x) or [((), x)])
                )
            rep.check(
                ok,
                "term-sign",
                key,
                f.loc,
                f"a term with sign {sign:+d} counts {k:+d}" + ("" if side else " on both sides of the comparison"),
            )
        numbers = [x for x in rest if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("float", "int")]
        arrays = [x for x in rest if x not in numbers]
        times = not any(pol and c.op in ("cmp", "or") and ended(c) for c, pol in g)
        if what == "constants":
            rep.check(len(numbers) == 1 and not arrays, "multiplier", key, f.loc, "a constant does not count with its own value")
        else:
            good = len(arrays) == 1 and len(numbers) == (1 if times else 0)
            if good and numbers:
                n = numbers[0].args[1][0]
                good = not any(x.op == "cmp" and n in x.args[1:] for x in walk(arrays[0]))
            rep.check(
                good,
                "multiplier",
                key + ("*" if times else ""),
                f.loc,
                f"a term counts with {len(numbers)} numbers and {len(arrays)} selections of assets",
            )


def ended(c):
    """A condition that the next piece of text starts another term."""
    return any(
        x.op == "cmp" and x.args[0] == "in" and any(y.op == "const" and cval(y) == "+" for y in walk(x.args[2])) for x in walk(c)
    )


# -- members --------------------------------------------------------------------------


def members(rep, f, r, summed):
    found = set()
    for x in walk(r):
        if (
            x.op == "cmp"
            and x.args[0] == "=="
            and any(y.op == "in" and y.args[-1] == "groups" for a in x.args[1:] for y in walk(a))
            and not is_const(x.args[2])
        ):
            found.add(x)
    key = f"sum_to_one={summed}"
    tops = set()
    for x in walk(r):
        for a in x.args[1] if x.op == "call" else x.args:
            if isinstance(a, T) and a in found:
                tops.add(x)
    if not tops:
        rep.undecided("members", key, f.loc)
        return
    for t in sorted(tops, key=lambda t: str(t.loc)):
        if t.op == "call":
            name = t.args[0].args[1] if t.args[0].op == "meth" else t.args[0].args[0]
        else:
            continue
        name = name.rpartition(".")[2]
        kw = dict(t.args[2])
        axis = kw.get("axis", t.args[1][1] if t.args[0].op == "ext" and len(t.args[1]) > 1 else None)
        if name in ("any", "max", "sum", "logical_or"):
            rep.check(
                axis is not None and is_const(axis) and cval(axis) in (0, -2),
                "members",
                key,
                t.loc or f.loc,
                "a reference is not looked for in all levels of each asset",
            )
        elif name in ("all", "min", "prod"):
            rep.bad("members", key, t.loc or f.loc, "an asset must carry the reference in every level")
        divided = [x for x in walk(r) if x.op == "bin" and x.args[0] == "/" and any(y is t for y in walk(x.args[1]))]
        if summed:
            ok = any(
                any(y.op == "call" and "sum" in show(y.args[0], 3) and any(z is t for z in walk(y)) for y in walk(x.args[2]))
                or "mean" in show(x.args[2], 4)
                for x in divided
            )
            rep.check(ok, "members", key + ".total", t.loc or f.loc, "the selected assets do not sum to one")
        else:
            rep.check(
                all(is_const(x.args[2]) and cval(x.args[2]) == 1 for x in divided),
                "members",
                key + ".total",
                t.loc or f.loc,
                "the coefficients of a reference are not one",
            )


# -- rejection ------------------------------------------------------------------------


def exc_name(t):
    if t.op in ("new", "cls", "raises", "call"):
        a = t.args[0]
        n = a if isinstance(a, str) else a.args[0] if isinstance(a, T) and a.args and isinstance(a.args[0], str) else ""
        return n.rpartition(".")[2]
    return ""


def told(rep, f, ev, i, e):
    """A constraint that is left out is reported: raised where asked for, warned about otherwise."""
    depth, inside = 1, []
    for x in ev.effects[i + 1 :]:
        depth += (x.kind == "handler") - (x.kind == "endhandler")
        if depth == 0:
            break
        inside.append(x)
    warned = raised = unknown = False
    for x in inside:
        if x.kind == "raise":
            raised = True
            own = x.guard[len(e.guard) :]
            warned |= not any(isinstance(c, T) for c, *_ in own)
        elif x.kind == "call" and isinstance(x.data[0], T):
            name = show(x.data[0], 30).rpartition(".")[2]
            if name in ("warn", "warning", "warn_explicit"):
                warned = True
            elif x.data[0].op not in ("ext", "meth", "cls"):
                unknown = True
    rep.check(
        warned or (None if unknown else False),
        "rejected",
        f"{f.name}:told",
        e.loc,
        "a constraint that is not understood is left out without a warning",
    )
    if "raise_if_group_missing" in f.params():
        rep.check(
            raised or (None if unknown else False),
            "rejected",
            f"{f.name}:raised",
            e.loc,
            "a missing group is not raised though raise_if_group_missing is set",
        )


def rejected(rep, f, ev):
    missing = "GroupNotFoundError"
    caught = False
    single = False
    for i, e in enumerate(ev.effects):
        if e.kind == "handler" and e.func is f:
            caught = True
            other = [t for t in e.data[1] if t.rpartition(".")[2] != missing]
            rep.check(
                not other, "rejected", "handler", e.loc, f"{', '.join(other)} is caught: text that is not understood is dropped"
            )
            told(rep, f, ev, i, e)
        if e.kind != "raise" or not isinstance(e.data, T):
            continue
        name = exc_name(e.data)
        conds = [c for c, _ in e.guard if isinstance(c, T)]
        if any(operators_tested(c) for c in conds) and any(state_tested(c) for c in conds) or any(counted(c) for c in conds):
            single = True
        if name == missing:
            known = {
                x.args[1]
                for c, pol in e.guard
                if isinstance(c, T)
                for a, p in atoms(c, pol)
                for x in [a]
                if not p and x.op == "cmp" and x.args[0] == "in" and membership(x.args[2])
            }
            tokens = {x for x in walk(e.data) if x.op in ("call", "prev", "phi") and looks_like_token(x)}
            ok = any(k in tokens or any(k is y for t in tokens for y in walk(t)) for k in known) if tokens else None
            rep.check(
                ok,
                "rejected",
                "missing-group",
                e.loc,
                "text is reported as a missing group, and so only warned about, though it may be an operator or a known group",
            )
    if not caught:
        rep.ok("rejected", "handler")
    rep.check(single, "one-comparison", f.name, f.loc, "a second comparison replaces the first one silently")


def atoms(c, pol):
    if c.op == "not":
        return atoms(c.args[0], not pol)
    if c.op == "and" and pol or c.op == "or" and not pol:
        return [a for x in c.args for a in atoms(x, pol)]
    return [(c, pol)]


def membership(s):
    """A collection of the names of the groups."""
    return any(x.op == "in" and x.args[-1] == "groups" for x in walk(s))


def looks_like_token(x):
    if x.op == "phi":
        return all(looks_like_token(y) or y.op == "prev" for y in x.args[1:])
    if x.op == "prev":
        return True
    return x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "next"


def operators_tested(c):
    return any(
        x.op == "cmp" and x.args[0] in ("in", "==") and any(y.op == "const" and cval(y) in ("<=", ">=") for y in walk(x.args[2]))
        for x in walk(c)
    )


def state_tested(c):
    """A condition on what was read before, other than the current piece of text."""
    for a, _ in [*atoms(c, True), *atoms(c, False)]:
        if a.op == "prev" or a.op == "cmp" and a.args[0] in ("is", "is not", "==", "!=", ">", ">=", "<", "<="):
            xs = [a] if a.op == "prev" else [x for x in a.args[1:] if x.op == "prev"]
            for x in xs:
                init = x.args[2] if len(x.args) > 2 and isinstance(x.args[2], T) else None
                if init is not None and is_const(init):
                    v = cval(init)
                    other = next((y for y in (a.args[1:] if a.op == "cmp" else ()) if y is not x), None)
                    if (
                        a.op == "cmp"
                        and other is not None
                        and is_const(other)
                        and isinstance(cval(other), (int, float))
                        and not isinstance(cval(other), bool)
                        and abs(cval(other)) > 100
                    ):
                        continue
                    if v is None or isinstance(v, (bool, int)):
                        return True
    return False


def counted(c):
    """A condition on how many comparisons the text has."""
    for x in walk(c):
        if x.op == "cmp" and x.args[0] in (">", ">=", "!=", "<", "==", "<="):
            for a in x.args[1:]:
                if a.op == "call" and (
                    a.args[0].op == "ext"
                    and a.args[0].args[0] in ("len", "sum")
                    or a.args[0].op == "meth"
                    and a.args[0].args[1] == "count"
                ):
                    if any(
                        y.op == "const" and isinstance(cval(y), str) and ("<=" in cval(y) or ">=" in cval(y)) for y in walk(a)
                    ):
                        other = x.args[1] if a is x.args[2] else x.args[2]
                        if is_const(other) and cval(other) in (1, 2):
                            return True
    return False


# -- callers ------------------------------------------------------------------------


def users(P, rep, f):
    n = 0
    for g in sorted(P.funcs.values(), key=lambda g: g.qual):
        if g is f or g.cls is None or g.is_abstract:
            continue
        if not mentions(P, g, f):
            continue
        for c in sorted(P.classes.values(), key=lambda c: c.qual):
            if g.cls not in c.repo_mro() or c.is_abstract() or c.find_method(g.name) is not g:
                continue
            n += 1
            user(P, rep, c, g, f)
    if not n:
        rep.undecided("used-as", f.name, f.loc)


def mentions(P, g, f):
    import ast

    return any(isinstance(x, ast.Call) and P.canonical(g.module.dotted(x.func) or "") == f.qual for x in ast.walk(g.node))


def user(P, rep, c, g, f):
    ev = Evaluator(P, budget=300000, inline=lambda h, *a: h.qual != f.qual)
    ev.run(g, cls=c)
    rep.saw(ev)

    def part(t, i):
        return t.op == "sub" and is_const(t.args[1]) and cval(t.args[1]) == i and built(t.args[0])

    def built(t):
        return t.op == "call" and t.args[0].op in ("fn", "ext") and t.args[0].args[0] == f.qual

    views = "views" in show_params(c)
    calls = {x for e in ev.effects for d in flat(e.data) for x in walk(d) if built(x)}
    for x in sorted(calls, key=lambda x: str(x.loc)):
        kw = dict(zip(f.params(), x.args[1]))
        kw.update(dict(x.args[2]))
        s = kw.get("sum_to_one", const(False))
        if is_const(s):
            rep.check(
                cval(s) is views,
                "used-as",
                f"{c.name}.sum_to_one",
                x.loc or g.loc,
                "a view on a group is about its mean, a constraint about its sum",
            )
        if views:
            m = kw.get("raise_if_group_missing", const(False))
            if is_const(m):
                rep.check(
                    cval(m) is True, "used-as", f"{c.name}.missing", x.loc or g.loc, "a view on an unknown asset is dropped"
                )
    for e in ev.effects:
        if e.kind != "cmp" and e.kind != "mutcall":
            continue
        for d in flat(e.data):
            for x in walk(d):
                if x.op == "cmp" and x.args[0] in ("<=", ">=", "=="):
                    used = {i for i in range(4) for y in walk(x) if part(y, i)}
                    if not used or any(is_size(a) for a in x.args[1:]):
                        continue
                    want = {0, 1} if x.args[0] == "==" else {2, 3}
                    rep.check(
                        used == want,
                        "used-as",
                        f"{c.name}[{x.args[0]}]",
                        x.loc or e.loc,
                        f"{' and '.join(PARTS[i] for i in sorted(used))} used in a `{x.args[0]}` constraint",
                    )


def is_size(t):
    """The number of elements of something, not its values."""
    if t.op == "sub":
        t = t.args[0]
    if t.op == "attr":
        return t.args[1] in ("shape", "size", "ndim")
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("len", "numpy.shape", "numpy.ndim", "numpy.size")


def show_params(c):
    i = c.init()
    return i.params() if i is not None else []


def flat(d):
    if isinstance(d, T):
        return [d]
    if isinstance(d, (tuple, list)):
        return [y for x in d for y in flat(x)]
    return []
