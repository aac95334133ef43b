"""C30: every value of a multiple-choice option is handled or rejected."""

import ast

from checks.c03 import alternatives
from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.portfolios import ENUMS, linked, measures, member
from sa.vg import Budget, Evaluator, cval, is_const

#: methods scipy's linkage accepts
LINKAGE = {"single", "complete", "average", "weighted", "centroid", "median", "ward"}
#: decisions on these are expanded in full by C12
SKIP = {("MeanRisk", "fit", "risk_measure")}


def check(P, rep):
    rep.rule("handled", "each value of the option gives a result or an error", need=80)
    rep.rule("distinct", "no value of the option behaves like another one", need=8)
    rep.rule("values", "the values of an enumeration are all different", need=8)
    rep.rule("linked", "every ratio knows its own risk measure", need=10)
    rep.rule("external", "values handed to another library are known to it", need=4)
    enums = {c.qual: c for c in P.classes.values() if c.is_enum() and c.enum_members()}
    if len(enums) < 8:
        raise AnalysisBroken(f"only {len(enums)} enumerations found")
    for c in enums.values():
        values(P, rep, c)
    todo = decisions(P, enums)
    for d in todo:
        decide(P, rep, *d)
    links(P, rep)
    c = P.cls("LinkageMethod")
    for m in c.enum_members():
        v = Evaluator(P).enum_value(c, m)
        rep.check(None if not is_const(v) else cval(v) in LINKAGE, "external", f"LinkageMethod.{m}", f"{c.module.rel}:{c.node.lineno}", f"{v} is not a linkage method")


def values(P, rep, c):
    seen = {}
    for m in c.enum_members():
        v = Evaluator(P).enum_value(c, m)
        if not is_const(v):
            continue
        rep.check(cval(v) not in seen, "values", f"{c.name}.{m}", f"{c.module.rel}:{c.node.lineno}",
                  f"{m} has the value of {seen.get(cval(v))}, which makes the two one member")  # fmt: skip
        seen.setdefault(cval(v), m)


# -- where options are decided on -----------------------------------------------


def named(P, f, enums):
    """Enumerations a function body refers to: class -> members named."""
    out = {}
    by = {p: e for p, a in annotations(f).items() for e in option_enums(P, a, f.module, enums)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Attribute)):
            c = enums.get(f.module.dotted(n.value))
            if c is None and isinstance(n.value, ast.Name):
                c = by.get(n.value.id)
            if c is not None and n.attr in c.enum_members():
                out.setdefault(c.qual, set()).add(n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            c = enums.get(f.module.dotted(n))
            if c is not None:
                out.setdefault(c.qual, set())
    return out


def option_enums(P, annotation, module, enums):
    """Enumerations an annotation allows."""
    if annotation is None:
        return []
    out = []
    for n in ast.walk(annotation):
        if isinstance(n, (ast.Name, ast.Attribute)):
            q = module.dotted(n)
            if q in enums:
                out.append(enums[q])
            elif q is not None and q.rsplit(".", 1)[-1] == "Measure":
                out += [P.cls(x) for x in ENUMS]
    return list(dict.fromkeys(out))


def annotations(f):
    a = f.node.args
    return {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}


def decisions(P, enums):
    """(function, class, option, how it is reached, enumerations, members named)."""
    out = []
    for f in P.funcs.values():
        if f.name == "__init__" or f.is_static and f.cls is not None:
            continue
        used = named(P, f, enums)
        for p, ann in annotations(f).items():
            es = option_enums(P, ann, f.module, enums)
            if es and any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(ast.Module(f.node.body, []))):
                out.append((f, f.cls, p, "parameter", es, used))
        if f.cls is None or f.cls.is_enum() and not used:
            continue
        if f.cls.is_enum():
            out.append((f, f.cls, None, "itself", [f.cls], used))
            continue
        if not used:
            continue
        cls = concrete(P, f)
        if cls is None or cls.init() is None:
            continue
        read = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
        for p, ann in annotations(cls.init()).items():
            es = option_enums(P, ann, cls.init().module, enums)
            if es and p in read and (cls.name, f.name, p) not in SKIP:
                out.append((f, cls, p, "attribute", es, used))
    return out


def concrete(P, f):
    """A class a method can be run on."""
    if not f.cls.is_abstract():
        return f.cls
    for c in P.classes.values():
        if c.is_subclass(f.cls.qual) and not c.is_abstract() and c.find_method(f.name) is f:
            return c
    return f.cls


def label(f, cls, p):
    return f"{cls.name + '.' if cls is not None else ''}{f.name}({p or 'self'})"


def decide(P, rep, f, cls, p, how, es, used):
    runs = {}
    me = selfterm(cls) if cls is not None and not cls.is_enum() else None
    for c in es:
        for m in c.enum_members():
            t = member(c, m)
            kw = {"self_attrs": {p: t}} if how == "attribute" else {}
            ev = Evaluator(P, budget=400_000, **kw)
            try:
                if how == "itself":
                    r = ev.run(f, cls=c, selfterm=t)
                else:
                    r = ev.run(f, cls=cls, args={p: t} if how == "parameter" else None)
            except (Budget, RecursionError):
                rep.undecided("handled", f"{label(f, cls, p)}.{m}", f.loc, "too large to expand")
                return
            rep.saw(ev)
            runs[c, m] = (ev, r)
    name = label(f, cls, p)
    good = {k: v for k, v in runs.items() if v[1].op != "raises"}
    if not good:
        return
    gives = any(not all(is_none(a) for a in alternatives(r)) for _, r in good.values())
    clean = [k for k, (ev, r) in good.items() if not dirty(ev, r, me)]
    for (c, m), (ev, r) in runs.items():
        if r.op == "raises":
            rep.ok("handled", f"{name}.{c.name}.{m}", f.loc)
            continue
        bad = None
        if clean and dirty(ev, r, me):
            bad = "a variable is used that no branch sets"
        elif gives and all(is_none(a) for a in alternatives(r)):
            bad = "nothing is returned"
        elif me is not None and len(good) > 1:
            have = set(final(ev, me))
            others = [set(final(e2, me)) for k, (e2, _) in good.items() if k != (c, m)]
            miss = set.intersection(*others) - have
            if miss:
                bad = f"{', '.join(sorted(miss))} is not set"
        rep.check(bad is None, "handled", f"{name}.{c.name}.{m}", f.loc, f"for {c.name}.{m}: {bad}")
    for c in es:
        ms = c.enum_members()
        if len(used.get(c.qual, ())) < len(ms) - 1 or len(es) > 1 or len(ms) > 8:
            continue
        sig = {}
        for m in ms:
            ev, r = runs[c, m]
            if r.op == "raises":
                continue
            s = signature(ev, r)
            same = sig.get(s)
            rep.check(same is None, "distinct", f"{name}.{m}", f.loc, f"{m} behaves exactly like {same}")
            sig.setdefault(s, m)


def is_none(t):
    return is_const(t) and cval(t) is None


def final(ev, me):
    return {k[1] for k, v in ev.st.heap.items() if k[0] is me and v.op != "unset"}


def dirty(ev, r, me):
    """A value that is certainly computed from an unset variable."""
    roots = [r] + [v for k, v in ev.st.heap.items() if me is not None and k[0] is me]
    seen = set()
    stack = [x for x in roots if x.op != "unset"]
    if r.op == "unset":
        return True
    for e in ev.effects:
        if e.kind in ("call", "mutcall") and any(x.op == "unset" for x in flat(tuple(y for y in e.data if hasattr(y, "op") or isinstance(y, tuple)))):
            return True
    while stack:
        t = stack.pop()
        if id(t) in seen or t.op in ("phi", "loop", "prev", "comp"):
            continue
        seen.add(id(t))
        for x in flat(t.args):
            if x.op == "unset":
                return True
            stack.append(x)
    return False


def flat(xs):
    for x in xs:
        if hasattr(x, "op"):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def signature(ev, r):
    return (id(r), tuple((k[1], id(v)) for k, v in sorted(((k, v) for k, v in ev.st.heap.items() if isinstance(k[1], str)), key=lambda x: x[0][1])),
            tuple((e.kind, ids(e.data)) for e in ev.effects if e.kind in ("store", "mutcall", "setitem", "return", "yield")))  # fmt: skip


def ids(x):
    if hasattr(x, "op"):
        return id(x)
    if isinstance(x, tuple):
        return tuple(ids(y) for y in x)
    return x if isinstance(x, (str, int, type(None))) else id(x)


def links(P, rep):
    c = P.cls("RatioMeasure")
    f = c.find_method("linked_risk_measure")
    if f is None:
        return
    names = {m: k for k, m in measures(P)}
    for m in c.enum_members():
        r = Evaluator(P).run(f, cls=c, selfterm=member(c, m))
        want = linked(m)
        ok = None
        if r.op == "enum":
            ok = r.args[1] == want and want in names
        elif r.op == "raises" or is_none(r):
            ok = False
        rep.check(ok, "linked", f"RatioMeasure.{m}", f.loc, f"the risk measure of {m} is {r}, it should be {want}")

