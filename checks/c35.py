"""C35: the inverse conditional distribution undoes the conditional distribution."""

from checks.c27 import Family
from sa.index import AnalysisBroken
from sa.vg import guard_atoms, walk

FEWEST = {"numpy.min", "numpy.amin", "numpy.nanmin", "numpy.any"}


def spread(t):
    """The name of a reduction over the rows in t that one settled row can satisfy alone."""
    for x in walk(t):
        if x.op != "call":
            continue
        f = x.args[0]
        if f.op == "ext" and f.args[0] in FEWEST and x.args[1]:
            name, of = f.args[0].split(".")[-1], x.args[1][0]
        elif f.op == "meth" and f.args[1] in ("min", "any"):
            name, of = f.args[1], f.args[0]
        else:
            continue
        if any(y.op == "prev" for y in walk(of)):
            return name
    return None


def settled(rep, f):
    """An iteration over many rows stops only when the change of every row is small."""
    g, ev, _ = f.run("inverse_partial_derivative", {})
    if g is None:
        return
    for e in ev.effects:
        if e.kind != "break":
            continue
        for t, truth in (a for g in e.guard if len(g) == 2 for a in guard_atoms(*g)):
            if not any(y.op == "prev" for y in walk(t)):
                continue
            small = t.op == "cmp" and (t.args[0] in ("<", "<=")) is truth
            name = spread(t.args[1]) if small else spread(t) if truth else None
            rep.check(
                name is None,
                "settled",
                f.c.name,
                e.loc,
                f"the iteration stops as soon as the {name} over the rows is small, other rows may still be moving",
            )


def check(P, rep):
    rep.rule("settled", "an iteration over many rows stops only when all of them have settled", need=0)
    rep.rule("inverse", "the inverse, or the value its iteration settles on, undoes the conditional distribution", need=4)
    base = P.cls("BaseBivariateCopula")
    fams = [c for c in P.classes.values() if base in c.repo_mro() and not c.is_abstract()]
    if len(fams) < 5:
        raise AnalysisBroken(f"only {len(fams)} copula families found")
    for c in sorted(fams, key=lambda c: c.name):
        f = Family(P, rep, c, P.cls("CopulaRotation"))
        settled(rep, f)
        for r in f.rotations():
            f.inverses(r)
