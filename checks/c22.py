"""C22: randomness is isolated and reproducible."""

import ast

from sa.estimators import selfterm
from sa.index import AnalysisBroken
from sa.selftest import selftest
from sa.vg import NONE, is_const, Budget, Evaluator, show, walk

SEEDS = ("random_state", "seed", "rng", "random_seed", "generator")
#: constructors of generators of their own
BUILD = {
    "sklearn.utils.check_random_state",
    "sklearn.utils.validation.check_random_state",
    "numpy.random.RandomState",
    "numpy.random.default_rng",
    "numpy.random.Generator",
    "numpy.random.SeedSequence",
    "numpy.random.PCG64",
    "numpy.random.MT19937",
    "numpy.random.Philox",
    "numpy.random.SFC64",
    "random.Random",
}
#: names that touch the state of the process-wide generators
RESEED = {
    "numpy.random.seed",
    "numpy.random.set_state",
    "numpy.random.set_bit_generator",
    "random.seed",
    "random.setstate",
    "numpy.random.mtrand.seed",
}
#: other sources that no seed controls
ENTROPY = {
    "os.urandom",
    "uuid.uuid4",
    "uuid.uuid1",
    "random.SystemRandom",
    "time.time",
    "time.time_ns",
    "time.perf_counter",
    "random.SystemRandom.random",
}
#: methods of scipy distributions that take the generator to use
DRAWERS = {"rvs"}


def check(P, rep):
    rep.rule("no-reseed", "the process-wide generator is never reseeded or replaced", need=50)
    rep.rule("own-generator", "a seeded component never draws from the process-wide generator", need=15)
    rep.rule("seed-used", "generators of a seeded component are built from its seed", need=4)
    rep.rule("drawn-with", "draws made by another library are given the generator", need=0)
    rep.rule("seed-reaches", "every component that has a seed uses it", need=4)
    selftest("c22", example)
    reseed(P, rep, P.modules.values())
    entries = list(components(P))
    if len(entries) < 8:
        raise AnalysisBroken(f"only {len(entries)} seeded components found")
    for key, cls, f, seeds, nested in entries:
        component(P, rep, key, cls, f, seeds, nested)
    used(P, rep)


def process_wide(q):
    """A name that draws from a generator shared by the whole process."""
    if q in BUILD or q in RESEED:
        return False
    head, _, last = q.rpartition(".")
    return (
        head in ("numpy.random", "random", "numpy.random.mtrand") and last[:1].islower() and last not in ("get_state", "getstate")
    )


def example(P, rep, cls, f):
    seeds = [p for p in f.params() if p in SEEDS]
    if seeds:
        component(P, rep, f.name, cls, f, seeds, False)
    names(f.module, f.node, rep)


def reseed(P, rep, modules):
    """Every name of the random modules used anywhere in the repository."""
    for m in modules:
        if not names(m, m.tree, rep):
            rep.ok("no-reseed", m.name)


def names(m, tree, rep):
    n = 0
    for x in ast.walk(tree):
        if isinstance(x, (ast.Attribute, ast.Name)):
            q = m.dotted(x)
            if q is None:
                continue
            if q in RESEED:
                n += 1
                rep.bad("no-reseed", f"{m.name}.{q}", f"{m.rel}:{x.lineno}", f"{q} changes the generator of the whole process")
            if isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)) and q.startswith("numpy.random."):
                n += 1
                rep.bad("no-reseed", f"{m.name}.{q}", f"{m.rel}:{x.lineno}", f"{q} is replaced")
    return n


# -- components ------------------------------------------------------------------


def samples(f):
    """True when the function asks another object for samples."""
    return any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sample" for x in ast.walk(f.node)
    )


def components(P):
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if c.is_abstract():
            continue
        init = c.init()
        seeds = [p for p in (init.params() if init else []) if p in SEEDS]
        # a part of seeded classes is seen as part of them
        parts = not c.name[:1].isalpha() and any(k is not c and k.is_subclass(c.qual) for k in P.classes.values())
        methods = {}
        for k in reversed(c.repo_mro()):
            for n, f in k.methods.items():
                methods[n] = f
        for n, f in sorted(methods.items()):
            if n == "__init__" or f.is_static or (n.startswith("__") and n != "__call__"):
                continue
            if seeds or samples(f) and not parts:
                yield f"{c.name}.{n}", c, f, seeds, not seeds
    for q, f in sorted(P.funcs.items()):
        if f.cls is not None:
            continue
        seeds = [p for p in f.params() if p in SEEDS]
        if seeds:
            yield f.name, None, f, seeds, False


def component(P, rep, key, cls, f, seeds, nested):
    ev = Evaluator(P, budget=60000)
    try:
        ev.run(f, cls=cls) if cls is not None else ev.run(f)
    except (Budget, RecursionError):
        rep.undecided("own-generator", key, f.loc, "too large to follow")
    rep.saw(ev)
    me = selfterm(cls) if cls is not None else None
    clean = True
    for e in ev.effects:
        if e.kind != "call":
            continue
        g, args, kw = e.data[0], e.data[1], dict(e.data[2])
        q = g.args[0] if g.op == "ext" else None
        if q is not None and process_wide(q):
            clean = False
            what = "although the sampler it uses may be seeded" if nested else "although it has a seed"
            rep.bad("own-generator", f"{owner(e, key)}", e.loc, f"{key} draws from the process-wide generator with {q}, {what}")
        elif q in BUILD and not nested:
            a = args[0] if args else next(iter(kw.values()), NONE)
            rep.check(
                from_seed(a, me, seeds, f),
                "seed-used",
                f"{owner(e, key)}",
                e.loc,
                f"{key} builds a generator from {show(a, 3)[:60]}, not from its seed",
            )
        elif q in BUILD and has_seed(args, kw, me) is not None:
            rep.check(
                has_seed(args, kw, me),
                "seed-used",
                f"{owner(e, key)}",
                e.loc,
                f"{key} builds a generator that the seed of the sampler it uses has no part in",
            )
        elif q in ENTROPY and not nested and is_seedlike(ev, e):
            rep.bad("seed-used", f"{owner(e, key)}", e.loc, f"{key} draws from {q}, which no seed controls")
        elif (q.rpartition(".")[2] if q else g.args[1] if g.op in ("meth", "bound") else None) in DRAWERS:
            a = kw.get("random_state")
            rep.check(
                a is not None and a is not NONE,
                "drawn-with",
                f"{owner(e, key)}.rvs",
                e.loc,
                f"{key} lets {show(g, 3)[:60]} draw from the process-wide generator",
            )
    if clean:
        rep.ok("own-generator", key)


def owner(e, key):
    f = e.func
    return key if f is None else (f"{f.cls.name}.{f.name}" if f.cls is not None else f.name)


def is_seedlike(ev, e):
    r = e.data[3] if len(e.data) > 3 else None
    return r is not None and any(
        x.kind == "call"
        and x.data[0].op == "ext"
        and x.data[0].args[0] in BUILD
        and any(t is r for a in x.data[1] for t in walk(a))
        for x in ev.effects
    )


def from_seed(a, me, seeds, f):
    """Every value the seed may take comes from the seed of the component."""
    if a.op == "phi":
        return all(from_seed(x, me, seeds, f) for x in a.args[1:])
    for t in walk(a):
        if t.op == "attr" and me is not None and t.args[0] is me and t.args[1] in seeds:
            return True
        if t.op == "in" and t.args[-1] in (*seeds, *SEEDS):
            return True
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in BUILD and t is not a:
            return True
    return False


def has_seed(args, kw, me):
    """Whether a generator comes from the seed of another object, or from nothing (False)."""
    a = args[0] if args else next(iter(kw.values()), NONE)
    held = [t for t in walk(a) if t.op == "attr" and t.args[1] in SEEDS]
    held += [t for t in walk(a) if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "getattr"]
    if any((t.args[0] if t.op == "attr" else t.args[1][0]) is not me for t in held):
        return True
    return False if a is NONE or held or is_const(a) else None


def reads(funcs, attr, of):
    """Whether a function reads an attribute of ``of`` (of anything when it is None)."""
    return any(
        isinstance(x, ast.Attribute)
        and x.attr == attr
        and isinstance(x.ctx, ast.Load)
        and isinstance(x.value, ast.Name)
        and of in (None, x.value.id)
        for f in funcs
        for x in ast.walk(f.node)
    )


def used(P, rep):
    """A class with a seed reads it somewhere in its methods or hands it to its base."""
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        init = c.init()
        if c.is_abstract() or init is None:
            continue
        for s in init.params():
            if s not in SEEDS:
                continue
            own = [f for k in c.repo_mro() for f in k.methods.values()]
            # functions that may be given the component
            near = {f for f in P.funcs.values() if f.cls is None and f.module in {k.module for k in c.repo_mro()}}
            read = reads(own, s, "self") or (None if reads(near, s, None) else False)
            ev = Evaluator(P)
            ev.run(init, cls=c)
            v = ev.st.heap.get((selfterm(c), s))
            kept = v is None or any(t.op == "in" and t.args[-1] == s for t in walk(v))
            rep.check(
                read and kept if kept else False,
                "seed-reaches",
                f"{c.name}.{s}",
                f"{c.module.rel}:{c.node.lineno}",
                f"{s} of {c.name} is never used" if kept else f"{s} given to {c.name} is not kept",
            )
