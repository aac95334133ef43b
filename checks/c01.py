"""C01: caller data and hyperparameters are never modified."""

from sa import api
from sa.alias import Owners, annotations, immutable_annotation, writes
from sa.estimators import selfterm
from sa.selftest import selftest
from sa.vg import Evaluator, T

SCALAR = ("float", "int", "str", "bool", "numbers.Number", "numbers.Real", "numbers.Integral", "complex")


def check(P, rep):
    rep.rule("argument", "nothing that may be an argument of a public call, or a view of one, "
             "is written to", need=300)
    rep.rule("option", "nothing that may be a constructor option, or a view of one, is written to", need=250)
    rep.rule("nested", "results stored by a nested fitted object are not written to", need=300)
    rep.rule("expanded", "calls that pass caller data on are followed", need=300)
    selftest("c01", one)
    for cls, f in [*api.entries(P), *[(None, u) for u in api.utilities(P)]]:
        if cls is not None and f.name.startswith("__") and not f.name.endswith("__"):
            continue
        one(P, rep, cls, f)


def held(P, cls, cache={}):
    """Attributes of an object that are the very objects given to its constructor."""
    if cls.qual not in cache:
        out = {}
        init = cls.init()
        if init is not None:
            ev = Evaluator(P, budget=1_000_000)
            ev.run(init, cls=cls)
            me = selfterm(cls)
            own = owners(None, init, None)
            for (o, a), v in ev.st.heap.items():
                if o is me:
                    args = {n for k, n in own(v) if k == "argument"}
                    if args:
                        out[a] = sorted(args)[0]
        cache[cls.qual] = out
    return cache[cls.qual]


def owners(me, f, P, cls=None):
    ann = annotations(f)
    imm = {p for p in f.params() if immutable_annotation(ann.get(p), f.module)}
    fresh = {x.arg for x in (f.node.args.kwarg, f.node.args.vararg) if x}
    params = ()
    if cls is not None and cls.init() is not None:
        ia = annotations(cls.init())
        names = held(P, cls)
        params = {a for a, p in names.items() if not immutable_annotation(ia.get(p), cls.module)}
    return Owners(me, params, imm - set(params), fresh, nested=True)


def one(P, rep, cls, f):
    ev = Evaluator(P, budget=3_000_000)
    ev.run(f, cls=cls)
    rep.saw(ev)
    me = selfterm(cls) if cls else None
    own = owners(me, f, P, cls)
    who = f"{cls.name}.{f.name}" if cls else f.name
    bad = {"argument": 0, "option": 0, "nested result": 0}
    for t, how, e in writes(ev.effects):
        if t is me or e.func is not None and e.func.name == "__init__" and e.kind == "store":
            continue
        for kind, name in sorted(own(t)):
            if scalar(t, e.guard):
                continue
            bad[kind] += 1
            rep.bad(kind.split()[0], f"{who}({name})", e.loc, f"{kind} `{name}` {how}")
    for kind in bad:
        if not bad[kind] and (kind != "option" or cls is not None):
            rep.ok(kind.split()[0], who, f.loc)
    lost = [
        e for e in ev.effects
        if e.kind == "call" and isinstance(e.data[0], T) and e.data[0].op in ("fn", "bound")
        and any(own(a) for a in (*e.data[1], *[v for _, v in e.data[2]]))
    ]  # fmt: skip
    for e in lost:
        rep.undecided("expanded", f"{who}->{e.data[0].args[-1]}", e.loc, "call not followed")
    if not lost:
        rep.ok("expanded", who, f.loc)


def scalar(t, guard):
    """The guard says that the value is a number or text."""
    for g, pol in guard:
        if pol and g.op == "call" and g.args[0].op == "ext":
            q = g.args[0].args[0]
            if q in ("numpy.isscalar",) and g.args[1][0] is t:
                return True
            if q == "isinstance" and g.args[1][0] is t:
                c = g.args[1][1]
                cs = c.args if c.op == "tuple" else [c]
                if all(x.op == "ext" and x.args[0] in SCALAR for x in cs):
                    return True
    return False
