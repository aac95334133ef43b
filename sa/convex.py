"""Extraction of the convex problems an optimiser builds, and folds over them."""

from __future__ import annotations

from .index import AnalysisBroken
from .vg import NONE, Evaluator, T, const, cval, is_const, mk, sequence_parts, show, walk


def fit_evaluator(program, cls, self_attrs=None, method="fit", budget=6_000_000):
    """Evaluate a method of ``cls`` with its own methods and plain functions inlined."""
    mro = {k.qual for k in cls.repo_mro()}
    ev = Evaluator(
        program,
        budget=budget,
        inline=lambda f: f.cls is None or f.cls.qual in mro or f.cls.is_enum(),
        self_attrs=self_attrs,
    )
    f = cls.find_method(method)
    if f is None:
        raise AnalysisBroken(f"{cls.name} has no method {method}")
    ev.result = ev.run(f, cls=cls)
    return ev


def enum_member(program, cls_name, member):
    c = program.cls(cls_name)
    if member not in c.enum_members():
        raise AnalysisBroken(f"{cls_name} has no member {member}")
    return mk("enum", c.qual, member)


class Problem:
    """One cvxpy problem: sense, objective expression, guarded constraints."""

    def __init__(self, effect):
        args, kw = list(effect.data[1]), dict(effect.data[2])
        self.loc = effect.loc
        self.guard = effect.guard
        self.term = effect.data[3]
        obj = args[0] if args else kw.get("objective")
        cons = args[1] if len(args) > 1 else kw.get("constraints")
        self.objective_term = obj
        self.constraints = list(sequence_parts(cons)) if cons is not None else []

    def objectives(self):
        """(sense, expression, conditions) of every objective alternative."""
        yield from _objectives(self.objective_term, ())


def _objectives(t, cond):
    if t.op == "phi":
        yield from _objectives(t.args[1], (*cond, (t.args[0], True)))
        yield from _objectives(t.args[2], (*cond, (t.args[0], False)))
    elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
        "cvxpy.Minimize", "cvxpy.Maximize",
    ):  # fmt: skip
        yield t.args[0].args[0].rsplit(".", 1)[-1], t.args[1][0], cond
    else:
        yield None, t, cond


def problems(ev):
    out = []
    for e in ev.effects:
        if e.kind == "call" and callee(e.data[0]) == "cvxpy.Problem":
            out.append(Problem(e))
    return out


def callee(f):
    return f.args[0] if f.op in ("ext", "fn", "cls") else None


def is_call(t, *names):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in names


def meth_call(t):
    """(receiver, method name) of a method call term, else (None, None)."""
    if t.op == "call" and t.args[0].op in ("meth", "attr"):
        return t.args[0].args[0], t.args[0].args[1]
    return None, None


def config_attrs(t):
    """Names of the estimator's own attributes a term reads."""
    return {x.args[1] for x in walk(t) if x.op == "attr" and x.args[0].op == "self"}


def reads(t, name):
    return any(
        x.op == "attr" and x.args[1] == name and x.args[0].op == "self" for x in walk(t)
    )


def self_attr(t, name):
    return t.op == "attr" and t.args[1] == name and t.args[0].op == "self"


# -- printing -------------------------------------------------------------------
class Pretty:
    def __init__(self):
        self.vars: dict = {}

    def __call__(self, t, d=9):
        if not isinstance(t, T):
            return repr(t)
        if d == 0:
            return "…"
        o, a = t.op, t.args
        s = lambda x: self(x, d - 1)  # noqa: E731
        if is_call(t, "cvxpy.Variable", "cvxpy.Parameter"):
            n = self.vars.setdefault(t, len(self.vars))
            kw = ",".join(k for k, _ in t.args[2])
            return f"V{n}{':' + kw if kw else ''}"
        if is_call(t, "cvxpy.Constant"):
            return s(a[1][0])
        if o == "attr" and a[1] in ("prior_model_", "shape"):
            return {"prior_model_": "PM", "shape": f"{s(a[0])}.shape"}[a[1]]
        if o == "attr" and a[0].op == "self":
            return "$" + a[1]
        if o == "call":
            f = a[0]
            fn = f.args[0].rsplit(".", 1)[-1] if f.op in ("ext", "fn") else s(f)
            return f"{fn}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
        if o in ("bin", "cmp"):
            return f"({s(a[1])} {a[0]} {s(a[2])})"
        if o == "un":
            return f"{a[0]}{s(a[1])}"
        if o == "sub":
            return f"{s(a[0])}[{s(a[1])}]"
        if o == "attr":
            return f"{s(a[0])}.{a[1]}"
        if o == "phi":
            return f"[{s(a[1])} if {s(a[0])} else {s(a[2])}]"
        if o == "meth":
            return f"{s(a[0])}.{a[1]}"
        if o == "elem":
            return f"elem({s(a[0])})"
        if o == "index":
            return "i"
        if o in ("loop", "prev"):
            return f"{o}:{a[1]}"
        return show(t, min(d, 4))


OPTIMISERS = (
    "MeanRisk", "RiskBudgeting", "MaximumDiversification", "DistributionallyRobustCVaR",
)  # fmt: skip


def fixed_by_constructor(program, cls):
    """Attributes the constructor sets to something else than a parameter."""
    ev = Evaluator(program)
    ev.run(cls.init(), cls=cls)
    out = {}
    for e in ev.effects:
        if e.kind == "store" and e.data[0].op == "self" and not e.guard:
            v = e.data[2]
            if is_const(v) or v.op == "enum":
                out[e.data[1]] = v
            else:
                out.pop(e.data[1], None)
    return out


def is_variable(t):
    return is_call(t, "cvxpy.Variable")


class Model:
    """The problem one optimiser builds under a partial configuration."""

    def __init__(self, program, cls, self_attrs=None, no_inline=()):
        mro = {k.qual for k in cls.repo_mro()}
        self.cls = cls
        self.ev = Evaluator(
            program,
            budget=6_000_000,
            inline=lambda f: f.cls is None or f.cls.qual in mro or f.cls.is_enum(),
            no_inline=no_inline,
            self_attrs=self_attrs,
        )
        f = cls.find_method("fit")
        if f is None:
            raise AnalysisBroken(f"{cls.name} has no fit method")
        self.ev.result = self.ev.run(f, cls=cls)
        ps = problems(self.ev)
        if len(ps) != 1:
            raise AnalysisBroken(f"{cls.name}.fit builds {len(ps)} problems, 1 expected")
        self.problem = ps[0]
        self.constraints = [(c, g) for c, g, k in self.problem.constraints]
        self._weights()
        self._parameters()

    def stores(self, name):
        return [
            e for e in self.ev.effects
            if e.kind == "store" and e.data[0].op == "self" and e.data[1] == name
        ]  # fmt: skip

    def _weights(self):
        """The decision variable and the rescaling factor behind weights_."""
        self.w, self.factor, self.weights_term = None, None, None
        for e in self.stores("weights_"):
            for t in walk(e.data[2]):
                if t.op == "bin" and t.args[0] == "/":
                    n, d = t.args[1], t.args[2]
                    if _value_of(n) is not None and _value_of(d) is not None:
                        self.w, self.factor = _value_of(n), _value_of(d)
                        self.weights_term = t
                        return
        for e in self.stores("weights_"):
            for t in walk(e.data[2]):
                v = _value_of(t)
                if v is not None and is_variable(v):
                    self.w, self.weights_term = v, t
                    return
        raise AnalysisBroken(f"{self.cls.name}: weights_ is not read from a variable")

    def factor_terms(self):
        """The variables/constants the factor may be."""
        out, st = [], [self.factor] if self.factor is not None else []
        while st:
            x = st.pop()
            if x.op == "phi":
                st += x.args[1:]
            else:
                out.append(x)
        return out

    def _parameters(self):
        """cvxpy parameters and the hyperparameter values bound to them."""
        self.bound = {}
        for e in self.ev.effects:
            if e.kind == "mutcall":
                for a in e.data[2]:
                    self._pair(a)
            elif e.kind in ("aug", "store", "call"):
                for a in e.data if e.kind != "call" else e.data[1]:
                    if isinstance(a, T):
                        for x in walk(a):
                            self._pair(x)
            if e.kind == "store" and e.data[1] == "value":
                if is_call(e.data[0], "cvxpy.Parameter"):
                    self.bound.setdefault(e.data[0], set()).add(e.data[2])

    def _pair(self, a):
        if a.op == "tuple" and len(a.args) == 2 and is_call(a.args[0], "cvxpy.Parameter"):
            self.bound.setdefault(a.args[0], set()).add(a.args[1])

    def variables(self):
        out = {}
        for c, _ in self.constraints:
            for t in walk(c):
                if is_variable(t):
                    out[t] = None
        for _, o, _ in self.problem.objectives():
            for t in walk(o):
                if is_variable(t):
                    out[t] = None
        return list(out)


def _value_of(t):
    if t.op == "attr" and t.args[1] == "value":
        return t.args[0]
    if t.op == "call" and t.args[0].op == "ext" and t.args[1]:
        return _value_of(t.args[1][0])
    return None


def satisfiable_gap(guards, drop):
    """An assignment of atoms under which none of the guards holds, or None.

    ``guards`` are conjunctions of (term, polarity); atoms for which ``drop``
    holds are assumed to have the polarity with which they stand in a guard.
    """
    fixed, clash = {}, set()
    for g in guards:
        st = list(g)
        while st:
            t, p = st.pop()
            if t.op == "not":
                st.append((t.args[0], not p))
            elif t.op == ("or" if p else "and"):
                # one own literal is enough to decide the composite
                st += [(x, p) for x in t.args if drop(x)]
            elif drop(t):
                if t in fixed and fixed[t] != p:
                    clash.add(t)
                fixed[t] = p
    for t in clash:
        fixed.pop(t)
    atoms = {}

    def collect(t):
        if t in fixed or is_const(t):
            return
        if t.op in ("and", "or"):
            for x in t.args:
                collect(x)
        elif t.op == "not":
            collect(t.args[0])
        elif t.op == "cmp" and t.args[0] in ("is not", "!=", "not in"):
            collect(mk("cmp", {"is not": "is", "!=": "==", "not in": "in"}[t.args[0]], *t.args[1:]))
        else:
            atoms.setdefault(t, len(atoms))

    def value(t, env):
        if t in fixed:
            return fixed[t]
        if is_const(t):
            return bool(cval(t))
        if t.op == "and":
            return all(value(x, env) for x in t.args)
        if t.op == "or":
            return any(value(x, env) for x in t.args)
        if t.op == "not":
            return not value(t.args[0], env)
        if t.op == "cmp" and t.args[0] in ("is not", "!=", "not in"):
            return not value(mk("cmp", {"is not": "is", "!=": "==", "not in": "in"}[t.args[0]], *t.args[1:]), env)
        return env[t]

    for g in guards:
        for t, _ in g:
            collect(t)
    names = list(atoms)
    if len(names) > 14:
        return "too many conditions"
    for bits in range(1 << len(names)):
        env = {t: bool(bits >> i & 1) for i, t in enumerate(names)}
        if not any(all(value(t, env) == p for t, p in g) for g in guards):
            return env
    return None


LIMITS = (
    "min_weights", "max_weights", "budget", "min_budget", "max_budget", "max_short",
    "max_long", "max_turnover", "max_tracking_error", "min_return", "cardinality",
    "threshold_long", "threshold_short", "right_inequality", "left_inequality",
    "linear_constraints", "group_cardinalities", "add_constraints", "add_objective",
    "previous_weights", "mu_uncertainty_set_estimator",
    "covariance_uncertainty_set_estimator", "efficient_frontier_size",
)  # fmt: skip


def options_off(cls, base, keep=()):
    """A configuration with every optional limit unset, except ``keep`` (given)."""
    params = cls.init().params()
    attrs = {}
    for p in params:
        if p in LIMITS or p.startswith("max_"):
            attrs[p] = NONE
        elif p in ("transaction_costs", "management_fees"):
            attrs[p] = const(0)
        elif p == "overwrite_expected_return":
            attrs[p] = NONE
    attrs.update({p: mk("given", p) for p in keep})
    attrs.update(base)
    return attrs


def canon(roots, names=None, unit=lambda t: False, zero=lambda t: False):
    """Structural fingerprint of a set of terms.

    The order of the terms, of summands and of factors does not matter, ``unit``
    factors and ``zero`` summands are left out, and variables are told apart by
    where they occur (colour refinement), not by name.
    """
    variables = {x for r in roots for x in walk(r) if is_call(x, "cvxpy.Variable", "cvxpy.Parameter")}
    colour = dict.fromkeys(variables, 0)
    out = ()
    for _ in range(4):
        memo = {}

        def sums(x, s, acc):
            if x.op == "bin" and x.args[0] in "+-":
                sums(x.args[1], s, acc)
                sums(x.args[2], s if x.args[0] == "+" else -s, acc)
            elif x.op == "un" and x.args[0] == "-":
                sums(x.args[1], -s, acc)
            elif not zero(x):
                acc.append((s, key(x)))
            return acc

        def prods(x, acc):
            if x.op == "bin" and x.args[0] == "*":
                prods(x.args[1], acc)
                prods(x.args[2], acc)
            elif not unit(x):
                acc.append(key(x))
            return acc

        def key(x):
            if isinstance(x, tuple):
                return tuple(key(y) for y in x)
            if not isinstance(x, T):
                return repr(x)
            if x in memo:
                return memo[x]
            if names and x in names:
                k = names[x]
            elif x.op == "self":
                k = "self"
            elif x in colour:
                k = ("var", colour[x], key(x.args[1]), key(x.args[2]))
            elif x.op == "bin" and x.args[0] in "+-" or x.op == "un" and x.args[0] == "-":
                acc = sums(x, 1, [])
                k = ("sum", *sorted(acc))
                if len(acc) == 1 and acc[0][0] == 1:
                    memo[x] = acc[0][1]
                    return memo[x]
            elif x.op == "bin" and x.args[0] == "*":
                acc = prods(x, [])
                if len(acc) == 1:
                    memo[x] = acc[0]
                    return memo[x]
                k = ("prod", *sorted(acc))
            elif x.op == "cmp" and x.args[0] in (">=", ">"):
                k = ("cmp", "<=", key(x.args[2]), key(x.args[1]))
            elif x.op == "call":
                k = ("call", key(x.args[0]), key(x.args[1]), key(x.args[2]))
            elif x.op == "new":
                k = ("new", *(key(y) for y in x.args[:3]))
            elif x.op in ("list", "dict", "comp", "elem", "closure", "loop", "prev"):
                k = (x.op, *(key(y) for y in x.args if isinstance(y, (T, tuple)) and not is_site(y)))
            else:
                k = (x.op, *(key(y) for y in x.args))
            k = hash_of(k)
            memo[x] = k
            return k

        keys = [key(r) for r in roots]
        where = {v: [] for v in variables}
        for r, k in zip(roots, keys):
            for x in walk(r):
                if x in where:
                    where[x].append(k)
        colour = {v: hash_of((colour[v], sorted(ks))) for v, ks in where.items()}
        out = (keys[0], *sorted(keys[1:])) if keys else ()
    return out


def is_site(y):
    return isinstance(y, tuple) and bool(y) and isinstance(y[0], str)


def hash_of(k):
    import hashlib

    return hashlib.sha1(repr(k).encode()).hexdigest()[:16]
