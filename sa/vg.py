"""Gated value graph: abstract evaluation of functions into terms and effects.

A function is turned into hash-consed terms over its inputs.  Branches become
``phi`` terms, loops over literal collections are unrolled, other loops are
summarised (``loop``/``prev``), calls to repository functions are resolved through
the class hierarchy and expanded in place.  Nothing is executed and no path is
enumerated: both arms of a branch are evaluated once and joined.

Term operators
  const v | in name | self cls | obj key cls | ext dotted | fn q | cls q | enum q m
  attr base name | sub base idx | slice a b c
  bin op a b | un op a | cmp op a b | and .. | or .. | not a
  phi cond a b | loop tag name init body | prev tag name init | elem iter tag
  tuple .. | list site .. | set .. | dict (k v).. | cat a b | star a
  call callee args kw site | meth recv name | bound recv qual | new cls args kw site
  fstr .. | comp kind elt iter conds | closure id | upd base key val | mut base m args
  exc site types | top deps
"""

from __future__ import annotations

import ast
import builtins
import string
import sys

from .index import Class, Func

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "loc", "_h", "__weakref__")
    _table: dict = {}

    def __repr__(self):
        return show(self)


def mk(op, *args, loc=None):
    key = (op, *args)
    try:
        t = T._table.get(key)
    except TypeError:
        key = (op, *[repr(a) for a in args])
        args = key[1:]
        t = T._table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.loc = op, args, loc
        T._table[key] = t
    elif t.loc is None and loc is not None:
        t.loc = loc
    return t


class _K:
    """Constant wrapper that keeps 1, 1.0 and True apart."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


def const(v):
    return mk("const", _K(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0].v


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, depth - 1)  # noqa: E731
    if o == "const":
        return repr(a[0])
    if o == "in":
        return a[0]
    if o == "self":
        return "self"
    if o in ("ext", "fn", "cls"):
        return a[0]
    if o == "enum":
        return f"{a[0].rsplit('.', 1)[-1]}.{a[1]}"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "un":
        return f"{a[0]}{s(a[1])}"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "phi":
        return f"[{s(a[1])} if {s(a[0])} else {s(a[2])}]"
    if o == "call":
        kw = [f"{k}={s(v)}" for k, v in a[2]]
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + kw)})"
    if o == "new":
        kw = [f"{k}={s(v)}" for k, v in a[2]]
        return f"{a[0].rsplit('.', 1)[-1]}({', '.join([s(x) for x in a[1]] + kw)})"
    if o == "prev":
        return str(a[1])
    if o == "meth":
        return f"{s(a[0])}.{a[1]}"
    if o == "bound":
        return f"{s(a[0])}.{a[1].rsplit('.', 1)[-1]}"
    return f"{o}({', '.join(s(x) if isinstance(x, T) else repr(x) for x in a)})"


def children(t):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    for x in t.args:
        rec(x)
    return out


def walk(t, into_cond=True, stop=None):
    """All distinct subterms, not going below those for which ``stop`` holds."""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if stop is not None and stop(x):
            continue
        ch = children(x)
        if x.op == "phi" and not into_cond:
            ch = [c for c in ch if c is not x.args[0]] or ch
        stack.extend(ch)


NEGATED = {"is not": "is", "!=": "==", "not in": "in", "is": "is not", "==": "!=", "in": "not in"}


def simp_not(t):
    if t.op == "not":
        return t.args[0]
    if is_const(t):
        return const(not cval(t))
    if t.op in ("and", "or"):
        return mk("or" if t.op == "and" else "and", *map(simp_not, t.args))
    if t.op == "cmp" and t.args[0] in NEGATED:
        return mk("cmp", NEGATED[t.args[0]], *t.args[1:], loc=t.loc)
    return mk("not", t)


def guard_atoms(cond, pol):
    """Split a condition into literal (term, polarity) pairs that all hold."""
    if cond.op == "not":
        return guard_atoms(cond.args[0], not pol)
    if cond.op == "and" and pol:
        return [x for c in cond.args for x in guard_atoms(c, True)]
    if cond.op == "or" and not pol:
        return [x for c in cond.args for x in guard_atoms(c, False)]
    if cond.op == "and" and all(c.op == "not" or c.op == "cmp" and c.args[0] in ("is not", "!=", "not in") for c in cond.args):
        return [(simp_not(cond), True)]
    if cond.op == "cmp":
        o = cond.args[0]
        inv = {"is not": "is", "!=": "==", "not in": "in"}
        if o in inv:
            return [(mk("cmp", inv[o], *cond.args[1:]), not pol)]
    return [(cond, pol)]


class Effect:
    __slots__ = ("kind", "guard", "data", "loc", "func", "stack")

    def __init__(self, kind, guard, data, loc, func, stack):
        self.kind, self.guard, self.data = kind, guard, data
        self.loc, self.func, self.stack = loc, func, stack

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.loc}>"


class State:
    __slots__ = ("frames", "heap", "guard", "dead")

    def __init__(self):
        self.frames, self.heap, self.guard, self.dead = [], {}, (), False

    def fork(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.guard, s.dead = self.guard, self.dead
        return s

    def assume(self, cond, pol):
        have = set(self.guard)
        extra = [a for a in guard_atoms(cond, pol) if a not in have]
        self.guard = self.guard + tuple(extra)


UNSET = mk("unset")


class FrameInfo:
    """Static context of an activation."""

    __slots__ = (
        "func", "module", "cls", "selfterm", "returns", "loops", "yields", "globals",
    )  # fmt: skip

    def __init__(self, func, module, cls, selfterm):
        self.func, self.module, self.cls, self.selfterm = func, module, cls, selfterm
        self.returns, self.loops, self.yields = [], [], []


def text_of(parts):
    """The text made of the given parts."""
    if all(is_const(x) for x in parts):
        return const("".join(str(cval(x)) for x in parts))
    return mk("fstr", *[x for x in parts if not (is_const(x) and cval(x) == "")])


def formatted(text, args, kw):
    """``text.format(...)`` with plain fields only, else None."""
    kw = dict(kw)
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(text))
    except ValueError:
        return None
    for lit, name, spec, conv in fields:
        parts.append(const(lit))
        if name is None:
            continue
        if spec or conv:
            return None
        if name == "":
            name, auto = str(auto), auto + 1
        x = args[int(name)] if name.isdigit() and int(name) < len(args) else kw.get(name)
        if x is None:
            return None
        parts.append(x)
    return text_of(parts)


class Budget(Exception):
    pass


MUTATORS = {
    "append", "extend", "insert", "update", "pop", "clear", "remove", "sort",
    "reverse", "add", "discard", "setdefault", "popitem", "fill", "put", "resize",
    "itemset", "partition", "setflags", "appendleft", "popleft",
    "difference_update", "intersection_update",
}  # fmt: skip

OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
    ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}  # fmt: skip
CMPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}  # fmt: skip


class Evaluator:
    def __init__(self, program, *, inline=None, max_depth=14, budget=400000,
                 no_inline=(), self_attrs=None, inline_new=False):
        """``inline(func) -> bool`` decides which repository functions to expand."""
        self.p = program
        self.inline_pred = inline or (lambda f: True)
        self.max_depth = max_depth
        self.budget = budget
        self.no_inline = set(no_inline)
        self.effects: list[Effect] = []
        self.infos: list[FrameInfo] = []
        self.carried = {}  # (loop, name) -> value at the end of an iteration
        self.closures: dict = {}
        self.nsite = 0
        self.glob_cache: dict = {}
        self.st = State()
        self.unknown: list = []
        self.inline_new = inline_new
        self.call_stack: list = []
        self.touched: set = set()
        self.self_attrs = dict(self_attrs or {})
        self.memo: dict = {}

    # -- public ----------------------------------------------------------
    def run(self, func: Func, *, cls: Class | None = None, args=None, selfterm=None):
        """Evaluate ``func`` on symbolic inputs; returns (result, state)."""
        env = {}
        st = None
        names = func.all_params()
        cls = cls or func.cls
        if func.cls is not None and not func.is_static:
            st = selfterm or (
                mk("cls", cls.qual) if func.is_classmethod else mk("self", cls.qual)
            )
            env[names[0]] = st
            names = names[1:]
        for n in names:
            env[n] = (args or {}).get(n, mk("in", n))
        res = self._run_body(func, env, cls, st, entry=True)
        return res

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise Budget("evaluation budget exhausted")

    def loc(self, node):
        return f"{self.infos[-1].module.rel}:{getattr(node, 'lineno', 0)}"

    def effect(self, kind, data, node):
        self.effects.append(
            Effect(
                kind, self.st.guard, data, self.loc(node),
                self.infos[-1].func, tuple(f.func.qual for f in self.infos if f.func),
            )
        )  # fmt: skip

    def site(self, node):
        # one site per syntactic place and inlining context
        ctx = tuple(self.call_stack)
        return (
            f"{self.infos[-1].module.name}:{getattr(node, 'lineno', 0)}:"
            f"{getattr(node, 'col_offset', 0)}",
            ctx,
        )

    @property
    def env(self):
        return self.st.frames[-1]

    # -- function bodies ---------------------------------------------------
    def _run_body(self, func, env, cls, selfterm, entry=False):
        info = FrameInfo(func, func.module, func.cls, selfterm)
        self.infos.append(info)
        self.st.frames.append(env)
        g0 = self.st.guard
        self.block(func.node.body)
        if not self.st.dead:
            if entry:
                self.effect("return", NONE, func.node)
            info.returns.append((NONE, self.st, self.st.guard))
        res, st = self._join_returns(info, g0)
        self.infos.pop()
        if st is None:
            # every path raises
            self.st.dead = True
            if len(self.st.frames) > len(self.infos):
                self.st.frames.pop()
            return mk("raises")
        self.st = st
        self.st.frames.pop()
        if info.yields:
            res = mk("gen", tuple(info.yields))
        return res

    def _join_returns(self, info, g0):
        rets = info.returns
        if not rets:
            return None, None
        val, st, guard = rets[-1]
        st = st.fork()
        st.dead = False
        for v2, s2, g2 in reversed(rets[:-1]):
            suffix = g2[len(g0):]
            cond = conj(suffix)
            s2 = s2.fork()
            s2.dead = False
            st = self.merge(cond, s2, st, common_guard(g2, st.guard))
            val = phi(cond, v2, val)
        return val, st

    def merge(self, cond, a, b, guard):
        """State after ``a`` if cond else ``b``."""
        out = State()
        out.guard = guard
        for fa, fb in zip(a.frames, b.frames):
            f = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                va, vb = fa.get(k, UNSET), fb.get(k, UNSET)
                f[k] = va if va is vb else phi(cond, va, vb)
            out.frames.append(f)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va = a.heap.get(k)
            vb = b.heap.get(k)
            if va is None:
                va = mk("attr", *k) if k[0].op != "dictof" else UNSET
            if vb is None:
                vb = mk("attr", *k)
            out.heap[k] = va if va is vb else phi(cond, va, vb)
        return out

    # -- statements --------------------------------------------------------
    def block(self, body):
        for s in body:
            if self.st.dead:
                return
            self.stmt(s)

    def stmt(self, s):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((type(s).__name__, self.loc(s)))
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Import
    s_Global = s_Import
    s_Nonlocal = s_Import

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.st.dead:
            return
        if len(self.infos) == 1:
            self.effect("return", v, s)
        self.infos[-1].returns.append((v, self.st, self.st.guard))
        self.st = self.st.fork()
        self.st.dead = True

    def s_Raise(self, s):
        e = self.ev(s.exc) if s.exc is not None else mk("reraise")
        if self.st.dead:
            return
        self.effect("raise", e, s)
        self.st = self.st.fork()
        self.st.dead = True

    def s_Assert(self, s):
        c = self.ev(s.test)
        self.effect("assert", c, s)
        self.st.assume(c, True)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.effect("delattr", (o, t.attr), s)
                self.st.heap[(o, t.attr)] = UNSET
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)
                self.effect("delitem", (o, k), s)
                if o.op == "dict" and is_const(k) and all(is_const(x) for x, _ in o.args[1:]):
                    new = mk("dict", o.args[0], *[(x, v) for x, v in o.args[1:] if x is not k])
                    self.replace(o, new)
                    self.assign_back(t.value, new)
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)

    def s_FunctionDef(self, s):
        f = Func(s.name, f"{self.infos[-1].func.qual}.<locals>.{s.name}",
                 self.infos[-1].module, None, s, outer=self.infos[-1].func)
        self.env[s.name] = self.make_closure(f, s)

    def s_ClassDef(self, s):
        self.env[s.name] = mk("top", ())

    def make_closure(self, f, node):
        key = self.site(node)
        c = mk("closure", key)
        self.closures[c] = (f, len(self.st.frames) - 1, self.env, self.infos[-1])
        return c

    def s_Assign(self, s):
        v = self.ev(s.value)
        if self.st.dead:
            return
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            if not self.st.dead:
                self.assign(s.target, v, s)

    def s_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        old = self.ev(load)
        v = self.ev(s.value)
        op = OPS[type(s.op)]
        if self.st.dead:
            return
        base = None
        if isinstance(s.target, ast.Subscript):
            base = self.ev(_as_load(s.target.value))
        key = None
        if isinstance(s.target, ast.Subscript) and isinstance(s.target.slice, ast.Name | ast.Constant):
            key = self.ev(s.target.slice)
        elif old.op == "sub" and base is not None:
            key = old.args[1]
        self.effect("aug", (old, op, v, base, isinstance(s.target, ast.Name), key), s)
        new = self.binop(op, old, v, s)
        if old.op == "list" and op == "+" or (
            op == "+" and is_seq(old)
        ):
            # in-place extension is visible through every alias
            self.replace(old, new)
        self.assign(s.target, new, s, aug=True)

    def assign(self, t, v, s, aug=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.store_attr(o, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            if not aug:
                self.effect("setitem", (o, k, v), s)
            new = update(o, k, v)
            self.replace(o, new)
            self.assign_back(t.value, new)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def assign_back(self, target, new):
        """The container stored at ``target`` changed in place."""
        if isinstance(target, ast.Name):
            if target.id in self.env:
                self.env[target.id] = new
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value)
            self.st.heap[(o, target.attr)] = new
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value)
            if o.op in ("dict", "list", "upd", "self"):
                k = self.ev(target.slice)
                self.assign_back(target.value, update(o, k, new))

    def store_attr(self, o, name, v, node):
        self.effect("store", (o, name, v), node)
        cls = self.class_of(o)
        if cls is not None:
            setter = cls.find_setter(name)
            if setter is not None and self.can_inline(setter):
                self.call_func(setter, cls, o, [v], {}, node)
                return
        self.st.heap[(o, name)] = v

    def unpack(self, elts, v, s):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        parts = seq_items(v)
        if parts is not None and not star and len(parts) == n:
            for e, x in zip(elts, parts):
                self.assign(e, x, s)
            return
        if v.op == "phi" and not star:
            a, b = seq_items(v.args[1]), seq_items(v.args[2])
            if a is not None and b is not None and len(a) == len(b) == n:
                for e, x, y in zip(elts, a, b):
                    self.assign(e, phi(v.args[0], x, y), s)
                return
        for i, e in enumerate(elts):
            self.assign(e, item(v, const(i)) if not star else mk("sub", v, const(i)), s)

    def replace(self, old, new):
        """Update every alias of a container after an in-place change."""
        if old is new or old.op in ("const", "in", "self", "attr", "phi", "unset"):
            return
        for f in self.st.frames:
            for k, v in f.items():
                if v is old:
                    f[k] = new
        for k, v in self.st.heap.items():
            if v is old:
                self.st.heap[k] = new

    # -- control flow ------------------------------------------------------
    def truth(self, cond):
        """Decided truth of a condition under the current guard, or None."""
        return decide(cond, self.st.guard)

    def s_If(self, s):
        cond = self.cond(s.test)
        if self.st.dead:
            return
        t = self.truth(cond)
        if t is True:
            return self.block(s.body)
        if t is False:
            return self.block(s.orelse)
        base = self.st
        a = base.fork()
        a.assume(cond, True)
        self.st = a
        self.block(s.body)
        a = self.st
        b = base.fork()
        b.assume(cond, False)
        self.st = b
        self.block(s.orelse)
        b = self.st
        self.join2(cond, a, b, base)

    def join2(self, cond, a, b, base):
        if a.dead and b.dead:
            self.st = a
        elif a.dead:
            self.st = b
        elif b.dead:
            self.st = a
        else:
            self.st = self.merge(cond, a, b, common_guard(a.guard, b.guard))

    def cond(self, node):
        return self.ev(node)

    def s_Match(self, s):
        subj = self.ev(s.subject)
        self._cases(subj, s.cases, s)

    def _cases(self, subj, cases, s):
        if not cases:
            return
        c = cases[0]
        cond, binds = self.pattern(c.pattern, subj)
        base = self.st
        a = base.fork()
        self.st = a
        for k, v in binds:
            self.env[k] = v
        if c.guard is not None:
            g = self.ev(c.guard)
            cond = conj_t([cond, g])
        t = self.truth(cond)
        if t is False:
            self.st = base
            return self._cases(subj, cases[1:], s)
        if t is True:
            return self.block(c.body)
        self.st.assume(cond, True)
        self.block(c.body)
        a = self.st
        b = base.fork()
        b.assume(cond, False)
        self.st = b
        self._cases(subj, cases[1:], s)
        self.join2(cond, a, self.st, base)

    def pattern(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return self.compare("==", subj, self.ev(p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", subj, const(p.value)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, subj)] if p.name else [])
            c, b = self.pattern(p.pattern, subj)
            return c, [*b, *([(p.name, subj)] if p.name else [])]
        if isinstance(p, ast.MatchOr):
            cs, bs = [], []
            for x in p.patterns:
                c, b = self.pattern(x, subj)
                cs.append(c)
                bs += b
            return disj_t(cs), bs
        if isinstance(p, ast.MatchSequence):
            cs, bs = [], []
            for i, x in enumerate(p.patterns):
                c, b = self.pattern(x, item(subj, const(i)))
                cs.append(c)
                bs += b
            return conj_t(cs), bs
        if isinstance(p, ast.MatchClass):
            return mk("call", mk("ext", "isinstance"), (subj, self.ev(p.cls)), (), None), []
        return mk("top", (subj,)), []

    def s_For(self, s):
        it = self.ev(s.iter)
        if self.st.dead:
            return
        items = self.iter_items(it)
        if items is None:
            it = unfactor(it)
        if items is None and it.op == "phi" and self.splittable(it):
            return self.split_for(s, it)
        self._for_over(s, it, items)

    def splittable(self, it):
        if it.op != "phi":
            return self.iter_items(it) is not None
        return self.splittable(it.args[1]) and self.splittable(it.args[2])

    def split_for(self, s, it):
        """Loop over one of two known collections: one arm each."""
        if it.op != "phi":
            return self._for_over(s, it, self.iter_items(it))
        t = self.truth(it.args[0])
        if t is not None:
            return self.split_for(s, it.args[1] if t else it.args[2])
        base = self.st
        a = base.fork()
        a.assume(it.args[0], True)
        self.st = a
        self.split_for(s, it.args[1])
        a = self.st
        b = base.fork()
        b.assume(it.args[0], False)
        self.st = b
        self.split_for(s, it.args[2])
        self.join2(it.args[0], a, self.st, base)

    def _for_over(self, s, it, items):
        info = self.infos[-1]
        if items is not None and len(items) <= 160:
            loop = {"brk": [], "cont": []}
            info.loops.append(loop)
            for i, x in enumerate(items):
                if self.st.dead:
                    break
                loop["cont"] = []
                self.call_stack.append(("iter", s.lineno, i))
                self.assign(s.target, x, s)
                self.block(s.body)
                self.call_stack.pop()
                for c in loop["cont"]:
                    self.rejoin(c)
            info.loops.pop()
            if s.orelse and not self.st.dead:
                self.block(s.orelse)
            for b in loop["brk"]:
                self.rejoin(b)
            return
        self.generic_loop(s, lambda tag: self.assign(s.target, elem(it, tag), s), it)

    s_AsyncFor = s_For

    def s_While(self, s):
        self.generic_loop(s, None, None)

    def rejoin(self, other):
        """Join a saved (break/continue) state into the current one."""
        if self.st.dead:
            self.st = other.fork()
            self.st.dead = False
            return
        g = common_guard(other.guard, self.st.guard)
        suffix = other.guard[len(g):]
        cond = conj(suffix) if suffix else mk("top", ())
        o = other.fork()
        o.dead = False
        self.st = self.merge(cond, o, self.st, g)

    def generic_loop(self, s, bind, it):
        info = self.infos[-1]
        tag = self.site(s)
        assigned = assigned_names(s)
        pre = self.st.fork()
        for n in assigned:
            if n in self.env:
                self.env[n] = mk("prev", tag, n, self.env[n])
        loop = {"brk": [], "cont": []}
        info.loops.append(loop)
        g0 = self.st.guard
        if bind:
            bind(tag)
            self.st.assume(mk("inloop", tag, it), True)
        else:
            c = self.ev(s.test)
            self.st.assume(c, True)
        self.block(s.body)
        for c in loop["cont"]:
            self.rejoin(c)
        info.loops.pop()
        post = self.st
        if not post.dead:
            for n in assigned:
                if n in post.frames[-1]:
                    self.carried[tag, n] = post.frames[-1][n]
        outs = [] if post.dead else [post]
        for b in loop["brk"]:
            b = b.fork()
            b.dead = False
            outs.append(b)
        out = pre.fork()
        out.guard = g0
        if outs:
            m = outs[0]
            for b in outs[1:]:
                suffix = b.guard[len(g0):]
                m = self.merge(conj(suffix) if suffix else mk("top", ()), b, m, g0)
            for i, f in enumerate(out.frames):
                mf = m.frames[i]
                for k, v in mf.items():
                    ov = f.get(k, UNSET)
                    if v is not ov and not (
                        v.op == "prev" and v.args[0] == tag and v.args[2] is ov
                    ):
                        f[k] = mk("loop", tag, k, ov, v)
            for k, v in m.heap.items():
                ov = out.heap.get(k)
                if v is not ov:
                    out.heap[k] = mk(
                        "loop", tag, k, ov if ov is not None else mk("attr", *k), v
                    )
        self.st = out
        if s.orelse:
            self.block(s.orelse)

    def s_Break(self, s):
        self.effect("break", (), s)
        loops = self.infos[-1].loops
        if loops:
            loops[-1]["brk"].append(self.st.fork())
        self.st = self.st.fork()
        self.st.dead = True

    def s_Continue(self, s):
        loops = self.infos[-1].loops
        if loops:
            loops[-1]["cont"].append(self.st.fork())
        self.st = self.st.fork()
        self.st.dead = True

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk("enter", v), s)
        self.effect("with", tuple(self.ev(i.context_expr) for i in s.items), s)
        k = len(self.effects) - 1
        self.block(s.body)
        self.effect("endwith", (k,), s)

    def s_Try(self, s):
        base = self.st.fork()
        n0, r0 = len(self.effects), len(self.infos[-1].returns)
        self.block(s.body)
        body_effects = list(range(n0, len(self.effects)))
        after = self.st
        if not after.dead and s.orelse:
            self.block(s.orelse)
            after = self.st
        outs = [after]
        exc_root = self.site(s)
        # nothing but known values is computed: no handler can be reached
        safe = (
            all(self.effects[k].kind == "return" for k in body_effects)
            and all(isinstance(x, ast.Return) for x in s.body)
            and all(is_const(v) or v.op == "enum" for v, _, _ in self.infos[-1].returns[r0:])
        )
        for h in [] if safe else s.handlers:
            types = self.exc_types(h.type)
            cond = mk("exc", exc_root, types)
            hs = base.fork()
            if not after.dead:
                hs = self.merge(mk("excpoint", exc_root), base.fork(), after.fork(), base.guard)
            hs.guard = (*base.guard, (cond, True))
            self.st = hs
            if h.name:
                self.env[h.name] = mk("excval", exc_root, types)
            self.effect("handler", (exc_root, types, tuple(body_effects)), h)
            k = len(self.effects) - 1
            self.block(h.body)
            self.effect("endhandler", (k, self.st.dead), h)
            outs.append(self.st)
        alive = [o for o in outs if not o.dead]
        if not alive:
            self.st = outs[0]
        else:
            cur = alive[0]
            for o in alive[1:]:
                extra = o.guard[len(base.guard):]
                cur = self.merge(
                    conj(extra) if extra else mk("top", ()), o, cur,
                    common_guard(o.guard, cur.guard),
                )
            self.st = cur
        if s.finalbody:
            was_dead = self.st.dead
            self.st.dead = False
            self.block(s.finalbody)
            if was_dead:
                self.st.dead = True

    s_TryStar = s_Try

    def exc_types(self, node):
        if node is None:
            return ("BaseException",)
        nodes = node.elts if isinstance(node, ast.Tuple) else [node]
        return tuple(self.infos[-1].module.dotted(n) or ast.unparse(n) for n in nodes)

    # -- expressions -------------------------------------------------------
    def ev(self, e):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((type(e).__name__, self.loc(e)))
            return mk("top", ())
        t = m(e)
        return t

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        n = e.id
        if n in self.env:
            return self.env[n]
        info = self.infos[-1]
        # enclosing function environments for closures
        outer = getattr(self, "_closure_env", {}).get(id(info))
        while outer is not None:
            envref, nxt = outer
            if n in envref:
                return envref[n]
            outer = nxt
        return self.global_name(info.module, n)

    def global_name(self, module, n):
        q = module.lookup(n)
        if q is None:
            if n in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[n])
            return mk("ext", n) if hasattr(builtins, n) or n.startswith("__") else UNSET
        return self.symbol(self.p.canonical(q))

    def symbol(self, q):
        p = self.p
        if q in p.classes:
            return mk("cls", q)
        if q in p.funcs:
            return mk("fn", q)
        if q in p.modules:
            return mk("ext", q)
        head, _, tail = q.rpartition(".")
        if head in p.modules and tail in p.modules[head].globals:
            if q in self.glob_cache:
                return self.glob_cache[q]
            self.glob_cache[q] = mk("ext", q)
            m = p.modules[head]
            saved, self.st = self.st, State()
            infos, self.infos = self.infos, []
            eff, self.effects = self.effects, []
            f = Func("<module>", head, m, None, m.tree)
            self.infos = [FrameInfo(f, m, None, None)]
            self.st.frames = [{}]
            try:
                if tail in m.built:
                    self.block(m.built[tail])
                    v = self.st.frames[-1].get(tail, mk("ext", q))
                else:
                    v = self.ev(m.globals[tail])
            finally:
                self.st, self.infos, self.effects = saved, infos, eff
            if v.op in ("top",):
                v = mk("ext", q)
            self.glob_cache[q] = v
            return v
        if head in p.classes:
            c = p.classes[head]
            if c.is_enum() and tail in c.enum_members():
                return mk("enum", head, tail)
            f = c.find_method(tail)
            if f is not None:
                return mk("fn", f.qual)
        return mk("ext", q)

    def class_of(self, t):
        if t.op in ("self",):
            return self.p.classes.get(t.args[0])
        if t.op == "new":
            return self.p.classes.get(t.args[0])
        if t.op == "enum":
            return self.p.classes.get(t.args[0])
        if t.op == "obj":
            return self.p.classes.get(t.args[1])
        return None

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr_(o, e.attr, e)

    def getattr_(self, o, name, node):
        key = (o, name)
        if key in self.st.heap:
            self.note_read(o, name, node, self.st.heap[key])
            return self.st.heap[key]
        if o.op == "phi" and any(
            x.op == "enum" or (x, name) in self.st.heap for x in o.args[1:]
        ):
            return phi(
                o.args[0],
                self.getattr_(o.args[1], name, node),
                self.getattr_(o.args[2], name, node),
            )
        if o.op == "ext":
            q = self.p.canonical(f"{o.args[0]}.{name}")
            return self.symbol(q)
        if o.op == "phi" and name in ("__code__", "co_varnames", "co_argcount", "__name__") and (
            callable_known(o) or o.args[1].op == "code"
        ):
            return phi(
                o.args[0],
                self.getattr_(o.args[1], name, node),
                self.getattr_(o.args[2], name, node),
            )
        if name == "__code__" and o.op in ("fn", "bound"):
            return mk("code", o.args[-1])
        if o.op == "code":
            names = code_names(self.p.funcs[o.args[0]])
            if name == "co_varnames":
                return mk("tuple", *[const(n) for n in names])
            if name == "co_argcount":
                return const(len(names))
        if name == "__name__" and o.op in ("fn", "bound"):
            return const(o.args[-1].rsplit(".", 1)[-1])
        if o.op == "new":
            v = self.new_field(o, name)
            if v is not None:
                return v
        if o.op == "super":
            cls, after, selft = o.args
            c = self.p.classes[cls]
            mro = c.mro()
            i = [k for k, x in enumerate(mro) if getattr(x, "qual", x) == after]
            for x in mro[(i[0] + 1 if i else 1):]:
                if isinstance(x, Class):
                    if name in x.methods:
                        f = x.methods[name]
                        if f.is_property:
                            return self.call_func(f, c, selft, [], {}, node)
                        return mk("bound", selft, f.qual)
                else:
                    pass
            return mk("meth", o, name)
        if o.op == "cls":
            c = self.p.classes.get(o.args[0])
            if c is not None:
                if c.is_enum() and name in c.enum_members():
                    return mk("enum", c.qual, name)
                f = c.find_method(name)
                if f is not None:
                    if f.is_classmethod:
                        return mk("bound", o, f.qual)
                    return mk("fn", f.qual)
                a = c.find_attr(name)
                if a is not None:
                    return self.class_attr(*a)
                if name == "__name__":
                    return const(c.name)
                if name == "__mro__":
                    return mk("tuple", *[mk("ext", b) if isinstance(b, str) else mk("cls", b.qual) for b in c.mro()])
            return mk("attr", o, name)
        if o.op == "enum":
            c = self.p.classes.get(o.args[0])
            if name == "name":
                return const(o.args[1])
            if name == "value":
                return self.enum_value(c, o.args[1])
            if c.is_enum() and name in c.enum_members():
                return mk("enum", c.qual, name)
        cls = self.class_of(o)
        if cls is not None:
            f = cls.find_method(name)
            if f is not None:
                if f.is_property:
                    self.note_read(o, name, node, None)
                    if self.can_inline(f):
                        return self.call_func(f, cls, o, [], {}, node)
                    return mk("attr", o, name)
                if f.is_static:
                    return mk("fn", f.qual)
                return mk("bound", o, f.qual)
            if name == "__class__":
                return mk("cls", cls.qual)
            if name == "__dict__":
                return mk("attr", o, name)
            a = cls.find_attr(name)
            if a is not None and not self.attr_is_instance(cls, name):
                return self.class_attr(*a)
            if o.op == "self" and name in self.self_attrs:
                return self.self_attrs[name]
            self.note_read(o, name, node, None)
        return mk("attr", o, name, loc=self.loc(node))

    def new_field(self, o, name):
        """Constructor-argument attribute of an object built in view."""
        c = self.p.classes.get(o.args[0])
        if c is None or c.find_method(name) is not None:
            return None
        kw = dict(o.args[2])
        if "**" in kw:
            return None
        init = c.init()
        if init is None:
            if name in kw:
                return kw[name]
            return None
        if name not in init.params():
            return None
        if name in kw:
            return kw[name]
        a = init.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        if name in defaults:
            return self.default_value(init, defaults[name])
        return None

    def attr_is_instance(self, cls, name):
        init = cls.find_method("__init__")
        return init is not None and name in init.params()

    def note_read(self, o, name, node, val):
        self.effect("read", (o, name, val), node)

    def class_attr(self, c, expr):
        key = (c.qual, id(expr))
        if key in self.glob_cache:
            return self.glob_cache[key]
        saved, self.st = self.st, State()
        infos, eff = self.infos, self.effects
        self.effects = []
        f = Func("<class>", c.qual, c.module, None, c.node)
        self.infos = [FrameInfo(f, c.module, None, None)]
        env = {}
        self.st.frames = [env]
        try:
            v = self.ev(expr)
            name = next((n for n, x in c.attrs.items() if x is expr), None)
            later = [
                b for b in c.node.body
                if isinstance(b, (ast.Expr, ast.AugAssign)) and b.lineno > expr.lineno and name in assigned_names(b)
            ]  # fmt: skip
            if later:
                # statements of the class body that go on building the value
                env[name] = v
                self.block(later)
                v = self.st.frames[-1].get(name, v)
        finally:
            self.st, self.infos, self.effects = saved, infos, eff
        self.glob_cache[key] = v
        return v

    def enum_value(self, c, member):
        expr = c.attrs.get(member)
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, ast.Call) and any(
            "_generate_next_value_" in k.methods for k in c.repo_mro()
        ):
            for k in c.repo_mro():
                g = k.methods.get("_generate_next_value_")
                if g is not None:
                    ev = Evaluator(self.p)
                    r = ev.run(g, args={"name": const(member)})
                    if is_const(r):
                        return r
                    # a static method's first parameter is an ordinary one
                    break
        if isinstance(expr, ast.Call):
            return const(member.lower())
        return mk("attr", mk("enum", c.qual, member), "value")

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev(e.slice)
        t = item(o, k)
        if t.op == "sub":
            t.loc = t.loc or self.loc(e)
            self.effect("index", (o, k), e)
        return t

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.ev(x)  # noqa: E731
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e):
        return mk("tuple", *self.elts(e.elts))

    def e_List(self, e):
        return mk("list", self.site(e), *self.elts(e.elts))

    def e_Set(self, e):
        return mk("set", *self.elts(e.elts))

    def elts(self, nodes):
        out = []
        for n in nodes:
            if isinstance(n, ast.Starred):
                v = self.ev(n.value)
                xs = self.iter_items(v)
                if xs is not None:
                    out += xs
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(n))
        return out

    def e_Starred(self, e):
        return mk("star", self.ev(e.value))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                if d.op == "dict":
                    items += list(d.args[1:])
                else:
                    items.append((mk("star", d), d))
            else:
                items.append((self.ev(k), self.ev(v)))
        return mk("dict", self.site(e), *items)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        return self.binop(OPS[type(e.op)], a, b, e)

    def binop(self, op, a, b, node):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*" and not isinstance(x, str) and not isinstance(y, str):
                    return const(x * y)
                if op == "/":
                    return const(x / y)
                if op == "**" and abs(y) < 20:
                    return const(x**y)
                if op == "//":
                    return const(x // y)
                if op == "%" and not isinstance(x, str):
                    return const(x % y)
            except Exception:
                pass
        if op == "%" and is_const(a) and isinstance(cval(a), str):
            vals = seq_items(b) if b.op == "tuple" else [b]
            lits = cval(a).split("%s")
            if vals is not None and len(vals) == len(lits) - 1 and not any("%" in x for x in lits):
                return text_of([x for i, v in enumerate(vals) for x in (const(lits[i]), v)] + [const(lits[-1])])
        if op == "+" and (is_seq(a) or is_seq(b)):
            return concat(a, b)
        return mk("bin", op, a, b, loc=self.loc(node))

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = decide(v, ())
            return const(not t) if t is not None else simp_not(v)
        o = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if is_const(v) and isinstance(cval(v), (int, float)):
            return const({"-": lambda x: -x, "+": lambda x: +x, "~": lambda x: ~x}[o](cval(v)))
        return mk("un", o, v, loc=self.loc(e))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        base = self.st
        g0 = base.guard
        for x in e.values:
            v = self.ev(x)
            t = self.truth(v)
            if t is not None:
                if t is (not isand):
                    vals.append(v)
                    break
                if x is e.values[-1] and not (vals and v in (TRUE, FALSE) and is_bool(vals[-1])):
                    vals.append(v)
                continue
            vals.append(v)
            self.st.assume(v, isand)
        self.st.guard = g0
        if not vals:
            return TRUE if isand else FALSE
        if len(vals) == 1:
            return vals[0]
        return mk("and" if isand else "or", *vals)

    def e_Compare(self, e):
        left = self.ev(e.left)
        parts = []
        for o, c in zip(e.ops, e.comparators):
            r = self.ev(c)
            t = self.compare(CMPS[type(o)], left, r)
            if t.loc is None:
                t.loc = self.loc(e)
            self.effect("cmp", t, e)
            parts.append(t)
            left = r
        return parts[0] if len(parts) == 1 else conj_t(parts)

    def compare(self, op, a, b):
        r = fold_cmp(op, a, b, self)
        if r is not None:
            return const(r)
        return mk("cmp", op, a, b)

    def e_IfExp(self, e):
        c = self.ev(e.test)
        t = self.truth(c)
        if t is True:
            return self.ev(e.body)
        if t is False:
            return self.ev(e.orelse)
        base = self.st
        a = base.fork()
        a.assume(c, True)
        self.st = a
        va = self.ev(e.body)
        a = self.st
        b = base.fork()
        b.assume(c, False)
        self.st = b
        vb = self.ev(e.orelse)
        b = self.st
        self.join2(c, a, b, base)
        return phi(c, va, vb)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.format_spec is not None and len(v.format_spec.values):
                    parts.append(mk("fmt", x, ast.unparse(v.format_spec)))
                    continue
                if x.op == "enum" and v.conversion == -1:
                    c = self.p.classes[x.args[0]]
                    if any("builtins" in str(b) or b == "str" for b in c.mro()):
                        pass
                parts.append(x)
        return text_of(parts)

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        node = ast.FunctionDef(
            name="<lambda>", args=e.args,
            body=[ast.copy_location(ast.Return(value=e.body), e)],
            decorator_list=[], returns=None, type_comment=None, type_params=[],
        )  # fmt: skip
        ast.copy_location(node, e)
        outer = self.infos[-1].func
        f = Func("<lambda>", f"{outer.qual if outer else ''}.<lambda>",
                 self.infos[-1].module, None, node, outer=outer)
        return self.make_closure(f, e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.effect("yield", v, e)
        self.infos[-1].yields.append(v)
        return mk("top", ())

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        if v.op == "gen":
            for y in v.args[0]:
                self.effect("yield", y, e)
                self.infos[-1].yields.append(y)
        else:
            self.effect("yieldfrom", v, e)
            self.infos[-1].yields.append(mk("elem", v, self.site(e)))
        return mk("top", ())

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e, "list", e.elt, None)

    def e_SetComp(self, e):
        return self.comp(e, "set", e.elt, None)

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen", e.elt, None)

    def e_DictComp(self, e):
        return self.comp(e, "dict", e.key, e.value)

    def comp(self, e, kind, elt, val):
        saved_env = self.env
        self.st.frames[-1] = dict(saved_env)
        out = []

        def finish(out):
            self.st.frames[-1] = self._restore(saved_env)
            if kind == "dict":
                return mk("dict", self.site(e), *out)
            if kind == "set":
                return mk("set", *dict.fromkeys(out))
            return mk("list", self.site(e), *out)

        if self._comp_unroll(e.generators, 0, elt, val, out):
            return finish(out)
        if len(e.generators) == 1:
            self.st.frames[-1] = dict(saved_env)
            it = unfactor(self.ev(e.generators[0].iter))
            if it.op == "phi" and self.splittable(it):

                def arm(x):
                    if x.op == "phi":
                        a, b = arm(x.args[1]), arm(x.args[2])
                        return None if a is None or b is None else phi(x.args[0], a, b)
                    o = []
                    self.st.frames[-1] = dict(saved_env)
                    if self._comp_unroll(
                        e.generators, 0, elt, val, o, self.iter_items(x)
                    ):
                        return finish(o)
                    return None

                r = arm(it)
                if r is not None:
                    self.st.frames[-1] = self._restore(saved_env)
                    return r
        self.st.frames[-1] = dict(saved_env)
        iters, conds = [], []
        g0 = self.st.guard
        for g in e.generators:
            it = self.ev(g.iter)
            tag = self.site(g.iter)
            self.assign(g.target, elem(it, tag), e)
            iters.append(it)
            self.st.assume(mk("inloop", tag, it), True)
            for c in g.ifs:
                cv = self.ev(c)
                conds.append(cv)
                self.st.assume(cv, True)
        v = self.ev(elt)
        if val is not None:
            v = mk("tuple", v, self.ev(val))
        self.st.guard = g0
        self.st.frames[-1] = self._restore(saved_env)
        return mk("comp", kind, v, tuple(iters), tuple(conds), loc=self.loc(e))

    def _restore(self, saved):
        return saved

    def _comp_unroll(self, gens, i, elt, val, out, items=None):
        if i == len(gens):
            v = self.ev(elt)
            out.append((v, self.ev(val)) if val is not None else v)
            return True
        g = gens[i]
        if items is None:
            items = self.iter_items(self.ev(g.iter))
        if items is None or len(items) > 64:
            return False
        for j, x in enumerate(items):
            self.call_stack.append(("iter", g.iter.lineno, j))
            try:
                self.assign(g.target, x, g.iter)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    if t is None:
                        return False
                    if t is False:
                        keep = False
                        break
                if keep and not self._comp_unroll(gens, i + 1, elt, val, out):
                    return False
            finally:
                self.call_stack.pop()
        return True

    def iter_items(self, t):
        """Elements of a collection whose elements are all known, or None."""
        if t.op == "tuple":
            xs = list(t.args)
        elif t.op == "list":
            xs = list(t.args[1:])
        elif t.op == "set":
            xs = list(t.args)
        elif t.op == "cls":
            c = self.p.classes.get(t.args[0])
            if c is None or not c.is_enum():
                return None
            return [mk("enum", c.qual, m) for m in c.enum_members()]
        elif t.op == "dict":
            xs = [k for k, _ in t.args[1:]]
        elif t.op == "call" and t.args[0].op == "ext":
            f, a = t.args[0].args[0], t.args[1]
            if f == "range" and all(is_const(x) for x in a):
                try:
                    r = range(*[cval(x) for x in a])
                except TypeError:
                    return None
                return [const(i) for i in r] if len(r) <= 16 else None
            if f == "enumerate" and len(a) == 1:
                xs = self.iter_items(a[0])
                return None if xs is None else [
                    mk("tuple", const(i), x) for i, x in enumerate(xs)
                ]
            if f == "zip" and a:
                ls = [self.iter_items(x) for x in a]
                if any(x is None for x in ls):
                    return None
                return [mk("tuple", *z) for z in zip(*ls)]
            if f in ("list", "tuple", "set", "frozenset", "reversed", "sorted") and len(a) == 1:
                xs = self.iter_items(a[0])
                if f == "sorted" and xs and all(is_const(x) for x in xs):
                    kw = dict(t.args[2])
                    by = kw.get("key", NONE)
                    by = None if by is NONE else len if by.op == "ext" and by.args[0] == "len" else ...
                    down = kw.get("reverse", FALSE)
                    if by is not ... and is_const(down):
                        try:
                            return sorted(xs, key=lambda x: by(cval(x)) if by else cval(x), reverse=bool(cval(down)))
                        except TypeError:
                            return xs
                return xs[::-1] if f == "reversed" and xs else xs
            return None
        else:
            return None
        if any(x.op == "star" for x in xs):
            return None
        return xs

    # -- calls ---------------------------------------------------------------
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            info = self.infos[-1]
            j = len(self.infos) - 1
            while info.cls is None and j > 0:
                j -= 1
                info = self.infos[j]
            selft = info.selfterm
            cls = self.class_of(selft) if selft is not None else None
            if selft is not None and selft.op == "cls":
                cls = self.p.classes.get(selft.args[0])
            if cls is not None and info.cls is not None:
                return mk("super", cls.qual, info.cls.qual, selft)
            return mk("top", ())
        f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                xs = self.iter_items(v)
                if xs is not None:
                    args += xs
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v.op == "dict" and all(is_const(x) for x, _ in v.args[1:]):
                    for x, y in v.args[1:]:
                        kw[cval(x)] = y
                else:
                    kw["**" if "**" not in kw else f"**{len(kw)}"] = v
            else:
                kw[k.arg] = v
        if self.st.dead:
            return mk("raises")
        return self.apply(f, args, kw, e)

    def apply(self, f, args, kw, e):
        op = f.op
        if "**" in kw and kw["**"].op == "phi":
            d = resolve(kw["**"], self.st.guard)
            if d.op == "dict" and all(is_const(x) for x, _ in d.args[1:]):
                kw = {k: v for k, v in kw.items() if k != "**"}
                kw.update({cval(x): y for x, y in d.args[1:]})
        if op == "phi" and (callable_known(f.args[1]) or callable_known(f.args[2])):
            base = self.st
            a = base.fork()
            a.assume(f.args[0], True)
            self.st = a
            va = self.apply(f.args[1], args, kw, e)
            a = self.st
            b = base.fork()
            b.assume(f.args[0], False)
            self.st = b
            vb = self.apply(f.args[2], args, kw, e)
            self.join2(f.args[0], a, self.st, base)
            return phi(f.args[0], va, vb)
        if op == "fn":
            fn = self.p.funcs[f.args[0]]
            if self.can_inline(fn) and inlinable_args(args, kw):
                if fn.cls is not None and not fn.is_static and not fn.is_classmethod and args:
                    return self.call_func(fn, self.class_of(args[0]) or fn.cls, args[0], args[1:], kw, e)
                return self.call_func(fn, fn.cls, None, args, kw, e)
            return self.opaque(f, args, kw, e)
        if op == "bound":
            fn = self.p.funcs[f.args[1]]
            recv = f.args[0]
            if self.can_inline(fn) and inlinable_args(args, kw):
                cls = self.class_of(recv) or fn.cls
                if recv.op == "cls":
                    cls = self.p.classes.get(recv.args[0], fn.cls)
                return self.call_func(fn, cls, recv, args, kw, e)
            return self.opaque(f, args, kw, e)
        if op == "closure" and f in self.closures and inlinable_args(args, kw):
            return self.call_closure(f, args, kw, e)
        if op == "partial" and inlinable_args(args, kw):
            return self.apply(f.args[0], [*f.args[1], *args], {**dict(f.args[2]), **kw}, e)
        if op == "cls":
            return self.construct(f, args, kw, e)
        if op == "ext":
            r = self.builtin(f.args[0], args, kw, e)
            if r is not None:
                return r
        if op == "call" and f.args[0].op == "ext":
            # joblib: delayed(f)(...) is f(...), Parallel(...)(tasks) their results
            q = f.args[0].args[0].rsplit(".", 1)[-1]
            if q == "delayed" and len(f.args[1]) == 1:
                return self.apply(f.args[1][0], args, kw, e)
            if q == "Parallel" and len(args) == 1 and not kw:
                t = args[0]
                if t.op == "comp":
                    return mk("comp", "list", *t.args[1:], loc=t.loc)
                return t
        if op == "attr" or op == "meth":
            r = self.method(f.args[0], f.args[1], args, kw, e)
            if r is not None:
                return r
        return self.opaque(f, args, kw, e)

    def construct(self, f, args, kw, e):
        c = self.p.classes.get(f.args[0])
        if c is not None and c.is_enum() and len(args) == 1:
            r = self.enum_lookup(c, args[0], e)
            return r if r is not None else mk("call", f, tuple(args), (), None)
        # bind positional arguments to names
        init = c.init() if c is not None else None
        names = init.params() if init is not None else list(c.annots) if c else []
        akw = dict(kw)
        rest = []
        for i, a in enumerate(args):
            if i < len(names) and a.op != "star":
                akw[names[i]] = a
            else:
                rest.append(a)
        t = mk("new", f.args[0], tuple(rest), tuple(sorted(akw.items())), self.site(e), loc=self.loc(e))
        self.effect("call", (f, tuple(args), tuple(sorted(kw.items())), t), e)
        return t

    def enum_lookup(self, c, v, e):
        """Member with a known value; an unknown value raises."""
        if v.op == "enum" and v.args[0] == c.qual:
            return v
        if not is_const(v):
            return None
        values = {m: self.enum_value(c, m) for m in c.enum_members()}
        if not all(is_const(x) for x in values.values()):
            return None
        for m, x in values.items():
            if cval(x) == cval(v):
                return mk("enum", c.qual, m)
        self.effect("raise", mk("call", mk("ext", "ValueError"), (v,), (), None), e)
        self.st = self.st.fork()
        self.st.dead = True
        return mk("top", ())

    def opaque(self, f, args, kw, e):
        fresh = f.op == "ext" and f.args[0].startswith(("cvxpy.Variable", "cvxpy.Parameter", "numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full"))
        # every piece taken from an iterator is another one
        fresh = fresh or (f.op == "ext" and f.args[0] == "next")
        site = self.site(e) if fresh else None
        t = mk("call", f, tuple(args), tuple(sorted(kw.items())), site, loc=self.loc(e))
        self.effect("call", (f, tuple(args), tuple(sorted(kw.items())), t), e)
        return t

    def can_inline(self, fn):
        if fn.qual in self.no_inline or not self.inline_pred(fn):
            return False
        if len(self.infos) >= self.max_depth:
            return False
        if sum(1 for i in self.infos if i.func is not None and i.func.node is fn.node) >= 2:
            return False
        if fn.is_abstract and not any(
            isinstance(x, (ast.Assign, ast.AugAssign, ast.Return))
            or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call))
            for x in fn.node.body
        ):
            return False
        return True

    def bind(self, fn, cls, recv, args, kw, node):
        a = fn.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        if recv is not None and fn.cls is not None and not fn.is_static:
            args = [recv, *args]
        vals = list(args)
        for n, v in zip(pos, vals):
            env[n] = v
        extra = vals[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *extra)
        rest = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            if len(rest) == 1 and "**" in rest:
                env[a.kwarg.arg] = rest["**"]
            else:
                env[a.kwarg.arg] = mk(
                    "dict", None, *[(const(k) if not k.startswith("**") else mk("star", v), v) for k, v in rest.items()]
                )
        elif "**" in rest:
            # unknown keywords may supply any missing parameter
            for n in pos + [x.arg for x in a.kwonlyargs]:
                if n not in env:
                    env[n] = mk("sub", rest["**"], const(n))
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                d = defaults.get(n)
                env[n] = self.default_value(fn, d) if d is not None else mk("unset")
        return env

    def default_value(self, fn, d):
        saved, self.st = self.st, State()
        infos, eff = self.infos, self.effects
        self.effects = []
        self.infos = [FrameInfo(fn, fn.module, None, None)]
        self.st.frames = [{}]
        try:
            return self.ev(d)
        finally:
            self.st, self.infos, self.effects = saved, infos, eff

    def call_func(self, fn, cls, recv, args, kw, node):
        env = self.bind(fn, cls, recv, args, kw, node)
        memo = None
        if any(d.endswith("cache_method") for d in fn.decorator_names()):
            # memoised: equal arguments give the very same object back
            memo = (fn.qual, recv, tuple(sorted(env.items())))
            if memo in self.memo:
                return self.memo[memo]
        self.effect("enter", (fn, tuple(args), tuple(sorted(kw.items())), recv), node)
        selfterm = recv
        self.call_stack.append((self.infos[-1].func.qual if self.infos[-1].func else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        try:
            res = self._run_body(fn, env, cls, selfterm)
        finally:
            self.call_stack.pop()
        if memo is not None and res.op != "raises":
            self.memo[memo] = res
        return res

    def call_closure(self, f, args, kw, e):
        fn, depth, envref, info = self.closures[f]
        if len(self.infos) >= self.max_depth or sum(
            1 for i in self.infos if i.func is not None and i.func.node is fn.node
        ) >= 2:
            return self.opaque(f, args, kw, e)
        env = self.bind(fn, None, None, args, kw, e)
        # captured variables: current frame contents if still active
        if depth < len(self.st.frames) and self.infos[depth] is info:
            captured = self.st.frames[depth]
        else:
            captured = envref
        a_info = FrameInfo(fn, fn.module, info.cls, info.selfterm)
        if not hasattr(self, "_closure_env"):
            self._closure_env = {}
        outer = self._closure_env.get(id(info))
        self._closure_env[id(a_info)] = (captured, outer)
        self.infos.append(a_info)
        self.st.frames.append(env)
        g0 = self.st.guard
        self.call_stack.append((fn.qual, e.lineno, e.col_offset))
        self.block(fn.node.body)
        if not self.st.dead:
            a_info.returns.append((NONE, self.st, self.st.guard))
        res, st = self._join_returns(a_info, g0)
        self.call_stack.pop()
        self.infos.pop()
        if st is None:
            self.st.dead = True
            if len(self.st.frames) > len(self.infos):
                self.st.frames.pop()
            return mk("raises")
        self.st = st
        self.st.frames.pop()
        if a_info.yields:
            res = mk("gen", tuple(a_info.yields))
        return res

    # -- known builtins ------------------------------------------------------
    def builtin(self, q, args, kw, e):
        a0 = args[0] if args else None
        if q == "getattr" and len(args) >= 2 and is_const(args[1]):
            if len(args) == 3:
                o = args[0]
                cls = self.class_of(o)
                key = (o, cval(args[1]))
                if o.op == "cls" and self.p.classes.get(o.args[0]) is not None:
                    a = self.p.classes[o.args[0]].find_attr(cval(args[1]))
                    if a is not None:
                        return self.class_attr(*a)
                if cval(args[1]) == "__slots__" and o.op in ("cls", "ext"):
                    return args[2]
                if key in self.st.heap:
                    return self.st.heap[key]
                if cls is not None and cls.find_method(cval(args[1])):
                    return self.getattr_(o, cval(args[1]), e)
                self.note_read(o, cval(args[1]), e, None)
                return phi(mk("cmp", "hasattr", o, args[1]), mk("attr", o, cval(args[1])), args[2])
            return self.getattr_(args[0], cval(args[1]), e)
        if q == "setattr" and len(args) == 3 and is_const(args[1]):
            self.store_attr(args[0], cval(args[1]), args[2], e)
            return NONE
        if q == "delattr" and len(args) == 2 and is_const(args[1]):
            self.effect("delattr", (args[0], cval(args[1])), e)
            self.st.heap[(args[0], cval(args[1]))] = UNSET
            return NONE
        if q == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if q == "str" and len(args) == 1 and is_const(a0):
            return const(str(cval(a0)))
        if q in ("int", "float", "bool") and len(args) == 1 and is_const(a0) and isinstance(cval(a0), (int, float, bool)):
            return const({"int": int, "float": float, "bool": bool}[q](cval(a0)))
        if q == "len" and len(args) == 1:
            xs = self.iter_items(a0)
            if xs is not None:
                return const(len(xs))
            if is_const(a0) and isinstance(cval(a0), str):
                return const(len(cval(a0)))
        if q == "list" and len(args) <= 1:
            if not args:
                return mk("list", self.site(e))
            xs = self.iter_items(a0)
            if xs is not None:
                return mk("list", self.site(e), *xs)
        if q == "tuple" and len(args) == 1:
            xs = self.iter_items(a0)
            if xs is not None:
                return mk("tuple", *xs)
        if q == "set" and len(args) <= 1:
            xs = self.iter_items(a0) if args else []
            if xs is not None:
                return mk("set", *dict.fromkeys(xs))
        if q == "dict":
            if not args and "**" not in kw:
                return mk("dict", self.site(e), *[(const(k), v) for k, v in kw.items()])
            if len(args) == 1 and a0.op == "dict" and not any(k.startswith("**") for k in kw):
                return mk("dict", self.site(e), *a0.args[1:], *[(const(k), v) for k, v in kw.items()])
        if q == "isinstance" and len(args) == 2:
            r = fold_isinstance(a0, args[1], self)
            if r is not None:
                return const(r)
        if q in ("numpy.matmul", "cvxpy.matmul") and len(args) == 2 and not kw:
            return mk("bin", "@", *args)
        if q in ("numpy.all", "numpy.any") and len(args) == 1 and is_const(a0) and isinstance(cval(a0), bool):
            return a0
        if q == "numpy.isscalar" and len(args) == 1 and is_const(a0):
            if cval(a0) is None or isinstance(cval(a0), (int, float, str, bool)):
                return const(cval(a0) is not None)
        if q == "callable" and len(args) == 1 and a0.op in ("enum", "new"):
            c = self.class_of(a0)
            if c is not None and not any(isinstance(b, str) and "." in b and not b.startswith("enum.") for b in c.mro()):
                return const(c.find_method("__call__") is not None)
        if q == "callable" and len(args) == 1 and a0.op in ("closure", "fn", "bound", "cls"):
            return TRUE
        if q == "any" or q == "all":
            xs = self.iter_items(a0) if args else None
            if xs is not None and len(xs) <= 32:
                return (disj_t if q == "any" else conj_t)(xs)
        if q == "map" and len(args) >= 2:
            its = [self.iter_items(x) for x in args[1:]]
            if all(x is not None for x in its):
                return mk("list", self.site(e), *[self.apply(a0, list(z), {}, e) for z in zip(*its)])
            if callable_known(a0):
                v = self.apply(a0, [elem(x, self.site(e)) for x in args[1:]], {}, e)
                return mk("comp", "gen", v, tuple(args[1:]), ())
        if q == "type" and len(args) == 1:
            c = self.class_of(a0)
            if c is not None:
                return mk("cls", c.qual)
        if q == "vars" and len(args) == 1:
            return mk("attr", a0, "__dict__")
        return None

    def method(self, recv, name, args, kw, e):
        # constant strings
        if is_const(recv) and isinstance(cval(recv), str):
            if name == "format":
                r = formatted(cval(recv), args, kw)
                if r is not None:
                    return r
            if name == "join" and len(args) == 1 and not kw:
                xs = self.iter_items(args[0])
                if xs is not None and all(is_const(x) and isinstance(cval(x), str) for x in xs):
                    return const(cval(recv).join(cval(x) for x in xs))
        if is_const(recv) and isinstance(cval(recv), str) and all(is_const(a) for a in args) and not kw:
            if name in ("lower", "upper", "strip", "startswith", "endswith", "replace",
                        "removesuffix", "removeprefix", "capitalize", "title", "split", "join"):  # fmt: skip
                try:
                    r = getattr(cval(recv), name)(*[cval(a) for a in args])
                    if isinstance(r, list):
                        return mk("list", self.site(e), *[const(x) for x in r])
                    return const(r)
                except Exception:
                    return None
        if recv.op == "dict" and all(is_const(k) or k.op == "enum" for k, _ in recv.args[1:]):
            items = recv.args[1:]
            if name == "items":
                return mk("list", self.site(e), *[mk("tuple", k, v) for k, v in items])
            if name == "values":
                return mk("list", self.site(e), *[v for _, v in items])
            if name == "keys":
                return mk("list", self.site(e), *[k for k, _ in items])
            if name == "get" and args and (is_const(args[0]) or args[0].op == "enum"):
                for k, v in reversed(items):
                    if k is args[0]:
                        return v
                return args[1] if len(args) > 1 else NONE
            if name == "copy":
                return mk("dict", self.site(e), *items)
        if recv.op == "set" and all(hasattr(x, "op") and (is_const(x) or x.op == "enum") for x in recv.args):
            r = self.set_method(recv, name, args, e)
            if r is not None:
                return r
        if name == "copy" and recv.op == "list" and not args:
            return mk("list", self.site(e), *recv.args[1:])
        if name == "__contains__" and len(args) == 1:
            return self.compare("in", args[0], recv)
        # `add` of a set takes one positional argument; with keywords it is a
        # builder that returns itself
        if name in MUTATORS and not (recv.op == "self") and not (name == "add" and kw):
            self.effect("mutcall", (recv, name, tuple(args), tuple(sorted(kw.items()))), e)
            new = None
            if name == "append" and len(args) == 1 and is_seq(recv):
                new = concat(recv, mk("list", None, args[0]))
            elif name == "extend" and len(args) == 1 and is_seq(recv):
                new = concat(recv, args[0])
            elif name == "update" and recv.op == "dict" and len(args) <= 1:
                d = args[0] if args else mk("dict", None)
                if d.op == "dict":
                    new = recv
                    for k, v in d.args[1:]:
                        new = update(new, k, v)
                    for k, v in kw.items():
                        new = update(new, const(k), v)
            if new is None:
                if recv.op in ("list", "dict", "set", "cat", "loop", "prev", "phi", "upd", "mut", "comp", "call"):
                    new = mk("mut", recv, name, tuple(args))
                else:
                    new = None
            if new is not None:
                self.replace(recv, new)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                    self.assign_back(e.func.value, new)
            if name in ("pop", "popitem", "setdefault", "popleft"):
                return mk("call", mk("meth", recv, name), tuple(args), tuple(sorted(kw.items())), None)
            return NONE
        # method of an object of known class
        cls = self.class_of(recv)
        if cls is None:
            t = mk("call", mk("meth", recv, name), tuple(args), tuple(sorted(kw.items())), None, loc=self.loc(e))
            if name == "apply" and args and callable_known(args[0]):
                # what the callback computes on one group or window of the receiver
                g = mk("given", "window", self.site(e))
                self.effect("applied", (t, g, self.apply(args[0], [g], {}, e)), e)
            self.effect("call", (mk("meth", recv, name), tuple(args), tuple(sorted(kw.items())), t), e)
            return t
        return None


    def set_method(self, recv, name, args, e):
        """Methods of a set whose elements are all known."""
        if name == "copy" and not args:
            return recv
        if name in ("union", "update", "difference", "difference_update", "intersection", "issubset", "issuperset"):
            others = [self.iter_items(a) for a in args]
            if any(o is None or not all(is_const(x) or x.op == "enum" for x in o) for o in others):
                return None
            flat = [x for o in others for x in o]
            if name in ("union", "update"):
                new = mk("set", *dict.fromkeys([*recv.args, *flat]))
            elif name in ("difference", "difference_update"):
                new = mk("set", *[x for x in recv.args if x not in flat])
            elif name == "intersection":
                new = mk("set", *[x for x in recv.args if all(x in o for o in others)])
            elif name == "issubset":
                return const(all(x in flat for x in recv.args))
            else:
                return const(all(x in recv.args for x in flat))
            if "update" not in name:
                return new
        elif name in ("add", "discard", "remove") and len(args) == 1 and (is_const(args[0]) or args[0].op == "enum"):
            new = mk("set", *dict.fromkeys([*recv.args, args[0]])) if name == "add" else mk("set", *[x for x in recv.args if x is not args[0]])
        else:
            return None
        self.effect("mutcall", (recv, name, tuple(args), ()), e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            self.assign_back(e.func.value, new)
        return NONE


# -- helpers -------------------------------------------------------------------
def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t


def assigned_names(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, ast.AugAssign):
            t = n.target
            while isinstance(t, (ast.Attribute, ast.Subscript)):
                t = t.value
            if isinstance(t, ast.Name) and t.id != "self":
                out.append(t.id)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript):
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Name):
                        out.append(t.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                out.append(n.func.value.id)
    return list(dict.fromkeys(out))


def is_seq(t):
    if t.op in ("list", "cat"):
        return True
    if t.op == "phi":
        return is_seq(t.args[1]) and is_seq(t.args[2])
    if t.op == "loop":
        return is_seq(t.args[2])
    if t.op == "prev":
        return is_seq(t.args[2])
    if t.op == "comp" and t.args[0] == "list":
        return True
    return False


def seq_items(t):
    if t.op == "tuple" and not any(x.op == "star" for x in t.args):
        return list(t.args)
    if t.op == "list" and not any(x.op == "star" for x in t.args[1:]):
        return list(t.args[1:])
    return None


def parts(t):
    """A sequence value as a flat list of single-element and opaque segments.

    A list that was created at a known place starts with an empty segment that
    carries its identity.
    """
    if t.op == "cat":
        return list(t.args)
    if t.op == "list":
        head = [mk("list", t.args[0])] if t.args[0] is not None else []
        return head + [mk("list", None, x) for x in t.args[1:]]
    if t.op == "tuple":
        return [mk("list", None, x) for x in t.args]
    return [t]


def _is_marker(p):
    return p.op == "list" and len(p.args) == 1


def from_parts(ps):
    site = None
    if ps and _is_marker(ps[0]):
        site = ps[0].args[0]
    body = [p for p in ps if not _is_marker(p)]
    if all(p.op == "list" and p.args[1].op != "star" for p in body):
        return mk("list", site, *[p.args[1] for p in body])
    return mk("cat", *ps)


def concat(a, b):
    return from_parts(parts(a) + [p for p in parts(b) if not _is_marker(p)])


def sequence_parts(t, cond=()):
    """Yield (element term, conditions, kind) of a sequence value.

    kind is "one" for a single element, "many" for elements of an opaque
    sequence (the term is then the sequence).
    """
    for p in parts(t):
        if p.op == "list" and len(p.args) == 2:
            if p.args[1].op == "star":
                yield p.args[1].args[0], cond, "many"
            else:
                yield p.args[1], cond, "one"
        elif p.op == "list" and len(p.args) == 1:
            continue
        elif p.op == "phi":
            yield from sequence_parts(p.args[1], (*cond, *guard_atoms(p.args[0], True)))
            yield from sequence_parts(p.args[2], (*cond, *guard_atoms(p.args[0], False)))
        elif p.op == "loop":
            yield from sequence_parts(p.args[2], cond)
            body = p.args[3]
            bp = parts(body)
            if bp and bp[0].op == "prev" and bp[0].args[0] == p.args[0]:
                bp = bp[1:]
                inner = from_parts(bp) if bp else None
                if inner is not None:
                    yield from sequence_parts(
                        inner, (*cond, (mk("inloop", p.args[0]), True))
                    )
            else:
                yield from sequence_parts(body, (*cond, (mk("inloop", p.args[0]), True)))
        elif p.op == "prev":
            continue
        elif p.op == "comp" and p.args[0] in ("list", "gen"):
            yield p.args[1], (*cond, *[a for c in p.args[3] for a in guard_atoms(c, True)],
                              (mk("inloop", p.args[2]), True)), "one"
        else:
            yield p, cond, "many"


def update(o, k, v):
    if o.op == "dict":
        items = [(x, y) for x, y in o.args[1:] if x is not k]
        return mk("dict", o.args[0], *items, (k, v))
    if o.op == "list" and is_const(k) and isinstance(cval(k), int):
        xs = list(o.args[1:])
        if -len(xs) <= cval(k) < len(xs):
            xs[cval(k)] = v
            return mk("list", o.args[0], *xs)
    return mk("upd", o, k, v)


def elem(it, tag):
    if it.op == "call" and it.args[0].op == "ext":
        f, a = it.args[0].args[0], it.args[1]
        if f == "enumerate" and a:
            start = a[1] if len(a) > 1 else const(0)
            kw = dict(it.args[2])
            return mk("tuple", mk("index", tag, kw.get("start", start)), elem(a[0], tag))
        if f == "zip" and a and not any(x.op == "star" for x in a):
            return mk("tuple", *[elem(x, tag) for x in a])
    if it.op == "call" and it.args[0].op == "meth":
        recv, name = it.args[0].args
        if name == "items" and not it.args[1]:
            return mk("tuple", mk("elem", recv, tag), mk("sub", recv, mk("elem", recv, tag)))
        if name == "values" and not it.args[1]:
            return mk("sub", recv, mk("elem", recv, tag))
        if name == "keys" and not it.args[1]:
            return mk("elem", recv, tag)
    return mk("elem", it, tag)


def code_names(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def item(o, k):
    if is_const(o) and isinstance(cval(o), str):
        try:
            if is_const(k):
                return const(cval(o)[cval(k)])
            if k.op == "slice" and all(is_const(x) for x in k.args):
                return const(cval(o)[slice(*[cval(x) for x in k.args])])
        except (TypeError, IndexError):
            pass
    if k.op == "slice" and all(is_const(x) for x in k.args):
        xs = seq_items(o)
        if xs is not None:
            xs = xs[slice(*[cval(x) for x in k.args])]
            return mk("tuple", *xs) if o.op == "tuple" else mk("list", None, *xs)
    if is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
        xs = seq_items(o)
        if xs is not None and -len(xs) <= cval(k) < len(xs):
            return xs[cval(k)]
        if o.op == "phi":
            a, b = seq_items(o.args[1]), seq_items(o.args[2])
            if a is not None and b is not None:
                return phi(o.args[0], item(o.args[1], k), item(o.args[2], k))
    if k.op == "slice" and o.op == "phi":
        c = o.args[0]
        ka, kb = under(k, c, True), under(k, c, False)
        if all(is_const(x) for x in (*ka.args, *kb.args)) and all(
            seq_items(x) is not None for x in o.args[1:]
        ):
            return phi(c, item(o.args[1], ka), item(o.args[2], kb))
    if o.op == "dict" and (is_const(k) or k.op == "enum"):
        for x, v in reversed(o.args[1:]):
            if x is k:
                return v
            if not (is_const(x) or x.op == "enum"):
                break
    if o.op == "dict" and k.op == "phi":
        return phi(k.args[0], item(o, k.args[1]), item(o, k.args[2]))
    if o.op == "upd" and o.args[1] is k:
        return o.args[2]
    return mk("sub", o, k)


def under(t, cond, pol):
    """The term with its direct phi operands on ``cond`` resolved."""
    if t.op == "phi" and t.args[0] is cond:
        return t.args[1] if pol else t.args[2]
    if t.op == "slice":
        return mk("slice", *[under(x, cond, pol) for x in t.args])
    return t


def unfactor(t):
    """A list with one conditional segment as a phi of two plain lists."""
    if t.op == "cat":
        i = [k for k, p in enumerate(t.args) if p.op == "phi"]
        if len(i) == 1:
            p = t.args[i[0]]
            arms = []
            for x in p.args[1:]:
                q = [y for y in parts(x) if not _is_marker(y)] if x.op != "list" or len(x.args) > 1 else []
                arms.append(from_parts([*t.args[: i[0]], *q, *t.args[i[0] + 1 :]]))
            return mk("phi", p.args[0], *arms)
    return t


def resolve(t, guard):
    """Follow top-level phis whose condition the guard decides."""
    while t.op == "phi":
        d = decide(t.args[0], guard)
        if d is None:
            return t
        t = t.args[1] if d else t.args[2]
    return t


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("is not", "!=", "not in"):
        inv = {"is not": "is", "!=": "==", "not in": "in"}[c.args[0]]
        return phi(mk("cmp", inv, *c.args[1:]), b, a)
    if a.op == "raises":
        return b
    if b.op == "raises":
        return a
    if a.op == "call" == b.op and a.args[:3] == b.args[:3] and a.args[0].op == "ext" and a.args[0].args[0] == "cvxpy.Variable":
        return min(a, b, key=lambda t: str(t.args[3:]))  # one new variable, whichever branch makes it
    if a.op in ("list", "cat") and b.op in ("list", "cat"):
        pa, pb = parts(a), parts(b)
        n = 0
        while n < min(len(pa), len(pb)) and pa[n] is pb[n]:
            n += 1
        if n:
            ra, rb = from_parts(pa[n:]), from_parts(pb[n:])
            return mk("cat", *pa[:n], mk("phi", c, ra, rb))
        site = a.args[0] if a.op == "list" else b.args[0] if b.op == "list" else None
        del site
    return mk("phi", c, a, b)


def conj(guard):
    ts = [t if p else simp_not(t) for t, p in guard]
    return conj_t(ts)


def conj_t(ts):
    ts = [t for t in ts if t is not TRUE]
    if any(t is FALSE for t in ts):
        return FALSE
    ts = list(dict.fromkeys(ts))
    if not ts:
        return TRUE
    return ts[0] if len(ts) == 1 else mk("and", *ts)


def disj_t(ts):
    ts = [t for t in ts if t is not FALSE]
    if any(t is TRUE for t in ts):
        return TRUE
    ts = list(dict.fromkeys(ts))
    if not ts:
        return FALSE
    return ts[0] if len(ts) == 1 else mk("or", *ts)


def common_guard(a, b):
    sb = set(b)
    return tuple(x for x in a if x in sb)


def callable_known(t):
    if t.op == "phi":
        return callable_known(t.args[1]) or callable_known(t.args[2])
    return t.op in ("fn", "bound", "closure", "partial")


def inlinable_args(args, kw):
    return not any(a.op == "star" for a in args)


def distinct(a, b):
    """Both are known, different values."""
    if a.op == "enum" and b.op == "enum":
        return a is not b
    if is_const(a) and is_const(b):
        return cval(a) != cval(b)
    if (a.op == "enum" and is_const(b)) or (b.op == "enum" and is_const(a)):
        return cval(a if is_const(a) else b) is None
    return False


_NOT_NONE = {"given", "new", "list", "tuple", "dict", "set", "comp", "fstr", "self", "cls", "enum", "bin", "closure", "fn", "bound", "cat", "upd"}


def is_bool(t):
    if t.op in ("and", "or"):
        return is_bool(t.args[-1])
    return t.op in ("cmp", "not") or (
        t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("isinstance", "hasattr", "callable", "bool", "issubclass")
    )


def not_none(t):
    if t.op in _NOT_NONE:
        return True
    return t.op == "call" and t.args[0].op == "ext" and (
        t.args[0].args[0].split(".")[0]
        in ("numpy", "cvxpy", "float", "int", "len", "str", "list", "dict", "tuple", "sum", "range", "iter", "zip", "enumerate", "sorted")
    )


def fold_cmp(op, a, b, ev):
    if op in ("is", "==", "is not", "!="):
        pos = op in ("is", "==")
        if a is b and (is_const(a) or a.op == "enum"):
            return pos
        if op in ("==", "!=") and is_const(a) and is_const(b):
            return (cval(a) == cval(b)) == pos
        if distinct(a, b):
            if is_const(a) and is_const(b) and op in ("is", "is not"):
                if type(cval(a)) is not type(cval(b)) or cval(a) != cval(b):
                    return not pos
            return not pos
        for x, y in ((a, b), (b, a)):
            if x is NONE and not_none(y):
                return not pos
            if x is NONE and y.op == "phi":
                r = [fold_cmp(op, z, NONE, ev) for z in y.args[1:]]
                if r[0] is not None and r[0] == r[1]:
                    return r[0]
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                c = ev.p.classes.get(x.args[0]) if x.op == "new" and ev is not None else None
                if c is not None and is_const(y) and c.find_method("__eq__") is None:
                    return not pos
        # enum against its string value
        for x, y in ((a, b), (b, a)):
            if x.op == "enum" and is_const(y) and isinstance(cval(y), str):
                c = ev.p.classes.get(x.args[0])
                v = ev.enum_value(c, x.args[1]) if c else None
                if v is not None and is_const(v) and c.is_subclass("str"):
                    return (cval(v) == cval(y)) == pos
    if op in ("in", "not in"):
        xs = ev.iter_items(b) if ev is not None else None
        if xs is None and is_const(b) and isinstance(cval(b), str) and is_const(a) and isinstance(cval(a), str):
            return (cval(a) in cval(b)) == (op == "in")
        if xs is not None:
            if any(x is a for x in xs):
                return op == "in"
            if (is_const(a) or a.op == "enum") and all(is_const(x) or x.op == "enum" for x in xs):
                return op == "not in"
            if a.op == "new" and all(fold_cmp("==", a, x, ev) is False for x in xs):
                return op == "not in"
    if op in ("<", "<=", ">", ">=") and is_const(a) and is_const(b):
        try:
            x, y = cval(a), cval(b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        except TypeError:
            return None
    return None


def union_members(c):
    """The classes of a tuple or union of classes."""
    if c.op == "tuple":
        return [y for x in c.args for y in union_members(x)]
    if c.op == "bin" and c.args[0] == "|":
        return [*union_members(c.args[1]), *union_members(c.args[2])]
    return [c]


def fold_isinstance(o, c, ev):
    cs = union_members(c)
    cls = ev.class_of(o) if o.op in ("new", "self", "enum") else None
    if cls is not None:
        rs = []
        for x in cs:
            if x.op == "cls":
                rs.append(cls.is_subclass(x.args[0]))
            else:
                rs.append(None if any(isinstance(b, str) for b in cls.mro()) else False)
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if o.op == "call" and o.args[0].op == "ext" and all(x.op == "ext" for x in cs):
        q = o.args[0].args[0]
        if q.startswith("cvxpy.") and q.rsplit(".", 1)[-1] in ("Variable", "Parameter", "Constant"):
            return any(x.args[0].rsplit(".", 1)[-1] == q.rsplit(".", 1)[-1] for x in cs)
    if o.op == "phi":
        a, b = fold_isinstance(o.args[1], c, ev), fold_isinstance(o.args[2], c, ev)
        if a is not None and a == b:
            return a
    py = {"const": None, "dict": "dict", "list": "list", "tuple": "tuple"}.get(o.op)
    if o.op == "const":
        py = type(cval(o)).__name__
    if py is not None and all(x.op == "ext" for x in cs):
        return any(x.args[0] == py for x in cs)
    return None


def decide(cond, guard):
    """Truth value of ``cond`` given the guard facts, or None."""
    if is_const(cond):
        return bool(cval(cond))
    if cond.op == "enum":
        return True
    if cond.op == "not":
        r = decide(cond.args[0], guard)
        return None if r is None else not r
    if cond.op == "and":
        rs = [decide(c, guard) for c in cond.args]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if cond.op == "or":
        rs = [decide(c, guard) for c in cond.args]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if cond.op in ("list", "tuple", "set", "dict"):
        n = len(cond.args) - (1 if cond.op in ("list", "dict") else 0)
        return n > 0
    if cond.op == "phi":
        c = decide(cond.args[0], guard)
        if c is not None:
            return decide(cond.args[1] if c else cond.args[2], guard)
        a, b = decide(cond.args[1], guard), decide(cond.args[2], guard)
        if a is not None and a == b:
            return a
    if not guard:
        return None
    facts = set(guard)
    ats = guard_atoms(cond, True)
    if len(ats) == 1:
        t, p = ats[0]
        if (t, p) in facts:
            return True
        if (t, not p) in facts:
            return False
        if t.op == "cmp" and t.args[0] in ("==", "is"):
            x, y = t.args[1], t.args[2]
            for g, gp in guard:
                if gp and g.op == "cmp" and g.args[0] in ("==", "is"):
                    for u, w in ((g.args[1], g.args[2]), (g.args[2], g.args[1])):
                        if u is x and distinct(w, y):
                            return not p
                        if u is y and distinct(w, x):
                            return not p
    return None
