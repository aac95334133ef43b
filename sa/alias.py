"""Which caller-owned objects may a value share storage with.

``owners(t)`` over-approximates, for values whose making the domain knows (views,
conversions without copy, elements, branches), the arguments, constructor options
and nested results a value may be, or may be a view of.  Values built by arithmetic,
copies and unknown outside calls own their storage.
"""

from __future__ import annotations

import ast

from .vg import T, cval, is_const

#: outside functions that may hand back their first argument's storage
SHARE_FN = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.ravel",
    "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.swapaxes",
    "numpy.moveaxis", "numpy.expand_dims", "numpy.broadcast_to", "numpy.diagonal",
    "numpy.real", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.rot90", "iter",
    "sklearn.utils.check_array", "sklearn.utils.validation.check_array",
    "sklearn.utils.validation.column_or_1d", "sklearn.utils.indexable",
    "sklearn.utils._indexing._safe_indexing", "sklearn.utils.safe_indexing", "pandas.DataFrame",
    "sklearn.model_selection.check_cv", "next", "reversed", "enumerate", "zip",
}  # fmt: skip
#: ... their second argument's (bound helpers that take the estimator first)
SHARE_FN2 = {
    "sklearn.utils.validation.validate_data", "sklearn.utils.validation._check_y",
    "numpy.lib.stride_tricks.sliding_window_view", "sklearn.utils.validation.check_X_y",
}  # fmt: skip
#: methods of outside objects that may hand back the receiver's storage
SHARE_METH = {
    "to_numpy", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "view", "diagonal",
    "get", "items", "values", "keys", "pop", "setdefault", "__getitem__", "_validate_data",
    "to_frame",
}  # fmt: skip
SHARE_ATTR = {"T", "values", "flat", "real", "array", "loc", "iloc", "at", "iat", "index", "columns"}

MUTATES_FIRST = {
    "numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask",
    "numpy.random.shuffle", "random.shuffle", "numpy.put_along_axis", "heapq.heapify",
    "heapq.heappush", "heapq.heappop", "bisect.insort",
}  # fmt: skip
IMMUTABLE = {"int", "float", "bool", "str", "bytes", "None", "complex", "date", "datetime", "timedelta", "tuple"}


def immutable_annotation(node, module=None):
    """Does an annotation allow only immutable values?"""
    if node is None:
        return False
    if isinstance(node, ast.Constant):
        return node.value is None or (isinstance(node.value, str) and node.value in IMMUTABLE)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return immutable_annotation(node.left, module) and immutable_annotation(node.right, module)
    if isinstance(node, ast.Name):
        if node.id in IMMUTABLE:
            return True
        if module is not None:
            q = module.lookup(node.id)
            c = module.program.classes.get(module.program.canonical(q)) if q and hasattr(module, "program") else None
            return bool(c and c.is_enum())
        return False
    if isinstance(node, ast.Attribute):
        return node.attr in ("Timedelta", "Timestamp", "DateOffset", "BaseOffset", "datetime", "timedelta", "ndim")
    return False


def annotations(func):
    a = func.node.args
    return {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}


class Owners:
    def __init__(self, me=None, params=(), immutable=(), fresh=(), nested=False):
        """``me``: the object itself; ``params``: its constructor options."""
        self.me, self.params = me, set(params)
        self.immutable, self.fresh = set(immutable), set(fresh)
        self.nested = nested
        self.memo: dict = {}

    def __call__(self, t):
        return self.owners(t)

    def owners(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()  # cycles end here
            r = self.memo[t] = frozenset(self._owners(t))
        return r

    def _owners(self, t):
        o, a = t.op, t.args
        if o == "in":
            return () if a[0] in self.immutable or a[0] in self.fresh else {("argument", a[0])}
        if o == "attr":
            if a[0] is self.me:
                if a[1] in self.params and a[1] not in self.immutable:
                    return {("option", a[1])}
                return ()
            base = self.owners(a[0])
            if a[1] in SHARE_ATTR:
                return base
            if self.nested and a[1].endswith("_") and not a[1].startswith("_"):
                return {("nested result", a[1])}
            if self.nested and any(k == "nested result" for k, _ in base):
                return base
            return base if a[0].op != "self" else ()
        if o == "phi":
            return self.owners(a[1]) | self.owners(a[2])
        if o in ("and", "or"):
            return frozenset().union(*(self.owners(x) for x in a))
        if o in ("loop",):
            return self.owners(a[2]) | self.owners(a[3])
        if o == "prev":
            return self.owners(a[2])
        if o in ("upd", "mut", "star"):
            return self.owners(a[0])
        if o == "enter":
            return self.owners(a[0])
        if o == "elem":
            return self.contents(a[0])
        if o == "sub":
            if copies(a[1]):
                return ()
            if a[0].op == "in" and a[0].args[0] in self.fresh:
                return {("argument", a[0].args[0])}
            return self.contents(a[0])
        if o == "call":
            return self.of_call(t)
        return ()

    def contents(self, t):
        """Owners of what a container holds."""
        if t.op in ("list", "tuple", "set"):
            out = frozenset()
            for x in t.args[1 if t.op == "list" else 0:]:
                if isinstance(x, T):
                    out |= self.owners(x)
            return out
        if t.op == "dict":
            out = frozenset()
            for k, v in t.args[1:]:
                out |= self.owners(v)
            return out
        if t.op == "cat":
            out = frozenset()
            for x in t.args:
                out |= self.contents(x)
            return out
        if t.op == "comp":
            return self.owners(t.args[1])
        if t.op == "phi":
            return self.contents(t.args[1]) | self.contents(t.args[2])
        if t.op in ("and", "or"):
            return frozenset().union(*(self.contents(x) for x in t.args))
        if t.op == "upd":
            return self.contents(t.args[0]) | self.owners(t.args[2])
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("list", "tuple", "set", "sorted", "dict") and t.args[1]:
            return self.contents(t.args[1][0])
        return self.owners(t)

    def of_call(self, t):
        f, args, kw = t.args[0], t.args[1], dict(t.args[2])
        if f.op == "ext":
            q = f.args[0]
            copy = kw.get("copy")
            if copy is not None and is_const(copy) and cval(copy) is True:
                return ()
            if q in ("numpy.array", "numpy.nan_to_num", "pandas.Series"):
                if copy is not None and is_const(copy) and cval(copy) is False and args:
                    return self.owners(args[0])
                return ()
            if q in SHARE_FN and args:
                return self.contents(args[0]) if q in ("next", "reversed", "enumerate") else self.owners(args[0])
            if q in SHARE_FN2:
                out = frozenset()
                for x in args[1:] if q.endswith("validate_data") else args:
                    out |= self.owners(x)
                for k in ("X", "y"):
                    if k in kw:
                        out |= self.owners(kw[k])
                return out
            return ()
        if f.op in ("meth", "attr"):
            recv, name = f.args[0], f.args[1]
            if name == "astype":
                copy = kw.get("copy")
                return self.owners(recv) if copy is not None and is_const(copy) and cval(copy) is False else ()
            if name in SHARE_METH:
                if name == "to_numpy" and "copy" in kw:
                    return ()
                if name in ("get", "pop", "setdefault", "items", "values"):
                    return self.contents(recv)
                return self.owners(recv)
        return ()


def copies(idx):
    """Index expressions that select into new storage (masks, index arrays)."""
    if idx.op in ("cmp", "list", "comp", "cat", "un", "bin", "not", "and", "or"):
        return idx.op != "bin" or idx.args[0] in ("&", "|")
    if idx.op == "call":
        f = idx.args[0]
        return not (f.op == "ext" and f.args[0] in ("len", "int", "slice", "max", "min", "range"))
    if idx.op == "tuple":
        return any(copies(x) for x in idx.args)
    return False


def writes(effects):
    """(target, how, effect) for every place that changes an object in place."""
    for e in effects:
        k, d = e.kind, e.data
        if k == "setitem":
            yield d[0], "is assigned to by index", e
        elif k == "delitem":
            yield d[0], "loses an item", e
        elif k == "aug":
            if d[3] is not None:
                yield d[3], f"is updated in place by `{d[1]}=`", e
            else:
                yield d[0], f"is updated in place by `{d[1]}=`", e
        elif k == "mutcall":
            yield d[0], f"is changed by `.{d[1]}()`", e
        elif k == "store":
            yield d[0], f"has its attribute `{d[1]}` set", e
        elif k == "delattr":
            yield d[0], f"has its attribute `{d[1]}` removed", e
        elif k == "call":
            f, args, kw = d[0], d[1], dict(d[2])
            if not isinstance(f, T):
                continue
            if f.op == "ext" and f.args[0] in MUTATES_FIRST and args:
                yield args[0], f"is changed by `{f.args[0]}`", e
            if f.op == "ext" and f.args[0] == "setattr" and args:
                yield args[0], "has an attribute set", e
            if f.op == "ext" and f.args[0] == "numpy.nan_to_num" and args and false(kw.get("copy")):
                yield args[0], "is changed by `numpy.nan_to_num`", e
            if "out" in kw:
                yield kw["out"], "is written as `out=`", e
            for n, v in kw.items():
                if n.startswith("overwrite_") and true(v) and args:
                    yield args[0], f"may be overwritten (`{n}=True`)", e
            if f.op in ("meth", "attr"):
                if true(kw.get("inplace")):
                    yield f.args[0], f"is changed by `.{f.args[1]}(inplace=True)`", e
                if f.args[1] == "shuffle" and args:
                    yield args[0], "is shuffled in place", e
                if f.args[1] == "set_params":
                    yield f.args[0], "has its parameters set", e


def true(v):
    return isinstance(v, T) and is_const(v) and cval(v) is True


def false(v):
    return isinstance(v, T) and is_const(v) and cval(v) is False
