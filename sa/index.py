"""Program index: modules, symbols, classes, inheritance, enums.

Only the source text is used; nothing of the analysed package is imported.
"""

from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("SKFOLIO_SRC_ROOT", "/repo")
PKG = "skfolio"

#: Spellings of one external object that mean the same thing.
EXT_ALIASES = {
    "sklearn.base.clone": "sklearn.clone",
    "numpy.absolute": "numpy.abs",
    "numpy.random.mtrand.RandomState": "numpy.random.RandomState",
    "sklearn.utils.parallel.Parallel": "joblib.Parallel",
    "sklearn.utils.parallel.delayed": "joblib.delayed",
    "copy.copy": "copy.copy",
    "sklearn.utils.validation.check_random_state": "sklearn.utils.check_random_state",
}


class AnalysisBroken(Exception):
    """An anchor of a rule vanished: the check cannot give a verdict."""


class Func:
    __slots__ = ("name", "qual", "module", "cls", "node", "outer")

    def __init__(self, name, qual, module, cls, node, outer=None):
        self.name, self.qual, self.module = name, qual, module
        self.cls, self.node, self.outer = cls, node, outer

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def decorator_names(self):
        out = []
        for d in self.node.decorator_list:
            target = d.func if isinstance(d, ast.Call) else d
            out.append(self.module.dotted(target) or ast.dump(target))
        return out

    @property
    def is_property(self):
        return any(
            d in ("property", "functools.cached_property")
            or d.endswith("cached_property_slots")
            for d in self.decorator_names()
        )

    @property
    def is_static(self):
        return "staticmethod" in self.decorator_names()

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorator_names()

    @property
    def is_abstract(self):
        return any(d.endswith("abstractmethod") for d in self.decorator_names())

    def setter_of(self):
        for d in self.node.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr == "setter":
                return ast.unparse(d.value)
        return None

    def params(self):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if self.cls is not None and not self.is_static and names:
            names = names[1:]
        return names + [x.arg for x in a.kwonlyargs]

    def all_params(self):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        return names


class Class:
    __slots__ = (
        "name", "qual", "module", "node", "bases", "methods", "attrs", "annots",
        "setters", "program", "_mro",
    )  # fmt: skip

    def __init__(self, name, qual, module, node):
        self.name, self.qual, self.module, self.node = name, qual, module, node
        self.bases, self.methods, self.attrs = [], {}, {}
        self.annots, self.setters = {}, {}
        self._mro = None

    def __repr__(self):
        return f"<Class {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def mro(self):
        """Linearisation: list of Class (repository) and str (external)."""
        if self._mro is None:
            seqs = []
            for b in self.bases:
                c = self.program.classes.get(b)
                seqs.append(list(c.mro()) if c else [b])
            seqs.append([self.program.classes.get(b, b) for b in self.bases])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    head = s[0]
                    if not any(head in t[1:] for t in seqs):
                        break
                else:
                    head = seqs[0][0]
                out.append(head)
                seqs = [[x for x in s if x is not head and x != head] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def repo_mro(self):
        return [c for c in self.mro() if isinstance(c, Class)]

    def find_method(self, name):
        for c in self.repo_mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.repo_mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.repo_mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, qual):
        return any((c.qual if isinstance(c, Class) else c) == qual for c in self.mro())

    def is_enum(self):
        return any(
            isinstance(c, str) and c.startswith("enum.") for c in self.mro()
        )

    def enum_members(self):
        out = []
        for st in self.node.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and not t.id.startswith("_"):
                        out.append(t.id)
        return out

    def is_abstract(self):
        """Has an abstract method that nothing in its resolution order fills."""
        names = set()
        for c in self.repo_mro():
            for n, f in c.methods.items():
                if f.is_abstract:
                    names.add(n)
        for n in names:
            f = self.find_method(n)
            if f is not None and f.is_abstract:
                return True
        return False

    def init(self):
        return self.find_method("__init__")


# methods changing the list, set or dictionary they are called on
CHANGES = {"append", "extend", "insert", "update", "pop", "clear", "remove", "sort", "reverse", "add", "discard", "setdefault"}


def root_name(x):
    while isinstance(x, (ast.Subscript, ast.Attribute)):
        x = x.value
    return x if isinstance(x, ast.Name) else None


class Module:
    def __init__(self, program, name, path, is_pkg):
        self.program, self.name, self.path, self.is_pkg = program, name, path, is_pkg
        self.rel = os.path.relpath(path, REPO)
        with open(path, "rb") as f:
            raw = f.read()
        self.digest = hashlib.sha256(raw).hexdigest()
        self.source = raw.decode("utf-8")
        self.tree = ast.parse(self.source, path)
        self.imports, self.globals = {}, {}
        self.built = {}  # name -> module statements giving its value, if several
        self.funcs, self.classes = {}, {}
        self._scan()

    def _absolute(self, module, level):
        if not level:
            return module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    def _scan(self):
        for st in ast.walk(self.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        self.imports[top] = top
            elif isinstance(st, ast.ImportFrom):
                base = self._absolute(st.module, st.level)
                for a in st.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}"
        self._scan_body(self.tree.body)
        self._scan_built()

    def _scan_built(self):
        """Names of the module whose value more than one plain assignment makes."""
        made = {}
        for st in self.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                continue
            names = set()
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                    names |= {r.id for r in [root_name(x)] if r is not None}
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    if isinstance(x.func.value, ast.Name) and x.func.attr in CHANGES:
                        names.add(x.func.value.id)
            for n in names:
                made.setdefault(n, []).append(st)
        for n, sts in made.items():
            simple = len(sts) == 1 and isinstance(sts[0], (ast.Assign, ast.AnnAssign))
            if n in self.globals and not simple:
                self.built[n] = sts

    def _scan_body(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(
                    st.name, f"{self.name}.{st.name}", self, None, st
                )
            elif isinstance(st, ast.ClassDef):
                self._scan_class(st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.globals[st.target.id] = st.value
            elif isinstance(st, ast.If):
                self._scan_body(st.body)
                self._scan_body(st.orelse)
            elif isinstance(st, (ast.Try, ast.With, ast.For, ast.While)):
                self._scan_body(st.body)

    def _scan_class(self, node):
        c = Class(node.name, f"{self.name}.{node.name}", self, node)
        self.classes[node.name] = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, f"{c.qual}.{st.name}", self, c, st)
                s = f.setter_of()
                if s:
                    c.setters[s] = f
                else:
                    c.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.annots[st.target.id] = st.annotation
                if st.value is not None:
                    c.attrs[st.target.id] = st.value

    def dotted(self, node):
        """Qualified name of a Name/Attribute chain rooted in a module symbol."""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        root = self.lookup(node.id)
        if root is None:
            return None if parts else node.id
        return self.program.canonical(".".join([root, *reversed(parts)]))

    def lookup(self, name):
        if name in self.classes or name in self.funcs or name in self.globals:
            return f"{self.name}.{name}"
        return self.imports.get(name)


class Program:
    def __init__(self, root=None):
        root = root or REPO
        self.src = os.path.join(root, "src", PKG)
        self.modules, self.classes, self.funcs = {}, {}, {}
        if not os.path.isdir(self.src):
            raise AnalysisBroken(f"package directory not found: {self.src}")
        for d, dirs, files in sorted(os.walk(self.src)):
            dirs[:] = [x for x in sorted(dirs) if x != "__pycache__"]
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(d, fn)
                rel = os.path.relpath(path, os.path.dirname(self.src))
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                try:
                    self.modules[name] = Module(self, name, path, is_pkg)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {path}: {e}") from e
        for m in self.modules.values():
            for c in m.classes.values():
                c.program = self
                self.classes[c.qual] = c
                for f in list(c.methods.values()) + list(c.setters.values()):
                    self.funcs[f.qual] = f
            for f in m.funcs.values():
                self.funcs[f.qual] = f
        for c in self.classes.values():
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                q = c.module.dotted(b)
                c.bases.append(q or ast.unparse(b))

    # -- symbols ---------------------------------------------------------
    def canonical(self, q, _seen=()):
        """Follow re-exports down to the defining module."""
        if q in _seen:
            return q
        parts = q.split(".")
        for i in range(len(parts), 0, -1):
            mod = ".".join(parts[:i])
            if mod not in self.modules:
                continue
            rest = parts[i:]
            if not rest:
                return mod
            m = self.modules[mod]
            head, tail = rest[0], rest[1:]
            if head in m.classes or head in m.funcs or head in m.globals:
                return ".".join([m.name, head, *tail])
            if head in m.imports:
                return self.canonical(
                    ".".join([m.imports[head], *tail]), (*_seen, q)
                )
            return q
        return EXT_ALIASES.get(q, q)

    def cls(self, name):
        """The class of this (unique) short name."""
        found = [c for c in self.classes.values() if c.name == name]
        if len(found) != 1:
            raise AnalysisBroken(f"class {name}: {len(found)} definitions found")
        return found[0]

    def classes_named(self, name):
        return [c for c in self.classes.values() if c.name == name]

    def func(self, name, in_module=None):
        found = [
            f
            for f in self.funcs.values()
            if f.cls is None
            and f.name == name
            and (in_module is None or f.module.name.endswith(in_module))
        ]
        if len(found) != 1:
            raise AnalysisBroken(f"function {name}: {len(found)} definitions found")
        return found[0]

    def subclasses(self, qual, strict=True):
        return [
            c
            for c in self.classes.values()
            if c.is_subclass(qual) and (not strict or c.qual != qual)
        ]

    def digest(self, prefixes=None):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + self.modules[n].digest.encode())
        return h.hexdigest()
