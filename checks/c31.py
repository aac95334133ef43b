"""C31: an interrupted download never leaves a dataset that looks complete."""

import ast

from sa.index import AnalysisBroken
from sa.vg import Evaluator, T, cval, is_const, walk

EXISTS = {"os.path.exists", "os.path.isfile", "os.path.lexists"}
# functions that create a file bit by bit, and where they take its path from
WRITES = {
    "joblib.dump": ("filename", 1),
    "urllib.request.urlretrieve": ("filename", 1),
    "shutil.copy": ("dst", 1),
    "shutil.copy2": ("dst", 1),
    "shutil.copyfile": ("dst", 1),
    "numpy.save": ("file", 0),
    "numpy.savez": ("file", 0),
    "pickle.dump": None,
}
METHODS = {"to_pickle": ("path", 0), "to_csv": ("path_or_buf", 0), "to_parquet": ("path", 0), "to_hdf": ("path_or_buf", 0)}
PATH_WRITES = {"write_bytes", "write_text", "touch"}
RENAMES = {"os.replace": ("src", "dst"), "os.rename": ("src", "dst"), "shutil.move": ("src", "dst")}
READS = {"joblib.load", "pandas.read_pickle", "pandas.read_csv", "pandas.read_parquet", "numpy.load", "gzip.open", "open"}
FETCH = {"urllib.request.urlretrieve", "urllib.request.urlopen", "requests.get"}
ABSOLUTE = {"abspath", "realpath", "resolve", "absolute"}


def check(P, rep):
    rep.rule("complete", "a file whose presence is trusted only ever appears complete", need=1)
    rep.rule("whole", "what is renamed into place was written in full before", need=0)
    rep.rule("beside", "what is renamed into place lies in the same directory", need=0)
    rep.rule("fetched", "the file that is read after a download is the one that was downloaded", need=0)
    rep.rule("own-file", "each dataset is kept under its own name", need=0)
    rep.rule("asked", "nothing is fetched when that was not asked for", need=0)
    found = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.qual):
        if f.cls is not None or f.name.startswith("_") or not f.qual.startswith("skfolio.") or not touches(P, f):
            continue
        found += 1
        Files(P, rep, f).all()
    if not found:
        raise AnalysisBroken("no function that keeps files found")


def touches(P, f):
    """Whether a function of the module keeps files: a cheap look at the names used there."""
    names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {
        n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)
    }
    return bool(names & {"exists", "isfile", "urlretrieve", "dump", "is_file", "open"})


def arg(e, name, at):
    for k, v in e.data[2]:
        if k == name:
            return v
    return e.data[1][at] if len(e.data[1]) > at else None


def key(t):
    """A path, whatever it is wrapped in."""
    while t.op == "call" and t.args[0].op in ("ext", "fn") and t.args[1]:
        n = str(t.args[0].args[0])
        if n.rsplit(".", 1)[-1] in ("Path", "str", "fspath", "abspath", "realpath", "expanduser", "normpath"):
            t = t.args[1][0]
        else:
            break
    return t


class Files:
    def __init__(self, P, rep, f):
        self.P, self.rep, self.f = P, rep, f
        self.ev = Evaluator(P, budget=200000, inline=lambda *a: True)
        self.ev.run(f)
        rep.saw(self.ev)

    def calls(self):
        for i, e in enumerate(self.ev.effects):
            if e.kind == "call" and isinstance(e.data[0], T):
                t = e.data[0]
                yield i, e, str(t.args[0]) if t.op == "ext" else "", str(t.args[1]) if t.op == "meth" else ""

    def all(self):
        trusted, writes, renames, reads, fetches, joins = {}, [], [], [], [], []
        for i, e, name, meth in self.calls():
            if name in EXISTS and e.data[1]:
                trusted.setdefault(key(e.data[1][0]), e)
            elif meth in ("exists", "is_file") and not e.data[1]:
                trusted.setdefault(key(e.data[0].args[0]), e)
            if name in FETCH:
                fetches.append((i, e))
            if name in WRITES and WRITES[name]:
                p = arg(e, *WRITES[name])
                if p is not None:
                    writes.append((i, e, key(p), name))
            elif meth in METHODS:
                p = arg(e, *METHODS[meth])
                if p is not None:
                    writes.append((i, e, key(p), meth))
            elif meth in PATH_WRITES:
                writes.append((i, e, key(e.data[0].args[0]), meth))
            elif name in ("open", "io.open", "gzip.open", "bz2.open", "lzma.open") or meth == "open":
                mode = arg(e, "mode", 0 if meth == "open" else 1)
                m = cval(mode) if mode is not None and is_const(mode) else "r"
                p = e.data[0].args[0] if meth == "open" else (e.data[1][0] if e.data[1] else None)
                if p is not None and isinstance(m, str):
                    (writes if set(m) & set("wax+") else reads).append((i, e, key(p), "open"))
            elif name in READS and e.data[1]:
                reads.append((i, e, key(e.data[1][0]), name))
            elif name in RENAMES and len(e.data[1]) + len(e.data[2]) >= 2:
                src, dst = arg(e, "src", 0), arg(e, "dst", 1)
                if src is not None and dst is not None:
                    renames.append((i, e, key(src), key(dst), name))
            elif meth in ("replace", "rename") and len(e.data[1]) == 1 and looks_like_path(e.data[0].args[0]):
                renames.append((i, e, key(e.data[0].args[0]), key(e.data[1][0]), meth))
            if meth == "joinpath" and e.data[1]:
                joins.append((i, e, e.data[1][0]))
        for i, e, p, name in reads:
            if any(w[0] > i and w[2] is p for w in writes) or any(r[0] > i and r[3] is p for r in renames):
                trusted.setdefault(p, e)
        self.trust(trusted, writes, renames)
        self.fetched(writes, reads, joins, fetches)
        self.own(trusted, writes, renames)
        self.asked(fetches)

    def trust(self, trusted, writes, renames):
        rep, f = self.rep, self.f
        for p, e in trusted.items():
            made = [w for w in writes if w[2] is p]
            moved = [r for r in renames if r[3] is p]
            if not made and not moved:
                continue
            label = f"{f.name}:{tail(p)}"
            rep.check(
                not made,
                "complete",
                label,
                made[0][1].loc if made else moved[0][1].loc,
                f"`{made[0][3] if made else ''}` writes the file bit by bit under the name whose presence is taken to mean that "
                f"the dataset is there: stopped halfway, the next call reads a truncated file",
            )
            for i, r, src, dst, how in moved:
                before = [w for w in writes if w[2] is src and w[0] < i]
                after = [w for w in writes if w[2] is src and w[0] > i]
                rep.check(
                    None if not before and not after else bool(before) and not after,
                    "whole",
                    label,
                    r.loc,
                    "the file is renamed into place before it has been written",
                )
                if src in trusted:
                    rep.check(
                        src is not dst and not before,
                        "complete",
                        f"{f.name}:{tail(src)}",
                        r.loc,
                        "the temporary file is trusted too",
                    )
                rep.check(
                    beside(src, dst, how),
                    "beside",
                    label,
                    r.loc,
                    "the temporary file lies elsewhere, so that moving it may copy it bit by bit",
                )

    def own(self, trusted, writes, renames):
        """Two datasets never share a file: its name holds the whole name asked for."""
        for p in [p for p in trusted if any(r[3] is p for r in renames) or any(w[2] is p for w in writes)]:
            for n in (n for n in self.f.params() if "name" in n):
                used = [x for x in walk(p) if x.op == "in" and x.args[-1] == n]
                cut = [x for x in walk(p) if x.op == "sub" and any(y in used for y in walk(x))]
                whole = uncut(p, used)
                self.rep.check(
                    True if whole else False if cut or not used else None,
                    "own-file",
                    f"{self.f.name}.{n}",
                    trusted[p].loc,
                    "different datasets may be kept in the same file",
                )

    def fetched(self, writes, reads, joins, fetches):
        rep, f = self.rep, self.f
        for i, e, p, name in writes:
            if name != "urllib.request.urlretrieve":
                continue
            joined = [(j, x, q) for j, x, q in joins if j > i and key(q) is p]
            direct = [r for r in reads if r[0] > i and r[2] is p]
            label = f"{f.name}:{tail(p)}"
            for j, x, q in joined:
                # joined to the package's own data directory unless it is absolute
                raw = arg(e, "filename", 1)
                rep.check(
                    absolute(q) or absolute(raw) and q is raw,
                    "fetched",
                    label,
                    x.loc,
                    "a relative directory for the downloads is looked up in the package instead",
                )
            if direct:
                rep.ok("fetched", label, direct[0][1].loc)
            later = [r for r in reads if r[0] > i] + [(j, x, q, "") for j, x, q in joins if j > i]
            if not joined and not direct and later and all(names(r[2]) and not names(r[2]) & {p} for r in later):
                rep.bad("fetched", label, later[0][1].loc, "the file that is read is not the one that was downloaded")
            elif not joined and not direct:
                rep.undecided("fetched", label, e.loc, "where the downloaded file is read is not recognised")

    def asked(self, fetches):
        f = self.f
        want = [p for p in f.params() if "download" in p]
        for p in want:
            for i, e in fetches:
                ok = any(g.op == "in" and g.args[-1] == p and pol for g, pol in e.guard)
                self.rep.check(ok, "asked", f"{f.name}.{p}", e.loc, f"data are fetched whatever `{p}` says")


def names(t):
    """The parts of a path, when all of it is known."""
    return {x for x in walk(t)} if not any(x.op in ("prev", "loop", "elem") for x in walk(t)) else set()


def uncut(t, used):
    """Whether a name is part of a path as it is."""
    if t in used:
        return True
    if t.op in ("fstr", "bin", "cat", "tuple"):
        return any(uncut(x, used) for x in t.args if isinstance(x, T))
    if t.op == "call":
        inner = (t.args[0].args[0],) if t.args[0].op == "meth" else ()
        return any(uncut(x, used) for x in (*inner, *t.args[1], *(v for _, v in t.args[2])))
    return False


def looks_like_path(t):
    return any(x.op == "call" and x.args[0].op == "ext" and str(x.args[0].args[0]).endswith(("Path", "join")) for x in walk(t))


def tail(p):
    """A short stable name for a path."""
    consts = [str(cval(x)) for x in walk(p) if is_const(x) and isinstance(cval(x), str)]
    ends = [c for c in consts if c.startswith(".") and len(c) < 8]
    return ends[-1] if ends else "file"


def absolute(t):
    """Whether a path is absolute whatever the user gave."""
    if t is None:
        return False
    if t.op == "call":
        n = str(t.args[0].args[-1]).rsplit(".", 1)[-1] if t.args[0].op in ("ext", "fn", "meth") else ""
        if n in ABSOLUTE:
            return True
        if t.args[0].op == "meth" and n == "joinpath":
            return absolute(t.args[0].args[0])
        if n in ("join", "Path", "str", "fspath", "normpath") and t.args[1]:
            return absolute(t.args[1][0])
    if t.op == "bin" and t.args[0] in ("/", "+"):
        return absolute(t.args[1])
    if t.op == "fstr":
        return absolute(t.args[0]) if isinstance(t.args[0], T) else False
    if t.op == "phi":
        return absolute(t.args[1]) and absolute(t.args[2])
    return False


def beside(src, dst, how):
    names = [str(x.args[0]) for x in walk(src) if x.op == "ext"]
    if any(n.startswith("tempfile.") for n in names):
        for x in walk(src):
            if x.op == "call" and x.args[0].op == "ext" and str(x.args[0].args[0]).startswith("tempfile."):
                return True if any(k == "dir" for k, _ in x.args[2]) else False
        return None
    if any(x is dst for x in walk(src)):
        return True
    a, b = folder(src), folder(dst)
    return True if a is not None and a is b else None


def folder(t):
    if t.op == "call" and t.args[0].op == "ext" and str(t.args[0].args[0]) == "os.path.join" and t.args[1]:
        return t.args[1][0]
    if t.op == "bin" and t.args[0] == "/":
        return t.args[1]
    if t.op == "call" and t.args[0].op == "meth" and t.args[0].args[1] == "joinpath":
        return t.args[0].args[0]
    return None
