"""Tiny positive and negative examples that keep expected-zero rules honest.

``examples/src/skfolio`` holds functions named ``bad_*`` and ``good_*``; a rule that no
longer reports the former, or starts to report the latter, is broken.
"""

from __future__ import annotations

import os

from .index import AnalysisBroken, Program
from .report import HERE, Report


def selftest(module, run):
    """``run(P, rep, cls, func)`` is the rule under test."""
    P = Program(os.path.join(HERE, "examples"))
    m = P.modules[f"skfolio.{module}"]
    todo = [(None, f) for f in m.funcs.values()]
    todo += [(c, f) for c in m.classes.values() for f in c.methods.values()]
    n = 0
    for cls, f in todo:
        if not f.name.startswith(("bad_", "good_")):
            continue
        rep = Scratch()
        run(P, rep, cls, f)
        found = any(r.bad for r in rep.rules.values())
        if found != f.name.startswith("bad_"):
            raise AnalysisBroken(f"example {f.qual}: rule {'fires' if found else 'is silent'}")
        n += 1
    if n == 0:
        raise AnalysisBroken(f"no examples in {module}")


class Scratch(Report):
    """A report that accepts any rule name."""

    def __init__(self):
        super().__init__("X00")
        self.rules = _Rules()


class _Rules(dict):
    def __missing__(self, k):
        from .report import Rule

        self[k] = Rule(k, "", 0)
        return self[k]
