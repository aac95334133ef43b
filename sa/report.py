"""Obligations, verdicts, evidence and known findings of one check run."""

from __future__ import annotations

import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Rule:
    __slots__ = ("name", "text", "need", "ok", "undecided", "bad", "distinct")

    def __init__(self, name, text, need):
        self.name, self.text, self.need = name, text, need
        self.ok, self.undecided, self.bad = [], [], []
        self.distinct = set()


class Report:
    """Collects the obligations a check generated and how each was decided."""

    def __init__(self, prop, tier="quick", seed=0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rules: dict[str, Rule] = {}
        self.functions: set[str] = set()
        self.files: set[str] = set()
        self.configs = 0
        self.notes: list[str] = []
        self.broken: list[str] = []
        self.t0 = time.time()

    def rule(self, name, text, need=1):
        """Declare a rule; ``need`` is the usual least number of instances.

        Far fewer mean that the analysis no longer finds what it is about.
        """
        r = self.rules.get(name)
        if r is None:
            r = self.rules[name] = Rule(name, text, need)
        return r

    def ok(self, rule, instance, loc=None):
        self.rules[rule].ok.append((str(instance), loc))

    def undecided(self, rule, instance, loc=None, why=""):
        self.rules[rule].undecided.append((str(instance), loc, why))

    def bad(self, rule, instance, loc, msg):
        r = self.rules[rule]
        key = (str(instance), msg)
        if key not in r.distinct:
            r.distinct.add(key)
            r.bad.append((str(instance), loc, msg))

    def check(self, cond, rule, instance, loc, msg=""):
        """cond: True/False, or None when the abstract domain cannot tell."""
        if cond is None:
            self.undecided(rule, instance, loc, msg)
        elif cond:
            self.ok(rule, instance, loc)
        else:
            self.bad(rule, instance, loc, msg)
        return cond

    def saw(self, evaluator=None, funcs=()):
        """Record which functions were looked at."""
        if evaluator is not None:
            self.configs += 1
            for e in evaluator.effects:
                if e.func is not None and e.func.node is not None:
                    self.functions.add(e.func.qual)
                    self.files.add(e.func.module.rel)
        for f in funcs:
            self.functions.add(f.qual)
            self.files.add(f.module.rel)

    # -- outcome -------------------------------------------------------------
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if not line.startswith("known: "):
                        continue
                    _, prop, key, what = line.split(" ", 3)
                    if prop == f"property={self.prop}":
                        out[key.removeprefix("key=")] = what
        return out

    def finish(self, program):
        known = self.known()
        new, listed = [], []
        for r in self.rules.values():
            for inst, loc, msg in r.bad:
                key = f"{r.name}:{inst}".replace(" ", "_")
                (listed if key in known else new).append((r, inst, loc, msg, key))
        for r in self.rules.values():
            n = len(r.ok) + len(r.bad) + len(r.undecided)
            if n < (r.need + 3) // 4:
                self.broken.append(
                    f"rule {r.name}: {n} instances, far fewer than the usual {r.need} or more"
                )
        wall = time.time() - self.t0
        n_ok = sum(len(r.ok) for r in self.rules.values())
        n_un = sum(len(r.undecided) for r in self.rules.values())
        samples = []
        for r in self.rules.values():
            for inst, loc in dict.fromkeys(r.ok[:: max(1, len(r.ok) // 4)][:5]):
                samples.append({"rule": r.name, "instance": inst[:160], "at": loc})
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": (
                    "Static analysis of the working tree's source: each rule "
                    "below generates obligations from the constructs it finds "
                    "and decides them without running the code."
                ),
                "modules_parsed": len(program.modules) if program else 0,
                "source_digest": program.digest()[:16] if program else None,
                "functions_analysed": len(self.functions),
                "files_analysed": sorted(self.files)[:60],
                "evaluator_runs": self.configs,
                "obligations_discharged": n_ok,
                "obligations_undecided": n_un,
                "findings": len(new),
                "known_findings": [k for *_, k in listed],
                "rules": [
                    {
                        "rule": r.name,
                        "says": r.text,
                        "held": len(r.ok),
                        "distinct_instances": len({i for i, _ in r.ok}),
                        "undecided": [u[0][:120] for u in r.undecided[:8]],
                        "undecided_count": len(r.undecided),
                        "violated": len(r.bad),
                        "minimum_instances": r.need,
                    }
                    for r in self.rules.values()
                ],
                "samples": samples[:60],
                "notes": self.notes,
            },
            "assumptions": [
                "The rules decide the structural conditions stated in them, "
                "which are necessary for the property; numerical outcomes are "
                "not decided."
            ],
            "wall_s": round(wall, 3),
            "violations": len(new),
        }
        evdir = os.path.join(HERE, "evidence")
        os.makedirs(evdir, exist_ok=True)
        path = os.path.join(evdir, f"{self.prop}.json")
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, path)
        for r, inst, loc, msg, key in listed:
            print(f"KNOWN-FINDING: property={self.prop} {known[key]} [{key}]")
        print(
            f"{self.prop}: {n_ok} obligations held, {n_un} undecided, "
            f"{len(new)} violated, {len(self.functions)} functions, {wall:.2f} s"
        )
        if new:
            rp = os.path.join(evdir, f"{self.prop}.violation.json")
            with open(rp, "w") as f:
                json.dump(
                    [
                        {"rule": r.name, "says": r.text, "instance": i, "at": loc, "why": m, "key": k}
                        for r, i, loc, m, k in new
                    ],
                    f, indent=1,
                )  # fmt: skip
            for r, inst, loc, msg, _ in new[:40]:
                print(f"  {loc}: [{r.name}] {inst}: {msg}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if self.broken:
            for b in self.broken:
                print(f"ANALYSIS-BROKEN property={self.prop} {b}")
            return 2
        return 0
