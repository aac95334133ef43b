"""Run one property's static check:  python3 run.py <ID> [--tier quick|thorough]"""

import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.index import AnalysisBroken, Program  # noqa: E402
from sa.report import Report  # noqa: E402


def run(prop, tier="quick", seed=0, program=None):
    rep = Report(prop, tier, seed)
    try:
        program = program or Program()
        mod = importlib.import_module(f"checks.{prop.lower()}")
        mod.check(program, rep)
    except AnalysisBroken as e:
        rep.broken.append(str(e))
    except Exception:
        rep.broken.append(traceback.format_exc())
    return rep.finish(program)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    props = a.prop
    if props == ["all"]:
        props = sorted(
            f[:-3].upper()
            for f in os.listdir(os.path.join(HERE, "checks"))
            if f[0] == "c" and f[1:3].isdigit()
        )
    program = None
    rc = 0
    if len(props) > 1:
        program = Program()
    for p in props:
        r = run(p, a.tier, seed, program)
        rc = max(rc, r) if r != 1 else 1 if rc == 0 else rc
    return rc


if __name__ == "__main__":
    sys.exit(main())
