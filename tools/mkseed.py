"""Build a seeded change from a spec: python3 mkseed.py [--no-tests] SPEC.py...

A spec defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO and
TESTS (paths run against the changed copy).  The change is made in a scratch
copy under /tmp; the demonstration runs on the original and the changed copy.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build(spec, tests=True):
    s = runpy.run_path(spec)
    wt = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(["git", "clone", "-q", "/repo", wt + "/r"])
        r = wt + "/r"
        for f, old, new in s["EDITS"]:
            p = os.path.join(r, "src/skfolio", f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['ID']}: {t.count(old)} matches in {f} for {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", r, "diff"]).stdout
        d = os.path.join(OUT, s["ID"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(
            {"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
            open(d + "/meta.json", "w"), indent=1,
        )  # fmt: skip
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        a = sh([d + "/demo.sh"], cwd="/repo", env={**env, "PYTHONPATH": "/repo/src"})
        b = sh([d + "/demo.sh"], cwd=r, env={**env, "PYTHONPATH": r + "/src"})
        msg = f"{s['ID']}: demo original={a.returncode} changed={b.returncode}"
        if a.returncode:
            msg += "\n" + a.stdout[-500:] + a.stderr[-800:]
        if not b.returncode:
            msg += "\n DEMO DOES NOT FAIL " + b.stdout[-500:]
        else:
            msg += "\n   " + (b.stderr.strip().splitlines() or [""])[-1][:200]
        if tests and s.get("TESTS"):
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                    "--deselect", "none", *s["TESTS"]], cwd=r,
                   env={**env, "PYTHONPATH": r + "/src"})
            msg += "\n   tests: " + t.stdout.strip().splitlines()[-1]
            bad = [x for x in t.stdout.splitlines() if x.startswith("FAILED")]
            msg += "".join("\n   " + x for x in bad[:5])
        return msg
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    for sp in sys.argv[1:]:
        if sp != "--no-tests":
            print(build(sp, "--no-tests" not in sys.argv), flush=True)
