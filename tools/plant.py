#!/usr/bin/env python3
"""Turn planted-bug descriptions into /verif/seeded/<id>/ and try them out.

usage: plant.py SPEC.py...      (SPEC defines PROP, EDITS, NEEDS, BREAKS, DEMO)
Each one is applied to a scratch copy of /repo, where the stable tests, the
demonstration (with and without the change) and the check of its property run.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess as sp
import sys
import tempfile

BASE = "dbb61bb"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", **(env or {}))
    try:
        r = sp.run(cmd, cwd=cwd, env=e, stdout=sp.PIPE, stderr=sp.STDOUT,
                   text=True, timeout=timeout)
    except sp.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout


def tests(copy):
    rc, out = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                   "--timeout=300", "-rA", "tests"], copy, {"PYTHONPATH": copy})
    passed = set(re.findall(r"^PASSED (\S+)", out, re.M))
    norm = {s.replace("::", ".").replace("/", ".").replace(".py", "") for s in passed}
    miss = [s for s in STABLE
            if s.replace("::", ".").replace("/", ".").replace(".py", "") not in norm]
    return miss


def one(spec, checks=True):
    s = runpy.run_path(spec)
    name = os.path.basename(spec)[:-3]
    out = f"/verif/seeded/{name}"
    copy = tempfile.mkdtemp(prefix="plant_")
    rep = [name]
    try:
        sp.run(["cp", "-a", "/repo/.", copy], check=True)
        for f, old, new in s["EDITS"]:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{name}: EDIT matches {t.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sp.run(["git", "diff"], cwd=copy, stdout=sp.PIPE, text=True).stdout
        # blame of the lines taken away
        foreign = 0
        orig = 0
        for f in {e[0] for e in s["EDITS"]}:
            base = sp.run(["git", "show", f"{BASE}:{f}"], cwd=copy, stdout=sp.PIPE, text=True).stdout
            bl = sp.run(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], cwd=copy,
                        stdout=sp.PIPE, text=True).stdout.splitlines()
            ln = 0
            d = sp.run(["git", "diff", "-U0", "--", f], cwd=copy, stdout=sp.PIPE, text=True).stdout
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(h.group(1)), int(h.group(2) or 1)
                for i in range(a, a + n):
                    if bl[i - 1].startswith("^"):
                        orig += 1
                    elif bl[i - 1][:7] in (BASE[:7],):
                        orig += 1
                    elif bl[i - 1].split(" ", 1)[1].split(")", 1)[1].strip():
                        foreign += 1
        rep.append(f"orig={orig} foreign={foreign}")
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write(s["DEMO"])
        open(f"{out}/demo.sh", "w").write(
            '#!/bin/bash\n# exit 0 when the property holds, nonzero otherwise; cwd is the repository\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        rc0, o0 = run(["bash", f"{out}/demo.sh"], "/repo", timeout=300)
        rc1, o1 = run(["bash", f"{out}/demo.sh"], copy, timeout=300)
        rep.append(f"demo clean={rc0} bug={rc1}")
        if rc0 != 0:
            rep.append("CLEAN DEMO FAILS: " + o0[-600:])
        if rc1 == 0:
            rep.append("DEMO MISSES: " + o1[-300:])
        miss = tests(copy)
        rep.append(f"tests lost={miss if miss else 'none'}")
        if checks:
            for c in [s["PROP"]] + list(s.get("ALSO", [])):
                rc, o = run(["/verif/check", c], "/verif", {"VERIF_REPO": copy, "VERIF_JOBS": "3", "VERIF_EVIDENCE": copy + "/ev"})
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                rep.append(f"check {c}: rc={rc} viol={len(v)} " + (v[0][:200] if v else o[-300:] if rc else ""))
        ok = rc0 == 0 and rc1 != 0 and not miss
        rep.append("OK" if ok else "NOT-KEPT")
        if not ok:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(copy)
    return "\n   ".join(rep)


if __name__ == "__main__":
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, sys.argv[1:]):
            print(r, flush=True)
