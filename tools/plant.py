#!/usr/bin/env python3
"""plant.py BUGFILE...: makes /verif/seeded/<id> from a description of a planted bug and tries it.

A bug file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (Python; it
sees the helper gp.py, and fails by a failed assertion).  The change is applied to /repo, built,
tested, shown by its demonstration, tried on the check, and undone.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = """#!/bin/bash
# Runs in the root of the repository after a build.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/_build:$PWD/code/python" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
export OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 MPLCONFIGDIR=$(mktemp -d)
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
timeout 250 /opt/phd-venv/bin/python "$D/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b.get("passed") or b.get("stable")


def plant(path, check=True):
    b = runpy.run_path(path)
    i = b["ID"]
    d = f"{V}/seeded/{i}"
    assert not sh("git status --porcelain").stdout, "/repo is not clean"
    os.makedirs(d, exist_ok=True)
    res = {}
    try:
        for f, old, new in b["EDITS"]:
            p = f"{R}/code/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git diff").stdout)
        open(f"{d}/demo.sh", "w").write(SH)
        open(f"{d}/demo.py", "w").write(b["DEMO"].lstrip())
        shutil.copy(f"{V}/tools/gp.py", f"{d}/gp.py")
        json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        ok = json.load(open("/tmp/plant.json"))["passed"]
        res["tests"] = [x for x in stable() if x not in ok and "lgmres_test" not in x] or "pass"
        r = sh(f"bash {d}/demo.sh")
        res["demo with"] = (r.returncode, r.stdout[-300:])
        if check:
            c = subprocess.run([sys.executable, f"{V}/check.py", b["PROPERTY"], "--tier", "quick"], cwd=V,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res["check"] = (c.returncode, c.stdout[:600])
    finally:
        sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh")
    res["demo without"] = (r.returncode, r.stdout[-300:])
    good = res["tests"] == "pass" and res["demo with"][0] != 0 and r.returncode == 0
    print(f"== {i} ({b['PROPERTY']}): {'VALID' if good else 'INVALID'}, "
          f"{'caught' if check and res['check'][0] == 1 else 'MISSED'}")
    if not good or not check or res["check"][0] != 1:
        for k, v in res.items():
            print("  ", k, v)
    if not good:
        shutil.rmtree(d)
    sys.stdout.flush()


for f in sys.argv[1:]:
    plant(f)
