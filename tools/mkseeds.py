"""Writes /verif/seeded/<id>/ from tools/seed_defs.py (run by hand; no check reads the result).
   mkseeds.py            write patch.diff, demo.sh, demo.py, meta.json of every definition
   mkseeds.py test ID..  apply to /repo, run the existing tests, the demo and the property's check, undo"""
import difflib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_defs import SEEDS

ROOT = "/verif/seeded"
PRE = "import sys\nfrom decimal import Decimal as D\nfrom math import *\nimport numpy as np\nimport logging\nlogging.disable(logging.CRITICAL)\n\n\ndef check(ok, what):\n    if not ok:\n        print('WRONG:', what)\n        sys.exit(1)\n\n\ndef near(a, b, tol=1e-6):\n    return abs(float(a) - float(b)) <= tol\n\n\n"


def write(s):
    d = f"{ROOT}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f, subs in s["edits"].items():
        p = "src/dg_commons/" + f
        old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + p], capture_output=True, text=True, check=True).stdout
        new = old
        for a, b in subs:
            assert new.count(a) == 1, (s["id"], f, a, new.count(a))
            new = new.replace(a, b)
        patch += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write(PRE + s["demo"].strip() + "\nprint('ok')\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def test(s, tests=True):
    d = f"{ROOT}/{s['id']}"
    r = {"id": s["id"], "property": s["property"]}
    r["demo clean"] = sh(f"bash {d}/demo.sh", cwd="/repo").returncode
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    try:
        o = sh(f"bash {d}/demo.sh", cwd="/repo")
        r["demo bug"], r["says"] = o.returncode, (o.stdout + o.stderr)[-160:].strip()
        c = sh(f"./check {s['property']}", cwd="/verif")
        r["check"] = c.returncode
        r["violations"] = sorted({l.split("replays/")[-1].split(" ")[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")})[:3]
        if tests:
            sh("bash /opt/vp/test.sh /opt/crdc/seed_tests.json")
            res, base = json.load(open("/opt/crdc/seed_tests.json")), json.load(open("/opt/vp/BASELINE.json"))
            r["tests"] = compare(res, base)
    finally:
        sh("git -C /repo checkout -- .")
    print(json.dumps(r), flush=True)


def compare(res, base):
    missing = [t for t in base["stable"] if t not in set(res["passed"])]
    return "pass" if not missing else missing[:3]


if __name__ == "__main__":
    for s in SEEDS:
        write(s)
    if len(sys.argv) > 1:
        notests = "notests" in sys.argv
        ids = [a for a in sys.argv[2:] if a != "notests"]
        for s in SEEDS:
            if not ids or s["id"] in ids:
                test(s, not notests)
