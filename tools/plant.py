"""
Plants bugs: writes seeded/<id>/ from the definitions of a bug file and confirms each one
in a scratch copy (applies, builds, passes the stable tests, the demonstration tells the trees apart).

    python3 tools/plant.py FILE [id ...]
"""
import importlib.util
import sys; sys.path.insert(0, __import__("os").path.dirname(__file__))
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "bea8218"
DEMO = """#!/bin/sh
# exit 0 if the property holds for the case shown in demo.py
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec "$PY" "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(b):
    out = os.path.join(ROOT, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    wt = os.path.join(tmp, "repo")
    try:
        sh(["cp", "-a", "/repo", wt], "/")
        sh(["git", "checkout", "-q", "--", "."], wt)
        old = sh(["git", "show", f"{BASE}:PathLib/{b['file']}"], wt).stdout.splitlines()
        p = os.path.join(wt, "PathLib", b["file"])
        s = open(p, encoding="utf-8").read()
        for a, z in b["edits"]:
            if s.count(a) != 1:
                return f"edit found {s.count(a)} times: {a!r}"
            s = s.replace(a, z)
        open(p, "w", encoding="utf-8").write(s)
        diff = sh(["git", "diff"], wt).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in removed if l not in old]
        if not removed or mine:
            return f"does not change original lines: {mine}"
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        d = os.path.join(tmp, "d")
        shutil.copytree(out, d)
        demo = ["bash", os.path.join(d, "demo.sh")]
        r = sh(demo, wt, timeout=300)
        if r.returncode == 0:
            return "demonstration passes with the change"
        bad = r.stdout.strip().splitlines()[-1:] 
        r = sh(demo, "/repo", timeout=300)
        if r.returncode != 0:
            return "demonstration fails without the change: " + r.stdout[-400:]
        r = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-header"], wt, env=dict(os.environ, PYTHONPATH=wt))
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
        if "9 passed" not in last or "failed" in last:
            return "tests: " + last
        return f"ok ({bad[0][:100] if bad else ''})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        r = plant(b)
        print(b["id"], b["property"], r, flush=True)
        if not r.startswith("ok"):
            shutil.rmtree(os.path.join(ROOT, "seeded", b["id"]), ignore_errors=True)


main()
