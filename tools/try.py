"""
Runs the checks against the planted bugs, each in a scratch copy of /repo, from a clone of /verif's last commit.

    python3 tools/try.py OUT [id ...]        (appends "id property caught|missed|quiet-failure clauses" to OUT)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    tmp = tempfile.mkdtemp(prefix="try-")
    clone = os.path.join(tmp, "verif")
    subprocess.run(["git", "clone", "-q", ROOT, clone], check=True)
    subprocess.run(["sh", "setup.sh"], cwd=clone, stdout=subprocess.DEVNULL)
    try:
        for i in ids:
            d = os.path.join(ROOT, "seeded", i)
            prop = json.load(open(os.path.join(d, "meta.json")))["property"]
            wt = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", wt], check=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt, check=True)
            p = subprocess.run(["./check", prop], cwd=clone, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
            why = ""
            if hit:
                r = json.load(open(os.path.join(clone, "evidence/replay", prop + ".json")))
                why = f"{r['violated_clauses']} {r['rejected_events']} events"
            with open(out, "a") as f:
                f.write(f"{i} {prop} {'caught' if hit else 'MISSED rc %d' % p.returncode} {why or p.stdout.strip().splitlines()[-1:]}\n")
            shutil.rmtree(wt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
