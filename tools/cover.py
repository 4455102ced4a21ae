"""Lines of the library that no driver executes: tools/cover.py [OUT] (shard 0 of 8, quick; behaviours of a previous run are not replayed)."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = r'''
import sys, json, os
hit = {}
def tool(code, line):
    f = code.co_filename
    if "/PathLib/" in f:
        hit.setdefault(os.path.basename(f), set()).add(line)
    return m.DISABLE
m = sys.monitoring
m.use_tool_id(1, "cover"); m.register_callback(1, m.events.LINE, tool); m.set_events(1, m.events.LINE)
out = sys.argv.pop(1)
from vf import driver
try:
    driver.main()
finally:
    json.dump({k: sorted(v) for k, v in hit.items()}, open(out, "w"))
'''


def main():
    import json
    repo = os.environ.get("VERIF_REPO", "/repo")
    hit = {}
    tmp = tempfile.mkdtemp()
    procs = []
    for k in range(1,33):
        env = dict(os.environ, PYTHONPATH=f"{repo}:{HERE}/stubs:{HERE}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        procs.append((k, subprocess.Popen([sys.executable, "-B", "-c", RUN, f"{tmp}/{k}.json", "--prop", f"C{k:02}", "--shard", "0", "--shards", "8",
                                           "--out", f"{tmp}/{k}.nd", "--budget", "60"], cwd=HERE, env=env)))
        if len(procs) >= 6:
            procs.pop(0)[1].wait()
    for _, p in procs:
        p.wait()
    for k in range(1,33):
        for f, ls in json.load(open(f"{tmp}/{k}.json")).items():
            hit.setdefault(f, set()).update(ls)
    import ast
    for f in sorted(os.listdir(f"{repo}/PathLib")):
        if not f.endswith(".py"):
            continue
        src = open(f"{repo}/PathLib/{f}").read()
        lines = set()

        def walk(code):
            lines.update(l for _, _, l in code.co_lines() if l)
            for c in code.co_consts:
                if hasattr(c, "co_lines"):
                    walk(c)
        walk(compile(src, f, "exec"))
        miss = sorted(l for l in lines - hit.get(f, set()) if l)
        for l in miss:
            print(f"{f}:{l}: {src.splitlines()[l - 1].strip()}")
    subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    main()
