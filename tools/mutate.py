"""Mutation analysis: tools/mutate.py OUT [FILE-REGEX]

Makes small changes to the library, one at a time, in copies of /repo, and looks whether a check that executes
the changed line notices: the driver of the check runs one shard, and TLC judges the sessions whose trace differs
from that of the unchanged tree.  Survivors are run on all shards and must pass the tests.  Lines of OUT:
  <status> <file>:<line> <description> [<check> <clauses>]
with status killed, tests (only the tests notice), or SURVIVED.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import config, runner          # noqa: E402

REPO = "/repo"
BASE = os.environ.get("MUT_BASE", "/tmp/mut/base")
WORKERS = int(os.environ.get("MUT_WORKERS", "8"))
PY = runner.PY
SKIP = ("test", "__str__")

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["*"], ast.FloorDiv: ["*"], ast.BitAnd: ["|"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not",
       ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.BitAnd: "&"}


def mutants(src, name):
    """[(line, description, new source)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    b = src.encode()
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    out = []

    def pos(line, col):
        return offs[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    def put(n, new, what=None, at=None):
        s, e = at or span(n)
        old = b[s:e].decode()
        if old == new:
            return
        res = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(res, name, "exec")
        except SyntaxError:
            return
        out.append((n.lineno, what or f"{old[:60]!r} -> {new[:60]!r}", res))

    def between(left, right, old, new):
        s, e = span(left)[1], span(right)[0]
        gap = b[s:e].decode()
        m = re.search(r"(?<![<>=!*/])" + re.escape(old) + r"(?![=*/])" if not old.isalpha() else re.escape(old), gap)
        if m:
            put(left, new, f"{gap.strip()!r} -> {new!r} in {text_of}"[:150], (s + len(gap[:m.start()].encode()), s + len(gap[:m.end()].encode())))

    in_table = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict) and len(n.keys) > 20 or isinstance(n, ast.List) and len(n.elts) > 20:
            for x in ast.walk(n):
                in_table.add(id(x))
    ann = set()
    for n in ast.walk(tree):
        for a in [getattr(n, "annotation", None), getattr(n, "returns", None)]:
            if a is not None:
                ann.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("cast"):
            ann.update(id(x) for x in ast.walk(n.args[0]))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            ann.add(id(n.value))
        if isinstance(n, ast.FunctionDef) and (n.name in SKIP or any("overload" in ast.unparse(d) for d in n.decorator_list)):
            ann.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and "logger" in ast.unparse(n.func):
            ann.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            ann.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            ann.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in in_table or id(n) in ann or not hasattr(n, "lineno"):
            continue
        text_of = text(n).replace("\n", " ")[:60] if hasattr(n, "end_lineno") else ""
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                for new in CMP.get(type(op), []):
                    between(left, right, SYM[type(op)], new)
                left = right
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                between(n.left, n.right, SYM[type(n.op)], new)
        elif isinstance(n, ast.BoolOp):
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for l, r in zip(n.values, n.values[1:]):
                between(l, r, old, new)
        elif isinstance(n, ast.UnaryOp):
            put(n, text(n.operand), f"{text_of!r} without {type(n.op).__name__}")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v))
            elif v is None:
                pass
            elif isinstance(v, int):
                put(n, str(v + 1))
                put(n, str(v - 1) if v > 0 else "(-1)")
            elif isinstance(v, float):
                put(n, repr(v * 1.5))
                put(n, repr(v / 2))
            elif isinstance(v, str) and v and len(v) < 12 and not isinstance(getattr(n, "parent", None), ast.JoinedStr) and text(n)[:1] in "'\"":
                put(n, repr(v + "x"))
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("min", "max"):
                put(n.func, "max" if f == "min" else "min")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    s, e = span(x)[0], span(y)[1]
                    mid = b[span(x)[1]:span(y)[0]].decode()
                    put(n, text(y) + mid + text(x), f"arguments {i}, {i + 1} swapped in {text_of!r}", (s, e))
            if len(n.args) == 1 and not n.keywords and f in ("abs", "float", "list", "sorted", "-"):
                put(n, f"({text(n.args[0])})", f"{text_of!r} without {f}")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "True" if isinstance(n, ast.If) else text(n.test), f"if {text(n.test)[:60]!r} -> True")
            put(n.test, "False", f"if {text(n.test)[:60]!r} -> False")
        elif isinstance(n, ast.IfExp):
            put(n, f"({text(n.body)})", f"{text_of!r} -> then")
            put(n, f"({text(n.orelse)})", f"{text_of!r} -> else")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute):
            t = text(n)
            for a, c in (("x", "y"), ("y", "x"), ("X", "Y"), ("Y", "X"), ("1", "2"), ("2", "1"), ("left", "right"), ("right", "left"), ("start", "end"), ("end", "start"),
                         ("Left", "Right"), ("Top", "Bottom"), ("top", "bottom"), ("bottom", "top"), ("width", "height"), ("height", "width")):
                if t.endswith(a) and t != a or t == a and len(a) > 1:
                    u = t[:len(t) - len(a)] + c
                    if re.search(r"\b" + re.escape(u.split(".")[-1]) + r"\b", src):
                        put(n, u)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, "value", None), ast.Constant):
            put(n, "pass", f"{text_of!r} removed")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", f"{text_of!r} removed")
        elif isinstance(n, ast.Raise):
            put(n, "pass", f"{text_of!r} removed")
        elif isinstance(n, ast.Slice):
            pass
    return out


def env(repo):
    return dict(os.environ, PYTHONPATH=f"{repo}:{HERE}/stubs:{HERE}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")


def drive(prop, shard, repo, out, cover=None):
    beh = f"{BASE}/{prop}.beh"
    args = ["--prop", prop, "--shard", str(shard), "--shards", "8", "--seed", "1", "--tier", "quick", "--out", out,
            "--beh", beh if os.path.exists(beh) else "", "--repo", REPO, "--budget", "60"]
    cmd = [PY, "-B", "-c", COVER, cover] + args if cover else [PY, "-B", "-m", "vf.driver"] + args
    try:
        subprocess.run(cmd, cwd=HERE, env=env(repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180)
    except subprocess.TimeoutExpired:
        runner.trim(out)


COVER = r'''
import sys, json, os
hit = {}
def tool(code, line):
    f = code.co_filename
    if "/PathLib/" in f:
        hit.setdefault(os.path.basename(f), set()).add(line)
    return m.DISABLE
m = sys.monitoring
m.use_tool_id(1, "cover"); m.register_callback(1, m.events.LINE, tool); m.set_events(1, m.events.LINE)
out = sys.argv.pop(1)
from vf import driver
try:
    driver.main()
finally:
    json.dump({k: sorted(v) for k, v in hit.items()}, open(out, "w"))
'''


def sessions(path):
    """The text of each session, without the numbers of events."""
    out, cur = [], None
    try:
        f = open(path)
    except OSError:
        return []
    with f:
        for l in f:
            if '"new":true' in l:
                cur = []
                out.append(cur)
            if cur is not None:
                cur.append(l)
    return out


def norm(s):
    return [re.sub(r'^\{"i":\d+,"s":\d+,', "", l) for l in s]


def base(props):
    """Traces, coverage and behaviours of the unchanged tree."""
    os.makedirs(BASE, exist_ok=True)
    jobs = []
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        def beh(p):
            gens = config.CHECKS[p].get("gens")
            if gens and not os.path.exists(f"{BASE}/{p}.beh"):
                w = f"{BASE}/w{p}"
                os.makedirs(w, exist_ok=True)
                path, _, _ = runner.behaviours(gens, w, "quick", 1)
                shutil.move(path, f"{BASE}/{p}.beh")
        list(ex.map(beh, props))
        for p in props:
            for k in range(8):
                if not os.path.exists(f"{BASE}/{p}.{k}.nd"):
                    jobs.append(ex.submit(drive, p, k, REPO, f"{BASE}/{p}.{k}.nd", f"{BASE}/{p}.cov" if k == 0 else None))
        for j in jobs:
            j.result()


def judge(prop, lines, work):
    trace = f"{work}/diff.nd"
    with open(trace, "w") as f:
        n = 0
        for s in lines:
            for l in s:
                e = json.loads(l)
                e["i"] = n
                n += 1
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
    conf = config.CHECKS[prop]
    try:
        ok, out, _, _ = runner.tlc(conf["trace"] + ".tla", conf.get("cfg", "Trace") + ".cfg", work, "t", env={"VERIF_TRACE": trace}, args=["-nowarning"], timeout=400)
    except runner.Machinery as e:
        return [f"machinery {e}"]
    bad = sorted({c for l in out.splitlines() if l.startswith('"REJECT ') for c in json.loads(json.loads(l)[len("REJECT "):])["bad"]})
    if not ok and not bad:
        return ["TLC failed: " + runner.tail(out)[-300:].replace("\n", " ")]
    return bad


def run(prop, shard, repo, work, cap):
    """(traces differ, violated clauses)"""
    out = f"{work}/m.nd"
    for x in (out, out + ".src", out + ".err"):
        if os.path.exists(x):
            os.remove(x)
    drive(prop, shard, repo, out)
    a, c = sessions(f"{BASE}/{prop}.{shard}.nd"), sessions(out)
    diff = [s for i, s in enumerate(c) if i >= len(a) or norm(a[i]) != norm(s)]
    if os.path.exists(out + ".err") and not os.path.exists(f"{BASE}/{prop}.{shard}.nd.err") and not diff:
        return True, []
    if not diff:
        return len(a) != len(c), []
    step = max(1, len(diff) // cap)
    return True, judge(prop, diff[::step][:cap], work)


def main():
    out, rx = sys.argv[1], re.compile(sys.argv[2] if len(sys.argv) > 2 else "")
    props = sorted(set(config.CHECKS) - set(os.environ.get("MUT_SKIP", "").split()))
    base(props)
    cov = {}
    size = {}
    for p in props:
        c = json.load(open(f"{BASE}/{p}.cov"))
        size[p] = sum(len(open(f"{BASE}/{p}.{k}.nd").read()) for k in range(8)) / (1 + 3 * (p in ("C13", "C32")))
        for f, ls in c.items():
            for l in ls:
                cov.setdefault((f, l), []).append(p)
    todo = []
    for f in sorted(os.listdir(f"{REPO}/PathLib")):
        if f.endswith(".py") and rx.search(f):
            src = open(f"{REPO}/PathLib/{f}").read()
            for line, what, new in mutants(src, f):
                todo.append((f, line, what, new))
    done = set()
    if os.path.exists(out):
        done = {l.split(" :: ")[0].split(" ", 1)[1] for l in open(out)}
    lo, hi, st = (list(map(int, os.environ.get("MUT_SLICE", "0:0:1").split(":"))))
    todo = todo[lo:hi or None:st]
    print(len(todo), "mutants", flush=True)
    slots = queue.Queue()
    for w in range(WORKERS):
        d = f"/tmp/mut/w{w}.{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        slots.put(d)
    logf = open(out, "a")

    def one(job):
        k, (f, line, what, new) = job
        key = f"{f}:{line} {what}".replace("\n", " ")
        if key in done:
            return
        d = slots.get()
        try:
            target = f"{d}/repo/PathLib/{f}"
            with open(target, "w") as o:
                o.write(new)
            ps = cov.get((f, line), [])
            # definitions are executed by every check: those which differ decide
            ps = sorted(ps, key=lambda p: size[p])
            status, by = None, ""
            differs = []
            for p in ps:
                dif, bad = run(p, k % 8, d + "/repo", d, 120)
                if bad:
                    status, by = "killed", f"{p} {bad}"
                    break
                if dif:
                    differs.append(p)
            if not status:
                # (properties which this line hardly matters to are left out if the trace is the same)
                for p in differs or ps[:int(os.environ.get("MUT_DEEP", "6"))]:
                    for s in range(8):
                        if s == k % 8 and p not in differs:
                            continue
                        dif, bad = run(p, s, d + "/repo", d, 600)
                        if bad:
                            status, by = "killed", f"{p} {bad} (shard {s})"
                            break
                    if status:
                        break
            if not status:
                t = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo", env=env(d + "/repo"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                status = "SURVIVED" if t.returncode == 0 else "tests"
                by = f"differs in {differs}; covered by {ps}"
            shutil.copy(f"{REPO}/PathLib/{f}", target)
            logf.write(f"{status} {key} :: {by}\n")
            logf.flush()
        finally:
            slots.put(d)

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, enumerate(todo)))
    for w in range(WORKERS):
        shutil.rmtree(f"/tmp/mut/w{w}.{os.getpid()}", ignore_errors=True)


if __name__ == "__main__":
    main()
