"""Decides one property: models, behaviours, executions, trace validation."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SHARDS = 8


class Machinery(Exception):
    """The check itself failed."""


def tlc(module, cfg, work, name, env=None, timeout=840, args=()):
    """Run TLC; returns (ok, output, states generated, distinct states)."""
    meta = os.path.join(work, "meta-" + name)
    cmd = [os.path.join(ROOT, "vf", "tlc.sh"), "-noGenerateSpecTE", "-metadir", meta, "-workers", "1",
           *args, "-config", cfg, module]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if not m:
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            gen = dist = int(m.group(1))
    ok = p.returncode == 0 and ("No error has been found" in out or "-simulate" in args)
    return ok, out, gen, dist


def tail(out, n=25):
    lines = [l for l in out.splitlines() if not re.match(r"(Pars|Sema|Lint|Computed)", l)]
    return "\n".join(lines[:40] + ["..."] + lines[-n:] if len(lines) > n + 40 else lines)


def model(cfg, work):
    """A design-level model. cfg: name of a .cfg file; the module has the same name up to '@'."""
    module = cfg.split("@")[0]
    ok, out, gen, dist = tlc(module + ".tla", cfg + ".cfg", work, cfg)
    if not ok:
        raise Machinery(f"model {cfg}: {tail(out)}")
    return {"model": cfg, "states": gen, "distinct": dist}


def behaviours(gens, work, tier, seed):
    """Behaviours of the specification, printed by TLC as JSON, for replay in the code."""
    path = os.path.join(work, "behaviours.ndjson")
    stats = []

    def one(g):
        cfg = g["cfg"] if tier == "quick" else g.get("thorough", g["cfg"])
        args = ["-nowarning"]
        if "num" in g:
            num = g["num"] if tier == "quick" else g["num"] * 10
            args += ["-simulate", f"num={num}", "-depth", str(g["depth"]), "-seed", str(seed)]
        ok, out, gen, dist = tlc(g["module"] + ".tla", cfg + ".cfg", work, "gen-" + cfg, args=args)
        if not ok:
            raise Machinery(f"generator {cfg}: {tail(out)}")
        beh = []
        for line in out.splitlines():
            if line.startswith('"BEHAVIOUR '):
                beh.append(json.loads(json.loads(line)[len("BEHAVIOUR "):]))
        return g, beh, gen, dist

    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, gens))
    seen = set()
    n = 0
    with open(path, "w") as f:
        for g, beh, gen, dist in res:
            for b in beh:
                s = json.dumps({"g": g["module"], "b": b}, separators=(",", ":"))
                if s not in seen:
                    seen.add(s)
                    f.write(s + "\n")
                    n += 1
            stats.append({"generator": g["cfg"], "states": gen, "distinct": dist, "behaviours": len(beh)})
    return path, n, stats


def trim(trace):
    """Leaves the complete lines that both files of a trace have."""
    lines = []
    for path in (trace, trace + ".src"):
        with open(path, "a+") as f:
            f.seek(0)
            lines.append(f.read().split("\n")[:-1])
    n = min(map(len, lines))
    for path, ls in zip((trace, trace + ".src"), lines):
        with open(path, "w") as f:
            f.write("".join(l + "\n" for l in ls[:n]))


def shard(prop, conf, i, work, tier, seed, beh):
    trace = os.path.join(work, f"trace{i}.ndjson")
    env = dict(os.environ, PYTHONPATH=f"{REPO}:{ROOT}/stubs:{ROOT}", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    budget = conf.get("budget", 60) if tier == "quick" else conf.get("budget_thorough", 420)
    cmd = [PY, "-B", "-m", "vf.driver", "--prop", prop, "--shard", str(i), "--shards", str(SHARDS), "--seed", str(seed),
           "--tier", tier, "--out", trace, "--beh", beh or "", "--repo", REPO, "--budget", str(budget)]
    error = None
    try:
        p = subprocess.run(cmd, cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 120)
        if p.returncode != 0:
            error = f"driver {prop} shard {i}: exit {p.returncode}\n{p.stdout[-3000:]}"
    except subprocess.TimeoutExpired:
        error = f"driver {prop} shard {i} timed out"
    if error:      # judge what it recorded
        trim(trace)
    t0 = time.monotonic()
    ok, out, gen, dist = tlc(conf["trace"] + ".tla", conf.get("cfg", "Trace") + ".cfg", work, f"t{i}",
                             env={"VERIF_TRACE": trace}, args=["-nowarning"])
    rejects, judged = [], None
    for line in out.splitlines():
        if line.startswith('"REJECT '):
            rejects.append(json.loads(json.loads(line)[len("REJECT "):]))
        elif line.startswith('"JUDGED '):
            judged = json.loads(json.loads(line)[len("JUDGED "):])
    if not ok or judged is None:
        error = error or f"trace validation {prop} shard {i}: {tail(out)}"
        judged = judged or {"events": 0, "clauses": {}}
    if os.path.exists(trace + ".err"):
        with open(trace + ".err") as f:
            error = f"driver {prop} shard {i}: {f.read()[-3000:]}"
    with open(trace + ".src") as f:
        src = [json.loads(l) for l in f]
    return {"i": i, "rejects": rejects, "judged": judged, "states": gen, "distinct": dist, "src": src,
            "error": error, "tlc_s": time.monotonic() - t0}


def known_findings():
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) op=(\S+) call=(.*) :: (.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "op": m.group(2), "call": m.group(3), "what": m.group(4)})
    return out


def decide(prop, conf):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if not os.path.exists(os.path.join(ROOT, "build", "classes", "RatOps.class")):
        subprocess.run(["sh", os.path.join(ROOT, "setup.sh")], check=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = os.path.join(ROOT, "work", f"{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        models = list(conf.get("models", []))
        if tier == "thorough":
            models += conf.get("models_thorough", [])
        with cf.ThreadPoolExecutor(SHARDS) as ex, cf.ThreadPoolExecutor(4) as mex:
            mf = [mex.submit(model, m, work) for m in models]
            beh, nbeh, gstats = (None, 0, [])
            if conf.get("gens"):
                beh, nbeh, gstats = behaviours(conf["gens"], work, tier, seed)
            fs = [ex.submit(shard, prop, conf, i, work, tier, seed, beh) for i in range(SHARDS)]
            shards = [f.result() for f in fs]
            mstats = [f.result() for f in mf]
        return report(prop, conf, tier, seed, shards, mstats, gstats, nbeh, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(prop, conf, tier, seed, shards, mstats, gstats, nbeh, t0):
    known = [k for k in known_findings() if k["property"] == prop]
    events = sum(s["judged"]["events"] for s in shards)
    clauses = {}
    for s in shards:
        cl = s["judged"]["clauses"]
        for c, n in (cl.items() if isinstance(cl, dict) else []):
            clauses[c] = clauses.get(c, 0) + n
    required = conf.get("clauses", [])
    viol, knownhits = [], {}
    for s in shards:
        for rj in s["rejects"]:
            e = s["src"][rj["i"]]
            hit = next((k for k in known if k["op"] == e["op"] and k["call"] == e["call"]), None)
            if hit:
                knownhits[hit["what"]] = hit
            else:
                viol.append((s, rj, e))
    ops, sessions, distinct = {}, 0, set()
    for s in shards:
        last = None
        for e in s["src"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            if e["s"] != last:
                sessions += 1
                last = e["s"]
            distinct.add(hashlib.md5((e["op"] + e["call"]).encode()).digest())
    samples = []
    for s in shards[:4]:
        for e in s["src"][3:400:130]:
            samples.append({"op": e["op"], "call": e["call"][:400], "outcome": e["k"], "result": e["result"][:300]})
    missing = [c for c in required if not clauses.get(c)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(s["distinct"] for s in shards) + sum(m["distinct"] for m in mstats) + sum(m["distinct"] for m in gstats),
              "transitions": sum(s["states"] for s in shards) + sum(m["states"] for m in mstats) + sum(m["states"] for m in gstats),
              "traces_validated_against_impl": sessions,
              "events_judged": events, "distinct_calls": len(distinct),
              "calls_per_operation": ops, "clauses_judged": clauses,
              "design_models": mstats, "behaviour_generators": gstats, "behaviours_replayed": nbeh,
              "samples": samples[:12]},
          "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in knownhits:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viol:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        s, rj, e = min(viol, key=lambda v: sum(1 for x in v[0]["src"] if x["s"] == v[2]["s"] and x["i"] <= v[2]["i"]) * 10000 + len(v[2]["call"]))
        session = [x for x in s["src"] if x["s"] == e["s"] and x["i"] <= e["i"]]
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "violated_clauses": rj["bad"], "call": e, "session": session,
                       "rejected_events": len(viol),
                       "other": [{"clauses": r["bad"], "call": x["call"][:600], "result": x["result"][:300], "text": x["text"]} for _, r, x in viol[:20]],
                       "reproduce": f"VERIF_SEED={seed} VERIF_TIER={tier} ./check {prop}"}, f, indent=1)
        print(f"violated: {', '.join(rj['bad'])}")
        print(f"  call: {e['call'][:500]}")
        print(f"  outcome: {e['k']} {e['result'][:300]} {e['text'][:200]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for s in shards:
        if s["error"]:
            raise Machinery(s["error"])
    if missing:
        raise Machinery(f"clauses never judged: {missing}")
    print(f"{prop} held: {events} events in {sessions} sessions, {sum(clauses.values())} clauses judged, "
          f"{ev['coverage']['states']} states, {ev['wall_s']} s")
    return 0


def main(argv):
    from . import config
    if len(argv) != 1 or argv[0] not in config.CHECKS:
        print("usage: ./check <property>", file=sys.stderr)
        return 2
    try:
        return decide(argv[0], config.CHECKS[argv[0]])
    except Machinery as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
