#!/usr/bin/env python3
"""Decide one property: discharge its obligations with pyvc, replay on the
real code, write evidence, report.

usage: check.py CXX [--tier quick|thorough] [--target SUBSTR] [-v]
"""
import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("PYVC_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
PYPY = "/opt/venv/bin/python"


def run_target(args):
    pid, idx, tier = args
    t0 = time.time()
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    from pyvc.engine import Engine
    from pyvc.lib import base_spec
    from pyvc.values import Unsupported
    sys.setrecursionlimit(20000)
    prop = importlib.import_module("specs." + pid.lower()).P
    t = prop.targets[idx]
    out = {"target": t["name"], "functions": t["functions"], "obligations": [], "paths": 0, "complete": 0}
    eng = Engine(REPO, timeout_ms=t.get("timeout_ms", 10000), max_paths=t.get("max_paths", 4000),
                 time_limit=t.get("time_limit", 150 if tier == "quick" else 600))
    try:
        spec = t["spec"]() if t["spec"] else base_spec()
        r = eng.explore(t["name"], t["run"], spec)
        out["paths"], out["complete"] = r["paths"], r["complete"]
        for (_, name), o in sorted(r["obligations"].items()):
            out["obligations"].append({"name": name, "instances": o["instances"], "failed": o["failed"],
                                       "backends": sorted(o["backends"]), "solver_s": round(o["solver_s"], 3)})
    except Unsupported as e:
        out["obligations"].append({"name": "within the verified subset", "instances": 1, "backends": [], "solver_s": 0,
                                   "failed": [{"name": "within the verified subset", "target": t["name"],
                                               "result": "unsupported: %s" % e, "goal": "", "trace": []}]})
    except Exception as e:
        out["obligations"].append({"name": "verifier", "instances": 1, "backends": [], "solver_s": 0,
                                   "failed": [{"name": "verifier", "target": t["name"],
                                               "result": "internal: %s: %s" % (type(e).__name__, e),
                                               "goal": traceback.format_exc()[-1500:], "trace": []}]})
    out["inlined"] = sorted(eng.inlined)
    out["contract_calls"] = sorted(eng.contract_calls)
    out["queries"] = eng.stats.queries
    out["solver_s"] = eng.stats.solver_s
    out["wall_s"] = time.time() - t0
    return out


def refuted(f):
    """Solver produced a counterexample, or a feasible path escapes with an
    exception the contract excludes; everything else is undecided."""
    return f["result"] == "sat" or f["result"].startswith("uncaught")


def load_known():
    findings = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                parts = line[len("finding:"):].strip().split(" ", 2)
                d = {"property": parts[0].split("=", 1)[1], "case": parts[1].split("=", 1)[1],
                     "what": parts[2] if len(parts) > 2 else ""}
                findings.append(d)
    return findings


def run_replay(pid, tier, seed, scratch):
    script = os.path.join(HERE, "replay", pid.lower() + ".py")
    if not os.path.exists(script):
        return None
    out = os.path.join(scratch, "replay.json")
    env = dict(os.environ, HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"),
               VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYVC_REPO=REPO, LC_ALL="C.UTF-8", LANG="C.UTF-8")
    os.makedirs(env["HOME"])
    os.makedirs(env["TMPDIR"])
    try:
        p = subprocess.run([PYPY, script, out], cwd=scratch, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300 if tier == "quick" else 700)
        log = p.stdout.decode("utf-8", "replace")[-6000:]
    except subprocess.TimeoutExpired as e:
        log = "timeout\n" + (e.stdout or b"").decode("utf-8", "replace")[-6000:]
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
    else:
        r = {"error": "the replay harness gave no result", "evaluations": 0, "failures": []}
    r["log"] = log
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--target", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pyvc_%s_" % pid)
    try:
        return go(a, pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(a, pid, tier, seed, t0, scratch):
    prop = importlib.import_module("specs." + pid.lower()).P
    idxs = [i for i, t in enumerate(prop.targets) if a.target in t["name"]]
    jobs = [(pid, i, tier) for i in idxs]
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(min(6, max(1, len(jobs))), maxtasksperchild=1)
    res = pool.map_async(run_target, jobs, chunksize=1)
    replay = None if a.no_replay else run_replay(pid, tier, seed, scratch)
    try:
        results = res.get(timeout=780)
    except multiprocessing.TimeoutError:
        results = []
        print("UNDECIDED property=%s the verifier ran out of time" % pid)
    pool.terminate()

    known = [k for k in load_known() if k["property"] == pid]
    ob_total = ob_done = vc_total = vc_done = 0
    bad, undecided = [], []
    backends = {}
    for r in results:
        for o in r["obligations"]:
            ob_total += 1
            vc_total += o["instances"]
            vc_done += o["instances"] - len(o["failed"])
            for b in o["backends"]:
                backends[b] = backends.get(b, 0) + 1
            if not o["failed"]:
                ob_done += 1
                continue
            rf = [f for f in o["failed"] if refuted(f)]
            (bad if rf else undecided).append((r, o, rf or o["failed"]))
        if not r["obligations"]:
            undecided.append((r, {"name": "obligations generated"}, [{"result": "zero obligations", "target": r["target"], "name": ""}]))
        if a.v:
            print("%-70s paths=%d complete=%d q=%d %.1fs" % (r["target"], r["paths"], r["complete"], r["queries"], r["wall_s"]))
            for o in r["obligations"]:
                print("    %s %-60s n=%d %s %s" % ("ok  " if not o["failed"] else "FAIL", o["name"], o["instances"],
                                                ",".join(o["backends"]), o["solver_s"]))
                for f in o["failed"][:3]:
                    print("         ->", f["result"], "| goal:", f.get("goal", "")[:600])
                    print("            trace:", " ".join(f.get("trace", []))[:800])
                    if f.get("model"):
                        print("            model:", str(f["model"])[:800])

    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.json" % pid)
    new_fail, seen_known = [], {}
    if replay:
        for f in replay.get("failures", []):
            k = [k for k in known if f["id"] == k["case"]]
            if k:
                seen_known[k[0]["case"]] = k[0]
            else:
                new_fail.append(f)
    for k in known:
        for o in list(bad):
            if k["case"] == "obligation:%s:%s" % (o[0]["target"], o[1]["name"]):
                bad.remove(o)
                seen_known[k["case"]] = k
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r, o, fs in undecided:
        print("UNDECIDED property=%s target=%r obligation=%r: %s" % (pid, r["target"], o["name"], fs[0]["result"][:300]))
    if replay and replay.get("error"):
        print("UNDECIDED property=%s %s" % (pid, replay["error"]))
        if a.v or not replay.get("evaluations"):
            print(replay["log"][-1500:])
    if a.v and replay:
        print("replay: %s evaluations, %s failures, %.1fs" % (replay.get("evaluations"), len(replay.get("failures", [])), replay.get("wall_s", 0)))

    code = 0
    if new_fail or bad:
        rep = {"property": pid, "failing_inputs": new_fail[:20],
               "failed_obligations": [{"target": r["target"], "functions": r["functions"], "obligation": o["name"],
                                       "verifier_output": fs[:3]} for r, o, fs in bad[:20]],
               "replay_cmd": "cd /verif && python3-vt check.py %s -v" % pid}
        with open(rpath, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        for r, o, fs in bad[:10]:
            print("FAILED OBLIGATION target=%r obligation=%r result=%s" % (r["target"], o["name"], fs[0]["result"][:200]))
        for f in new_fail[:5]:
            print("FAILING INPUT %s: %s" % (f["id"], str(f.get("detail", ""))[:600]))
        print("VIOLATION property=%s replay=%s%s" % (pid, rpath, "" if new_fail else " no-failing-input-found"))
        code = 1
    elif os.path.exists(rpath):
        os.unlink(rpath)

    inl = sorted(set(x for r in results for x in r["inlined"]))
    con = sorted(set(x for r in results for x in r["contract_calls"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob_total, "discharged": ob_done,
            "verification_conditions": vc_total, "verification_conditions_discharged": vc_done,
            "backends_by_obligation": backends,
            "paths": sum(r["paths"] for r in results),
            "complete_paths": sum(r["complete"] for r in results),
            "solver_queries": sum(r["queries"] for r in results),
            "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
            "trusted_base": ["pyvc (the verifier in /verif/pyvc: its semantics of the Python subset)", "z3", "cvc5"] + prop.trusted,
            "targets": [{"target": r["target"], "functions": r["functions"], "obligations": len(r["obligations"]),
                         "paths": r["paths"], "wall_s": round(r["wall_s"], 2)} for r in results],
            "functions_under_contract": sorted(set(f for r in results for f in r["functions"])),
            "functions_inlined_from_source": inl,
            "callees_replaced_by_contract": con,
            "undecided": ["%s: %s: %s" % (r["target"], o["name"], fs[0]["result"][:200]) for r, o, fs in undecided],
        },
        "assumptions": prop.trusted,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new_fail) + len(bad),
    }
    if replay:
        ev["coverage"]["evaluations"] = replay.get("evaluations", 0)
        ev["coverage"]["distinct_nontrivial"] = replay.get("distinct", 0)
        ev["coverage"]["rule"] = replay.get("rule", "") + " (bounded: executions of the real code against the contract; never counted as proved)"
        ev["coverage"]["samples"] = replay.get("samples", [])[:10]
        ev["coverage"]["bounded_cases"] = replay.get("cases", [])
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d/%d obligations discharged (%d/%d verification conditions), %s concrete executions, %.1f s -> %s" % (
        pid, tier, ob_done, ob_total, vc_done, vc_total, replay.get("evaluations") if replay else 0, time.time() - t0,
        "exit %d" % code))
    return code


if __name__ == "__main__":
    sys.exit(main())
