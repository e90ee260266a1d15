"""python3-vt check.py ID [--tier quick|thorough] [--seed N]

1. generates the verification conditions of every contract of the property from the
   source under /repo/core (this run), and discharges them;
2. concurrently runs the same specification as a runtime check on the real code: it is
   the replay/failing-input search, and the labelled bounded stand-in for functions the
   verifier does not reach.
"""
import argparse
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import importlib  # noqa: E402

from registry import COMMON_ASSUME, COMMON_TRUST, REG  # noqa: E402

CORE = os.environ.get("VERIF_REPO_CORE", "/repo/core")
PY = os.environ.get("VERIF_REPO_PYTHON", "/opt/venv/bin/python")


SHARDS = 5


def rac_start(pid, seed, tier, budget, out, known, shard):
    env = dict(os.environ)
    for k in ("PYTHONSTARTUP", "PYTHONHOME"):
        env.pop(k, None)
    scratch = os.path.join("/tmp", "verif-%s-%d-%d" % (pid, os.getpid(), shard))
    os.makedirs(scratch, exist_ok=True)
    env.update(PYTHONPATH=CORE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYCCOLO_DEV_MODE="1",
               SHOULD_SKIP_KNOWN_FAILING="1", MPLBACKEND="agg", IPYTHONDIR=os.path.join(scratch, "ipy"),
               VERIF_REPO_CORE=CORE, HOME=scratch)
    p = subprocess.Popen(
        [PY, os.path.join(HERE, "rac", "run.py"), pid, "--seed", str(seed), "--tier", tier,
         "--budget", str(budget), "--out", out + str(shard), "--known", known, "--shard", "%d/%d" % (shard, SHARDS)],
        env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, scratch


def load_known(pid):
    keys, lines = {}, []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-rac", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, t0 = a.prop, time.time()
    reg = REG[pid]
    thorough = a.tier == "thorough"
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith("replay-%s-" % pid):
            os.unlink(os.path.join(ev, f))
    known = load_known(pid)
    kf = os.path.join(ev, ".known-%s.json" % pid)
    json.dump(sorted(known), open(kf, "w"))
    racout = os.path.join(ev, ".rac-%s.json" % pid)
    for k in range(SHARDS):
        if os.path.exists(racout + str(k)):
            os.unlink(racout + str(k))
    rac_p = []
    budget = reg["rac_budget"] * (4 if thorough else 1)
    if not a.no_rac:
        rac_p = [rac_start(pid, a.seed, a.tier, budget, racout, kf, k) for k in range(SHARDS)]

    # deductive part ------------------------------------------------------
    results, perr = [], None
    if reg["specs"] and not a.no_proof:
        try:
            from pyvc import verify
            from pyvc.program import Program
            from specs import ipyworld

            prog = Program(CORE)
            w = ipyworld.make_world(prog)
            own, deps = [], []
            for m in reg["specs"]:
                own += importlib.import_module("specs." + m).contracts(w)
            for m in reg.get("deps", []):
                deps += importlib.import_module("specs." + m).contracts(w)
            w.contracts = own + deps
            todo = [c for c in own if not c.trusted]
            trusted = [c.label + ((": " + c.note) if c.note else "") for c in own + deps if c.trusted]
            results = verify.run_all(prog, w, todo, budget=180 if thorough else 60,
                                     jobs=7, wall=reg["proof_wall"] * (2 if thorough else 1))
            again = [i for i, r in enumerate(results) if r["status"] == "unknown"]
            if again and not any(r["status"] == "refuted" for r in results):
                from pyvc import solve

                solve.TIMEOUT_MS = 25000
                w.inv_timeout = 12000
                redo = verify.run_all(prog, w, [todo[i] for i in again], budget=120, jobs=4, wall=200)
                for i, r in zip(again, redo):
                    results[i] = r
        except Exception:
            import traceback

            perr = traceback.format_exc()[-2500:]
            trusted = []
    else:
        trusted = []

    # runtime part --------------------------------------------------------
    rac = {"violations": [], "known": [], "harness_errors": [], "scenarios": 0, "families": {}}
    rac_err = None
    for k, (p, scratch) in enumerate(rac_p):
        try:
            txt, _ = p.communicate(timeout=max(10.0, budget + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            txt, _ = p.communicate()
            rac_err = "runtime check timed out"
        if os.path.exists(racout + str(k)):
            one = json.load(open(racout + str(k)))
            have = {v["key"] for v in rac["violations"]}
            rac["violations"] += [v for v in one["violations"] if v["key"] not in have]
            have = {v["key"] for v in rac["known"]}
            rac["known"] += [v for v in one["known"] if v["key"] not in have]
            rac["harness_errors"] += one["harness_errors"]
            for f in ("scenarios", "distinct"):
                rac[f] = rac.get(f, 0) + one.get(f, 0)
            for f, c in one["families"].items():
                rac["families"][f] = rac["families"].get(f, 0) + c
            rac["samples"] = (rac.get("samples", []) + one.get("samples", [])[:1])[:3]
            rac["exhausted"] = rac.get("exhausted", True) and one.get("exhausted", True)
            os.unlink(racout + str(k))
        elif rac_err is None:
            rac_err = "runtime check died: " + (txt or "")[-1500:]
        subprocess.run(["rm", "-rf", scratch])
    if rac["harness_errors"] and not rac["violations"]:
        rac_err = rac["harness_errors"][0]

    # verdict -------------------------------------------------------------
    obs = [(r, o) for r in results for o in r["obligations"]]
    nob = len(obs)
    ndis = sum(1 for _, o in obs if o["status"] == "proved")
    refuted = [(r, o) for r, o in obs if o["status"] == "refuted"]
    undec = [r for r in results if r["status"] not in ("proved", "refuted")]
    proof_complete = bool(results) and all(r["status"] == "proved" for r in results) and perr is None
    lines, n = [], 0
    for v in rac["violations"]:
        n += 1
        path = os.path.join(ev, "replay-%s-%d.json" % (pid, n))
        v["replay_cmd"] = "%s rac/run.py %s --replay %s" % (PY, pid, path)
        v["failed_obligations"] = ["%s %s" % (r["function"], o["name"]) for r, o in refuted][:20]
        json.dump(v, open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
        print("violation %s: %s" % (v["key"], v["message"][:1200]))
    if refuted and not rac["violations"]:
        n += 1
        path = os.path.join(ev, "replay-%s-%d.json" % (pid, n))
        json.dump({"property": pid, "failed_obligations": [
            {"function": r["function"], "file": r["file"], "line": r["line"], "obligation": o["name"],
             "backend": o["backend"], "verifier_output": o["detail"]} for r, o in refuted]},
            open(path, "w"), indent=1)
        for r, o in refuted[:5]:
            print("failed obligation: %s  %s (%s:%s)" % (r["function"], o["name"], r["file"], r["line"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, os.path.relpath(path, HERE)))

    trust = COMMON_TRUST + reg["trust"] + ["trusted contract: " + t for t in trusted]
    level = reg["level"]
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, a.tier),
        "trusted_base": trust,
        "functions_under_contract": [
            {"function": r["function"], "status": r["status"], "reason": (r["reason"] or "")[:300],
             "obligations": len(r["obligations"]),
             "discharged": sum(1 for o in r["obligations"] if o["status"] == "proved"),
             "paths": r["paths"], "precondition_satisfiable": r["cover"], "solver_and_vcgen_s": r["secs"],
             "inlined": r["inlined"], "callee_contracts_used": r["contracts_used"], "loops": r["loops"]} for r in results],
        "backends": {},
        "solver_s": round(sum(o["secs"] for _, o in obs), 2),
        "undecided": [{"function": r["function"], "reason": r["reason"][:400]} for r in undec],
        "evaluations": rac["scenarios"],
        "distinct_nontrivial": rac.get("distinct", rac["scenarios"]),
        "rule": "runtime contract check (bounded, not counted as proved): scenarios are generated per family from VERIF_SEED and run on the real code; distinct = different scenario text",
        "families": rac["families"],
        "samples": rac.get("samples", [])[:3],
        "rac_exhausted_its_plan": rac.get("exhausted", True),
    }
    for _, o in obs:
        cov["backends"][o["backend"] or "none"] = cov["backends"].get(o["backend"] or "none", 0) + 1
    if perr:
        cov["verifier_error"] = perr
    if rac_err:
        cov["runtime_harness_error"] = rac_err
    evd = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": level,
           "coverage": cov, "assumptions": COMMON_ASSUME + reg["assume"], "wall_s": round(time.time() - t0, 2),
           "violations": len(lines)}
    json.dump(evd, open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    if os.path.exists(kf):
        os.unlink(kf)
    for k in rac["known"]:
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k["key"], known.get(k["key"], "")))
    print("%s: %d/%d obligations discharged over %d contracts%s; %d runtime scenarios; %.1fs" % (
        pid, ndis, nob, len(results), "" if not undec else " (%d undecided)" % len(undec), rac["scenarios"], time.time() - t0))
    for r in undec:
        print("undecided: %s: %s" % (r["function"], (r["reason"] or "solver gave up")[:200].replace("\n", " ")))
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if rac_err and not proof_complete:
        print("no verdict: %s" % rac_err)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
