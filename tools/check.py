#!/usr/bin/env python3
"""check.py <property>: rebuild from /repo, search, write evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from conf import CHECKS, RULE
VERIF = build.VERIF

def main():
    prop = sys.argv[1]
    c = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if not build.build([c["binary"]]):
        print("check: the tree does not build"); return 2
    seconds = c.get("quick_s", 35) if tier == "quick" else c.get("thorough_s", 1500)
    seconds = float(os.environ.get("VERIF_SECONDS", seconds))
    out = os.path.join(VERIF, "out", prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    res = os.path.join(out, "result.json")
    cmd = [os.path.join(build.OUT, c["binary"]), "--prop", prop, "--seed", str(seed), "--seconds", str(seconds),
           "--jobs", str(min(8, os.cpu_count() or 4)), "--out", out, "--result", res, "--known", os.path.join(VERIF, "known-findings.txt")]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    text = p.stdout.decode("utf-8", "replace")
    sys.stdout.write(text)
    if p.returncode not in (0, 1) or not os.path.exists(res):
        print("check: simulator ended with %d" % p.returncode); return 2
    r = json.load(open(res))
    viol = [l for l in text.splitlines() if l.startswith("VIOLATION ")]
    known = [l for l in text.splitlines() if l.startswith("KNOWN-FINDING")]
    if r["runs"] == 0 or (r["distinct_nontrivial"] == 0 and not viol):
        print("check: nothing was explored"); return 2
    hours = max(r["explore_s"], 1e-9) / 3600.0
    faults = {k[6:]: v[0] for k, v in r["counters"].items() if k.startswith("fault.")}
    other = {k: v[0] for k, v in r["counters"].items() if not k.startswith("fault.")}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 1), violations=len(viol),
        assumptions=c["assume"],
        coverage=dict(evaluations=r["runs"], distinct_nontrivial=r["distinct_nontrivial"], rule=RULE % c["nontrivial"], samples=r["samples"][:3],
            runs_per_hour=round(r["runs"] / hours), seeds_per_hour=round(r["runs"] / hours), simulated_seconds=round(r["sim_us"] / 1e6, 3),
            scenarios=r["scenarios"], faults_injected=faults, probes=other,
            distinct_executions=r["distinct"], control_flow_edges_reached=r["edges"], control_flow_edges_total=r["edges_total"],
            instrumented_steps=r["steps"], choices=r["choices"], events=r["events"], context_switches=r["switches"],
            determinism_rechecks=r["recheck"], determinism_mismatches=r["recheck_bad"], shrink_runs=r["shrink_runs"],
            known_findings_seen=known, components_real=c["real"], components_stubbed=c["stub"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if r["recheck_bad"]:
        print("check: %d runs were not repeatable" % r["recheck_bad"])
        return 1 if viol else 2
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
