#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--runs N] [--time S]
Builds the simulator for PROP from /repo's working tree, explores seeds, writes evidence/PROP.json.
Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check itself failed."""
import json, os, subprocess, sys, time, shutil, glob, tempfile
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build, claims

def main():
    if "--setup" in sys.argv:
        for p in ("C01",): build.build(p)
        print("setup ok"); return 0
    prop = sys.argv[1]
    def opt(n, d):
        return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    C = claims.CLAIMS[prop]
    runs = int(opt("--runs", C["quick_runs"] if tier == "quick" else 1 << 40))
    tmax = float(opt("--time", 130 if tier == "quick" else C.get("thorough_s", 600)))
    jobs = min(8, os.cpu_count() or 1)
    t0 = time.time()
    exe = build.build(prop)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="simcheck-")
    try:
        r, agg, res = explore(exe, prop, seed, tmax, runs, jobs, work)
        det = determinism(exe, prop, seed, jobs, work)
        viol = None; rp = None
        if r == 1:
            d = os.path.join(V, "evidence", "replays"); os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, prop + ".txt"); shutil.copy(work + "/explore/replay.txt", rp)
            viol = [l for l in res if l.startswith("violation ")][0][10:]
        evidence(prop, tier, seed, C, agg, det, res, time.time() - t0, tb, viol, rp)
        for k in sorted(agg["known_txts"]): print("KNOWN-FINDING: property=%s %s" % (prop, k))
        if r == 0 and agg["runs"] == 0: r = 2
        if r == 0:
            print("ok property=%s runs=%d interleavings=%d wall=%.1fs (build %.1fs)" % (prop, agg["runs"], len(agg["ileave"]), time.time() - t0, tb)); return 0
        if r == 1:
            print("VIOLATION property=%s replay=%s" % (prop, rp)); print(viol); print("replay with: %s replay %s --trace" % (exe, rp)); return 1
        print("ERROR property=%s: %s" % (prop, "; ".join(res))); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def known(prop):
    """ids of the findings known_findings.txt lists for prop (lines "finding: property=P id=X text")"""
    r = []
    for l in open(V + "/known_findings.txt"):
        w = l.split()
        if l.startswith("finding:") and w[1] == "property=" + prop and w[2].startswith("id="): r.append(w[2][3:])
    return ",".join(r)

def explore(exe, prop, seed, tmax, runs, jobs, work, sub="explore", env=None):
    out = work + "/" + sub; os.makedirs(out)
    r = subprocess.run([exe, "explore", "--prop", prop, "--seed", str(seed), "--time", str(tmax), "--runs", str(runs), "--jobs", str(jobs), "--out", out, "--min", "20"],
                       env=dict(os.environ, SIM_KNOWN=known(prop), **(env or {})), stdout=subprocess.DEVNULL)
    res = open(out + "/result").read().splitlines() if os.path.exists(out + "/result") else ["no result"]
    agg = {"runs": 0, "ileave": set(), "hashes": set(), "opps": {}, "fired": {}, "scenarios": {}, "picks": {}, "samples": [], "known_txts": set(), "probes": [0] * 64}
    for f in sorted(glob.glob(out + "/stats.*.json")):
        s = json.load(open(f))
        for k in ("steps", "syncs", "switches", "accesses", "hot", "sim_ns", "threads", "races", "known", "incarnations", "fault_runs", "runs"): agg[k] = agg.get(k, 0) + s[k]
        for k in ("opps", "fired", "scenarios"):
            for a, b in s[k].items(): agg[k][a] = agg[k].get(a, 0) + b
        for a, b in s["picks"].items(): agg["picks"].setdefault(a, set()).update(b)
        agg["samples"] += s["samples"]; agg["ileave"].update(s["ileave"]); agg["hashes"].update(s["hashes"])
        agg["probes"] = [a + b for a, b in zip(agg["probes"], s["probes"])]
        if s["known_txt"]: agg["known_txts"].update(x for x in s["known_txt"].split("\n") if x)
        agg["max_wall"] = max(agg.get("max_wall", 0), s["max_wall"])
    for l in res:
        if l.startswith("wall "): agg["wall"] = float(l.split()[1])
    return (r.returncode if r.returncode in (0, 1) else 2), agg, res

def determinism(exe, prop, seed, jobs, work):
    """the first seeds again, twice, distributed differently over processes: every event log hash has to be the same"""
    hs = []
    for i, j in enumerate((jobs, max(1, jobs - 3))):
        sub = "det%d" % i
        explore(exe, prop, seed, 60, 48, j, work, sub, {"SIM_HASHES": "1", "SIM_NOSTOP": "1"})
        hs.append(sorted(l for f in glob.glob("%s/%s/hashes.*" % (work, sub)) for l in open(f)))
    a, b = ({l.split()[0]: l for l in h} for h in hs)
    common = [k for k in a if k in b]
    return {"seeds_run_twice": len(common), "identical_event_logs": sum(a[k] == b[k] for k in common)}

def evidence(prop, tier, seed, C, g, det, res, wall, tb, viol, rp):
    w = max(g.get("wall", 0), 1e-9)
    cov = {
        "evaluations": g["runs"], "distinct_nontrivial": len(g["hashes"]),
        "rule": "one evaluation = one complete simulated execution from one seed (plan, schedule and faults all derived from it); counted as distinct by the hash of its full event log (every scheduling decision, synchronisation, I/O operation, fault and noted result); every run executes the code of the property at least once, see scenarios",
        "samples": g["samples"][:6],
        "scenarios": g["scenarios"],
        "runs_per_hour": int(g["runs"] / w * 3600), "seeds_per_hour": int(g["runs"] / w * 3600), "exploration_wall_s": round(w, 1), "build_wall_s": round(tb, 1), "slowest_run_s": g.get("max_wall"),
        "simulated_time_s": round(g.get("sim_ns", 0) / 1e9, 3),
        "simulated_processes": g.get("incarnations", 0), "simulated_threads": g.get("threads", 0),
        "scheduler_steps": g.get("steps", 0), "synchronisation_operations": g.get("syncs", 0), "context_switches": g.get("switches", 0), "instrumented_memory_accesses": g.get("accesses", 0), "shared_memory_preemption_points": g.get("hot", 0),
        "distinct_interleavings": len(g["ileave"]), "interleaving_measure": "hash over the global order of synchronisation operations (thread, operation kind, object) of a run",
        "fault_opportunities": {k: v for k, v in g["opps"].items() if v}, "faults_injected": {k: v for k, v in g["fired"].items() if v}, "runs_with_faults": g.get("fault_runs", 0),
        "plan_values_reached": {k: (sorted(v) if len(v) <= 12 else "%d values in %d..%d" % (len(v), min(v), max(v))) for k, v in sorted(g["picks"].items())},
        "determinism": det,
        "real_code": C["real"], "stubs": C["stub"],
        "probes": {n: g["probes"][i] for i, n in C.get("probes", {}).items()},
        "gate": "a violation counts only after the seed reproduced it twice, the deviation table reproduced the same event log hash, and the minimised replay file reproduced it in a fresh process",
    }
    if viol: cov["violation"] = viol; cov["replay"] = rp; cov["search_log"] = res
    if g["known_txts"]: cov["known_findings"] = sorted(g["known_txts"])
    e = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": C.get("level", "exploration"), "coverage": cov, "wall_s": round(wall, 2), "assumptions": C["assume"], "violations": 1 if viol else 0}
    d = os.path.join(V, "evidence"); os.makedirs(d, exist_ok=True)
    with open(d + "/%s.json" % prop, "w") as f: json.dump(e, f, indent=1)

if __name__ == "__main__": sys.exit(main())
