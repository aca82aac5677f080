#!/usr/bin/env python3
"""check.py PROP [--seed S] [--tier quick|thorough]

Builds the simulator from the current working tree of /repo, searches simulated executions for a violation of one
property, and writes evidence/<PROP>.json.  Exit 0: held on everything explored (listed known findings apart).
Exit 1: VIOLATION line(s).  Anything else: the check itself is broken."""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import build
import props

def main():
    prop = sys.argv[1]
    a = sys.argv[2:]
    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    P = props.PROPS[prop]
    out = os.path.join(V, "evidence", "run-" + prop); rep = os.path.join(V, "evidence", "replays")
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out, exist_ok=True); os.makedirs(rep, exist_ok=True)
    viol = []; known = []; parts = []; rc_all = 0
    kf = props.known_findings(prop)
    for st in P["stages"]:
        exe = build.build(st["variant"])
        runs, wall = st[tier]
        d = os.path.join(out, st["variant"])
        cmd = [exe, "run", st.get("as", prop), "--seed", str(seed), "--runs", str(runs), "--wall", str(wall), "--out", d, "--replays", rep]
        if tier == "thorough": cmd.append("--thorough")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        for line in r.stdout.splitlines():
            if line.startswith("VIOLATION "):
                f = line.split("replay=")[1].strip()
                viol.append((st["variant"], f))
                print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
            else: print(line, flush=True)
        if r.returncode not in (0, 1): rc_all = max(rc_all, 3); print("the search ended with code", r.returncode)
        try: js = json.load(open(os.path.join(d, "stats.json")))
        except Exception as e: print("no statistics:", e); rc_all = 3; continue
        parts.append((st["variant"], js))
    # findings that are recorded, not repaired: still there?
    for k in kf:
        exe = build.build(k["variant"])
        r = subprocess.run([exe, "replay", os.path.join(V, k["file"])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 1 and ("kind=" + k["kind"]) in r.stdout: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"])); known.append(k["what"])
    S = {"runs": 0, "executions": 0, "calls": 0, "sim_us": 0, "clean": 0, "faulty": 0, "switches": 0, "behaviours": 0, "schedules": 0, "nontrivial": 0}
    faults, outcomes, counts, samples, search_s = {}, {}, {}, [], 0.0
    for v, js in parts:
        s = js["stats"]; search_s += js["wall_s"]
        for k in S: S[k] += s.get(k, 0)
        for src, dst in ((s["faults"], faults), (s["outcomes"], outcomes), (s["counts"], counts)):
            for k, n in src.items(): dst[k] = dst.get(k, 0) + n
        samples += ["[%s build]\n%s" % (v, x) for x in s["samples"]]
    h = max(search_s, 1e-6) / 3600.0
    cov = {"evaluations": S["executions"], "distinct_nontrivial": S["behaviours"], "rule": P["rule"], "samples": samples[:6],
           "simulated_runs": S["runs"], "seeds_per_hour": int(S["runs"] / h), "executions_per_hour": int(S["executions"] / h), "solver_calls": S["calls"],
           "simulated_time_s": S["sim_us"] * 1e-6, "fault_free_executions": S["clean"], "executions_with_faults": S["faulty"],
           "faults_injected": faults, "scheduler_switches": S["switches"], "distinct_interleavings": S["schedules"],
           "nontrivial_runs": S["nontrivial"], "call_outcomes": outcomes, "checks_made": counts, "search_wall_s": search_s,
           "builds": [v for v, _ in parts], "real_components": P["real"], "stub_components": P["stub"], "known_findings_still_present": known,
           "stopped_by_wall_limit": counts.get("stopped_by_wall_limit", 0) > 0}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P["assume"], "wall_s": time.time() - t0, "violations": len(viol)}
    tmp = os.path.join(V, "evidence", prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(V, "evidence", prop + ".json"))
    shutil.rmtree(out, ignore_errors=True)
    if viol: sys.exit(1)
    if rc_all: sys.exit(rc_all)
    print("%s: held on %d runs (%d executions, %d distinct non-trivial behaviours), %.0f s" % (prop, S["runs"], S["executions"], S["behaviours"], time.time() - t0))

if __name__ == "__main__": main()
