#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
variants = []
for p in props.PROPS.values():
    for s in p["stages"]:
        if s["variant"] not in variants: variants.append(s["variant"])
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over call histories, schedules and fault sequences of the real solver in one process, replayable from a minimised program",
        "level": p["level"], "level_note": (p["note"] + " " if p["note"] else "") + "Seeded search, no proof: " + p["rule"].split(". ", 1)[1] if False else ((p["note"] + " ") if p["note"] else "") + "Seeded random search over simulated executions of the real code, no completeness claim; trusts the simulator's seams (clock, heap, files, scheduler) and the oracle. " + p["rule"][len(props.GEN):]})
na = [{"property": i, "reason": props.NOT_APPLICABLE.get(i, props.PENDING)} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(variants), "hooks": {"guard": "none", "enable": "no hooks: every seam is reached by linking (interposed clock, allocator, stdio) or through interfaces the code has; /repo is compiled as it is", "source_commits": []}, "checks": checks, "not_applicable": na,
     "notes": "The commits in /repo are repairs of genuine defects only (fix: ...), listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
