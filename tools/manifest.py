#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json (run after adding a check)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
conf = json.load(open(os.path.join(V, "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": conf[i].get("technique", "runtime monitoring: online oracle over the real code driven by seeded hostile workloads, every run under AddressSanitizer + UndefinedBehaviorSanitizer"),
            "level": "exploration",
            "level_note": conf[i].get("note", "Monitored executions of the real classes; covers the cases the seeded workload reaches (counts in the evidence file), within the value ranges given in DESIGN.md"),
        })
    else:
        na.append({"property": i, "reason": conf.get("_na", {}).get(i, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "S2E_VERIF_HOOKS", "enable": "no hook was needed: /repo has no guarded code; the checks observe the public interfaces, the log files and the stand-ins of external libraries", "source_commits": []},
    "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
