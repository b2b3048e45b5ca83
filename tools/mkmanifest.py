#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime oracle: differential monitor of grate.Open on randomly serialised XLSX packages against the model they were written from",
 "C02": "runtime oracle: differential monitor of grate.Open on randomly encoded BIFF8 workbooks against the model they were written from",
}
LEVEL_NOTE = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every monitor observes exported behaviour (harness in /verif/harness, built against /repo's working tree on every run). Defects found are fixed in /repo by fix: commits listed in known_findings."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
