#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the analyzer has."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = subprocess.run([os.path.join(H, ".bin", "trypocheck"), "-list"], capture_output=True, text=True, check=True).stdout.split()
TECH = json.load(open(os.path.join(H, "tools", "techniques.json")))
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in ids and p in TECH:
        t = TECH[p]
        checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "./check.sh " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t[0], "level": "other", "level_note": t[1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no static rule decides it yet")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "One analyzer (analyzer/, Go, x/tools vendored) decides all properties from /repo's source; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
