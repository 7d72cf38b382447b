#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/: head.md, one text per property, and the catch matrix."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
D = os.path.join(H, "tools", "design")
rules = json.loads(subprocess.run([os.path.join(H, ".bin", "trypocheck"), "-describe"], capture_output=True, text=True, check=True).stdout)
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
out = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in rules:
        r = rules[i]
        out.append(r["How"] + "\n")
        for k in sorted(r["Rules"]):
            out.append("- `%s`: %s" % (k, r["Rules"][k]))
        if r.get("Assumes"):
            out.append("- assumes: " + "; ".join(r["Assumes"]))
        extra = os.path.join(D, i + ".md")
        if os.path.exists(extra): out.append("\n" + open(extra).read().strip())
    else:
        out.append("Not claimed. " + NA.get(i, "No static rule decides it yet."))
    out.append("")
seeds = []
S = os.path.join(H, "seeded")
m = {}
try: m = json.load(open(os.path.join(D, "matrix.json")))
except FileNotFoundError: pass
seeds.append("| planted bug | property | what it breaks | reported by |\n|---|---|---|---|")
for i in sorted(os.listdir(S)):
    j = json.load(open(os.path.join(S, i, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], m.get(i, "?")))
s = open(os.path.join(D, "head.md")).read()
s = s.replace("PROPERTIES_SECTION", "\n".join(out)).replace("SEEDED_SECTION", "\n".join(seeds))
open(os.path.join(H, "DESIGN.md"), "w").write(s)
