#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seed_results.json.

seedtable.py ID RESULT   records a result first (RESULT: name of the scenario that caught it, or "missed").
"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = R + "/tools/seed_results.json"
res = json.load(open(F)) if os.path.exists(F) else {}
if len(sys.argv) == 3:
    res[sys.argv[1]] = sys.argv[2]
out = ["| change | property | caught by | what it needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    by = res.get(d, "not run")
    out.append(f"| {d} | {m['property']} | {'**missed**' if by == 'missed' else by} | {m['needs']} |")
res = {k: v for k, v in sorted(res.items()) if os.path.isdir(f"{R}/seeded/{k}")}
json.dump(res, open(F, "w"), indent=1)
t = open(R + "/DESIGN.md").read()
t = re.sub(r"\| change \| property \|.*?(?=\n\n|\Z)", lambda _: "\n".join(out), t, flags=re.S)
open(R + "/DESIGN.md", "w").write(t if t.endswith("\n") else t + "\n")
