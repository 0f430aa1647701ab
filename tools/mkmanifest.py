#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and tools/not_applicable.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(R + "/tools/checks.json"))
na = json.load(open(R + "/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
assert set(c["checks"]) | {x["property"] for x in na} <= set(props)
missing = [p for p in props if p not in c["checks"] and p not in {x["property"] for x in na}]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 check.py %s --quick" % p,
            "thorough_cmd": "python3 check.py %s --thorough" % p,
            "technique": x["technique"],
            "level": "exploration",
            "level_note": x["level_note"],
        }
        for p, x in sorted(c["checks"].items())
    ],
    "not_applicable": na + [{"property": p, "reason": "Check under construction."} for p in missing],
    "notes": "No hook in /repo is needed: scheduling, clock, randomness, CPU count and files are taken over at the libc boundary and by compiler instrumentation. KNOWN_FINDINGS.txt lists repaired defects and open findings.",
}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
