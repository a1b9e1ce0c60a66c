#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/checks.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [],
     "notes": "No hooks are used; run.py builds the harness from /repo's working tree. Every generator is seeded from VERIF_SEED. Replay: python3 run.py replay <id> <file>."}
for p in props:
    if p not in conf:
        continue
    c = conf[p]
    m["checks"].append({"property": p, "quick_cmd": f"python3 run.py check {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {p}",
                        "technique": c.get("technique", "property-based testing: generated robots and states against a reference model"), "level": "exploration",
                        "level_note": c.get("note", "Random search over generated cases with an independent oracle; trusts the oracle in engine/ and the floating point tolerance. Says nothing beyond the cases generated.")})
m["not_applicable"] = [{"property": p, "reason": "check under construction"} for p in props if p not in conf]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
