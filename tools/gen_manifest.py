#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import config
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
claimed = [i for i in ids if i not in config.NOT_APPLICABLE]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i}",
        "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
        "technique": config.TECHNIQUE.get(i, "contracts on the functions extracted from /repo/src on every run, discharged by Verus; bounded differential replay beside it"),
        "level": config.LEVEL.get(i, "proof"),
        "level_note": config.NOTE[i],
    } for i in claimed],
    "not_applicable": [{"property": i, "reason": config.NOT_APPLICABLE[i]} for i in ids if i in config.NOT_APPLICABLE],
    "notes": "DESIGN.md describes contracts, extraction rules, trusted base and verdict rules; known_findings.txt lists findings and fixes.",
}
th = getattr(config, "THEOREMS", {})
for c in m["checks"]:
    if c["level"] == "proof" and c["property"] in th:
        c["theorems"] = th[c["property"]]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
