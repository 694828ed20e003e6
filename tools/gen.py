#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, NOT_APPLICABLE
import checks
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                              "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
claimed = [p for p in PROPS if p["id"] in checks.REGISTRY]
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check under construction")}
      for p in PROPS if p["id"] not in checks.REGISTRY]
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                   "technique": p["technique"], "level": checks.REGISTRY[p["id"]][0],
                   "level_note": p["level_note"]} for p in claimed],
       "not_applicable": na,
       "notes": "No hooks: /repo carries no instrumentation. All harnesses observe the public interfaces. Specifications are TLA+ checked with TLC (spec/); harness/ links /repo's sources; lib/ drives both."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(claimed), "claimed")
