#!/usr/bin/env python3
"""Regenerate MANIFEST.json from config.py."""
import json, os
from config import PROPS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = {}
if os.path.exists(os.path.join(V, "not_applicable.json")):
    na = json.load(open(os.path.join(V, "not_applicable.json")))
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": PROPS[p["id"]].get("technique", "symbolic execution of the compiled code (LLVM IR) with Z3, bounded"),
            "level": "model_checking",
            "level_note": "Bounded: " + PROPS[p["id"]]["bounds"],
        }
        for p in props if p["id"] in PROPS
    ],
    "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "no check built yet")} for p in props if p["id"] not in PROPS],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
