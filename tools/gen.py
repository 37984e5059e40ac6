#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
sys.dont_write_bytecode = True
from spec import P
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"] + " quick",
                            "thorough_cmd": "./run.sh " + p["id"] + " thorough",
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
