#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the registered rules."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, TECH, NA
from rules import RULES

ids = set()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids; ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])]},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in RULES:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH[""]), "level": "other",
                       "level_note": p.get("note", TECH["note"])})
    else:
        na.append({"property": i, "reason": NA[i]})
assert set(RULES) <= ids, set(RULES) - ids
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks. Known findings and repaired defects are in known_findings.json."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
