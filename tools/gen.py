#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and the harness modules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS

TECH = "symbolic execution of the real Python sources with z3 (bounded, all values), counterexamples replayed on the real code"

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"]}}) + "\n")

checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".py")), p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py %s" % p["id"],
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking",
        "level_note": p["note"] + " Bounded: see the evidence file's bounds; assumptions are listed there too."})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python selfcheck.py", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
