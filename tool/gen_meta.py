#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.py (one dict per property)."""
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from meta.props import PROPS, NA  # noqa

import re  # noqa


def short(t):
    """At most three sentences: the later ones are joined by semicolons."""
    x = re.split(r"(?<=[.])\s+(?=[A-Z])", t)
    return t if len(x) <= 3 else " ".join(x[:2] + ["; ".join(y.rstrip(".") for y in x[2:]) + "."])


for p in PROPS + NA:
    p["statement"] = short(p["statement"])
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 run_check.py %s" % p["id"],
        "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": p.get("level", "other"),
        "level_note": p["level_note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are static analyses of /repo's current sources; see DESIGN.md. No hooks are needed in /repo.",
}
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
