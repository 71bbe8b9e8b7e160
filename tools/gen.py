#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/meta.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import meta  # noqa: E402

with open(V + "/properties.jsonl", "w") as f:
    for p in meta.P + meta.NA_P if hasattr(meta, "NA_P") else meta.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 -m engine.run {p['id']} --tier quick", "thorough_cmd": f"python3 -m engine.run {p['id']} --tier thorough",
                "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in meta.P],
    "not_applicable": meta.NA,
    "notes": "No hooks: the checks read /repo/include as it is. See DESIGN.md.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
