#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "observe_at": p.get("observe", ["public API of the asciidoc-parser crate"]), "hook_needed": None}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "bash ./check.sh --build",
     "checks": [{"property": p["id"],
        "quick_cmd": f"bash ./check.sh {p['id']}", "thorough_cmd": f"bash ./check.sh {p['id']} thorough",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
        for p in PROPS if p["id"] not in na],
     "not_applicable": NOT_APPLICABLE,
     "notes": "All checks run the 'vp' harness crate (/verif/harness, path dependency on /repo/parser, public API only, so no hooks in /repo). VERIF_SEED and VERIF_TIER select the run; see DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids)), "duplicate ids"
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
print(len(ids), "properties", len(m["checks"]), "checks")
