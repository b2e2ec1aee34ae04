#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(here))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": f"VERIF_TIER=quick bash run.sh {p['id']}",
    "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
    "technique": p["technique"], "level": "exploration", "level_note": p["note"],
} for p in PROPS if p["id"] not in {n["property"] for n in NOT_APPLICABLE}]
json.dump({"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": NOT_APPLICABLE,
    "notes": "Every check builds its harness crate (kit/h-*) against /repo's working tree with the vendored crates in kit/vendor, then runs generated cases; VERIF_SEED drives every choice. run.sh <ID> replay <file> re-runs a minimal failing case."},
    open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties")
