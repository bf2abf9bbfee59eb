"""Generates properties.jsonl, MANIFEST.json and DESIGN.md from meta/props.py, meta/design_*.md."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "meta"))
from props import PROPS, NOT_APPLICABLE

lines, checks, design = [], [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }))
    claimed = os.path.exists(os.path.join(ROOT, "mc/checks/%s.py" % p["id"].lower()))
    if claimed:
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        })
    elif p["id"] not in NOT_APPLICABLE:
        NOT_APPLICABLE[p["id"]] = "no check built yet"
    design.append("### %s — %s\n\n*Property.* %s\n\n*Decided by.* %s\n\n*Oracle and bounds.* %s\n" % (p["id"], p["title"], p["statement"], p["technique"], p["design"]))
    assert len(p["title"]) <= 80, p["id"]
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "No hooks in /repo: all checks drive the public interfaces of the imported package.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
head = open(os.path.join(ROOT, "meta/design_head.md")).read()
tail = open(os.path.join(ROOT, "meta/design_tail.md")).read()
open(os.path.join(ROOT, "DESIGN.md"), "w").write(head + "\n".join(design) + "\n" + tail)
