#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when a property changes)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level))

exec(open(os.path.join(here, "tools", "props.py")).read())

for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
M = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
        "level_note": p["note"],
    } for p in P if p["technique"]],
    "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["technique"]],
    "notes": "All checks are one Go program (harness/) built against /repo by check.sh; see DESIGN.md. No hooks are needed in /repo.",
}
json.dump(M, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
