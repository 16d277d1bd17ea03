#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "python3 check.py " + p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "n/a")
