#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.  Run after every change."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, level="model_checking",
         note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(V, "lib", "proplist.py")).read())

for p in P:
    p["files"] = list(dict.fromkeys(p["files"]))
    for fn in p["files"]:
        if not os.path.exists(os.path.join("/repo", fn)):
            raise SystemExit(f"{p['id']}: no such anchor {fn}")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "Specifications are in specs/ (TLA+, checked with TLC); see DESIGN.md."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({
            "property": p["id"], "quick_cmd": f"python3 checks/run.py {p['id']}",
            "thorough_cmd": f"python3 checks/run.py {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
