#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                      why_tests_cant=why, anchors=a, _t=technique, _n=note, _na=na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": [], "not_applicable": [],
     "notes": "All checks decide from the MIR of /repo's current tree (driver/ + sa/); nothing of /repo is executed."}
for p in PROPS:
    if p["_na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 sa/run.py --property %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 sa/run.py --property %s --tier thorough" % p["id"],
                            "technique": p["_t"], "level": "other", "level_note": p["_n"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
