#!/usr/bin/env python3
"""Rewrites DESIGN.md from its head, the property table, the rules and the seeds."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, obs=None):
    PROPS.append(dict(id=id, title=title, statement=statement, q=qtext, why=why, files=files, mech=mech, t=technique, n=note, na=na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())
exec(open(os.path.join(V, "tools", "design_data.py")).read())


def rule(p):
    for n in ast.walk(ast.parse(open(os.path.join(V, "sa", "rules", p.lower() + ".py")).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule":
            return ast.literal_eval(n.args[0])
    return ""


o = open(os.path.join(V, "tools", "design_head.md")).read()
o += "## Properties\n\n"
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["na"]:
        continue
    o += "### %s — %s\n" % (p["id"], p["title"])
    o += "*Decided by*: %s.\n\n" % p["t"]
    o += "*Rule*: %s.\n\n" % rule(p["id"])
    o += "*Oracle*: %s\n\n" % ORACLE.get(p["id"], "the relation between the named functions of the tree itself; no expected values are recorded.")
    o += "*Reach*: %s — %s\n\n" % (p["q"], p["why"])
    if p["n"]:
        o += "*Limits*: %s\n\n" % p["n"]
o += "## Not applicable\n\n"
for p in PROPS:
    if p["na"]:
        o += "* **%s %s.** %s\n" % (p["id"], p["title"], p["na"])
o += "\n" + TAIL
o += "\n## Planted bugs (`seeded/`)\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    s = os.path.basename(os.path.dirname(d))
    o += "| %s | %s | %s | %s |\n" % (s, m["property"], m["what_it_breaks"], CAUGHT.get(s, m["property"]))
o += "\n" + MUTATIONS
open(os.path.join(V, "DESIGN.md"), "w").write(o)
