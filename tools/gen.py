#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, outputs are committed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, bin=None, technique="", note="", na="check not built yet", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bin=bin, technique=technique, note=note, na=na, observe=observe))
exec(open(os.path.join(here, "tools", "table.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["bin"]:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['bin']} {p['id']} quick",
            thorough_cmd=f"./check.sh {p['bin']} {p['id']} thorough", technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
