#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, check=None, state=None, observe=None, hook=None, level_note=None, technique=None, na=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors={k: v for k, v in dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state or []],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook).items() if v or k == "hook_needed"},
        _check=check, _note=level_note, _tech=technique, _na=na, _level=level))

exec(open(os.path.join(HERE, "properties_src.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], hooks=HOOKS, not_applicable=[], notes=NOTES)
for p in P:
    if p["_check"]:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['_check']} {p['id']} quick",
            thorough_cmd=f"./check.sh {p['_check']} {p['id']} thorough", technique=p["_tech"] or TECH, level=p["_level"], level_note=p["_note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["_na"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
