#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=files, mech=mech, technique=technique, note=" ".join((note or "").split()), na=na))


I = "include/phasar/"
exec(open(os.path.join(VERIF, "tools", "props.py")).read())

with open(f"{VERIF}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} quick",
                              "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
                              "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
json.dump(man, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
open(f"{VERIF}/MANIFEST.json", "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for x in p["files"]:
        assert os.path.exists("/repo/" + x), x
print(len(P), "properties,", len(man["checks"]), "claimed")
