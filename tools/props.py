#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []
def prop(id, title, statement, over, text, why, files, mech, note="all inputs, all iterations; standard library text conversions assumed by contract"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))
NA = []
exec(open(os.path.join(here, "list.py")).read())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
na = {i for i, _ in NA}
m = dict(version=1, setup_cmd="./build.sh", checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
    thorough_cmd="./check.sh %s thorough" % p["id"],
    technique="contract-based deductive verification: Go SSA symbolic execution against contracts, obligations discharged by z3/cvc5",
    level="proof", level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]) for p in P if p["id"] not in na],
    not_applicable=[dict(property=i, reason=r) for i, r in NA])
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
