#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after editing; both outputs are committed."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "abstract interpretation over Go SSA (closed-form value analysis with loop summaries)"
P = []
def prop(id, title, stmt, over, qtext, why, files, mech, tech=TECH, note="", na=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, na=na))

exec(open(os.path.join(V, "gen", "list.py")).read())

claimed = set(subprocess.run([os.path.join(V, "bin", "vtool"), "list"], capture_output=True, text=True, check=True).stdout.split())
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["stmt"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
BASE = "Sound static decision over the SSA of the current tree for every security level and arbitrary data; undecided obligations count as violations. Trusted: go/ssa, the abstract interpreter, the real-number reading of float64 arithmetic. "
m = dict(version=1, setup_cmd="./run.sh build", checks=[], not_applicable=[],
    notes="All checks share one analyser (tool/). See DESIGN.md. Known findings and fixed defects: known_findings.txt.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    elif p["id"] in claimed:
        m["checks"].append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
            technique=p["tech"], level="other", level_note=BASE + p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="static rule designed (DESIGN.md) but not built yet"))
unk = claimed - {p["id"] for p in P}
assert not unk, unk
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print("claimed:", [c["property"] for c in m["checks"]], "na:", [c["property"] for c in m["not_applicable"]])
