#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "static analysis: gated value-flow analysis (abstract interpretation of SSA with path conditions as decision diagrams, loops summarised) and rules over its events"
props, na = [], []

def prop(id, title, statement, over, text, why, files, mech, level=None, state=None, technique=TECH):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        p["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    props.append((p, level, technique))

def notapp(id, reason):
    na.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, "props_text.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
skip = {n["property"] for n in na}
checks = []
for p, level, tech in props:
    if p["id"] in skip:
        continue
    assert level, p["id"]
    checks.append(dict(property=p["id"], quick_cmd="bash check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
                       technique=tech, level="other", level_note=level))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
