#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C33": "TensorFlow is not installed in this sandbox and cannot be fetched, so no execution of these bindings exists to enumerate.",
}
TODO = "no check built yet"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    id = p["id"]
    path = os.path.join(V, "checks", id.lower() + ".py")
    if id in NA or not os.path.exists(path):
        na.append(dict(property=id, reason=NA.get(id, TODO)))
        continue
    consts = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(
        property=id,
        quick_cmd="./check.sh %s quick" % id,
        thorough_cmd="./check.sh %s thorough" % id,
        evidence_file="evidence/%s.json" % id,
        technique=consts.get("TECHNIQUE", "bounded exhaustive enumeration of the real code against a reference model"),
        level=consts["LEVEL"],
        level_note=consts.get("NOTE", "Exhaustive within the bounds stated in the evidence rule; nothing is claimed outside them. Trusted: the reference model in /verif (lib/ or the check module), numpy."),
    ))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Checks build their own copy of the package from /repo's working tree into /verif/.cache (ignored by git).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
