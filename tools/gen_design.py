"""Writes /verif/DESIGN.md."""
import ast
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
j = os.path.join
out = [open(j(here, "tools/design_head.md")).read()]
props = [json.loads(x) for x in open(j(here, "properties.jsonl"))]
costs = {}
if os.path.exists(j(here, "tools/costs.json")):
    costs = json.load(open(j(here, "tools/costs.json")))
out.append("\n## The properties\n")
for p in props:
    f = j(here, "mc/checks", p["id"].lower() + ".py")
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    if not os.path.exists(f):
        out.append("Not claimed.\n")
        continue
    t = ast.parse(open(f).read())
    const = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                const[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    doc = re.sub(r"^P\d+:\s*", "", ast.get_docstring(t))
    out.append("```\n%s\n```\n" % doc.strip())
    out.append("Decided by: %s. %s\n" % (const["TECHNIQUE"].rstrip("."),
                                         const["LEVEL_NOTE"]))
    for a in const.get("ASSUMPTIONS", []):
        out.append("Assumes: %s.\n" % a.rstrip("."))
    c = costs.get(p["id"])
    if c:
        out.append("Cost: " + "; ".join(
            "%s %s cases (%s states), %d s" % (
                k, v["evaluations"], v["states"], round(v["wall_s"]))
            for k, v in sorted(c.items())) + ".\n")
out.append("\n## Defects found in algotom\n\n")
out.append("Every one was shown with a concrete input, schedule or history "
           "against the real code. `fixed` ones were repaired in /repo "
           "(\"fix:\" commits); `known` ones are recorded.\n\n")
for x in open(j(here, "known_findings.txt")):
    if not x.startswith("#") and x.strip():
        out.append("* " + x.strip().replace("*", "\\*") + "\n")
out.append("\n## Planted bugs\n\n")
out.append("Each lives in `seeded/<id>/`; all pass the repository's tests. "
           "The last column says whether the check of the property reports "
           "it.\n\n| id | property | needs | caught |\n|---|---|---|---|\n")
res = {}
if os.path.exists(j(here, "tools/seed_results.json")):
    res = json.load(open(j(here, "tools/seed_results.json")))
for s in sorted(os.listdir(j(here, "seeded"))):
    m = json.load(open(j(here, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"],
                                          res.get(s, "?")))
out.append("\n")
out.append(open(j(here, "tools/design_tail.md")).read())
open(j(here, "DESIGN.md"), "w").write("".join(out))
