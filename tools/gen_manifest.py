"""Writes /verif/MANIFEST.json from the check modules that exist."""
import ast
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(here, "mc", "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(
            pid, "The check for this property is not built yet.")})
        continue
    const = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                const[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py %s --tier quick" % pid,
        "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": const["TECHNIQUE"],
        "level": const["LEVEL"],
        "level_note": const["LEVEL_NOTE"]})
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to the code under test; the checks drive "
              "its public functions and, for schedules, substitute the "
              "parallel primitives from outside."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
