"""Author-side helper: run every check, record the figures in costs.json.

usage: run_all.py [--tier T] [ids...]
"""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = "quick"
if args[:1] == ["--tier"]:
    tier, args = args[1], args[2:]
ids = args or [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
f = V + "/tools/costs.json"
for pid in ids:
    t0 = time.time()
    r = subprocess.run(["python3", "run.py", pid, "--tier", tier], cwd=V,
                       capture_output=True, text=True)
    dt = time.time() - t0
    print(pid, tier, "rc=%d" % r.returncode, "%.0f s" % dt,
          r.stdout.splitlines()[-1][:120] if r.stdout else "", flush=True)
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-500:])
        continue
    e = json.load(open(V + "/evidence/%s.json" % pid))
    c = json.load(open(f)) if os.path.exists(f) else {}
    c.setdefault(pid, {})[tier] = {
        "evaluations": e["coverage"]["evaluations"],
        "states": e["coverage"]["states"], "wall_s": round(dt, 1)}
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
