"""Author-side helper: run the checks of planted bugs on scratch copies.

usage: try_seeds.py [-j N] [ids...]     (default: every seeded/<id>)
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
RES = {}


def one(sid):
    d = os.path.join(VERIF, "seeded", sid)
    pid = json.load(open(d + "/meta.json"))["property"]
    work = "/tmp/trywork/" + sid
    if os.path.exists(work):
        shutil.rmtree(work)
    shutil.copytree("/repo", work + "/repo", symlinks=True)
    shutil.copytree(VERIF, work + "/verif", symlinks=True,
                    ignore=shutil.ignore_patterns("seeded", ".git",
                                                  "replays"))
    r = subprocess.run(["git", "apply", d + "/patch.diff"],
                       cwd=work + "/repo", capture_output=True, text=True)
    if r.returncode:
        print(sid, "PATCH DOES NOT APPLY", r.stderr[:200])
        return
    r = subprocess.run(["python3", "run.py", pid], cwd=work + "/verif",
                       env=dict(os.environ, VERIF_REPO=work + "/repo"),
                       capture_output=True, text=True)
    v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    RES[sid] = pid if r.returncode == 1 and v else "missed"
    print(sid, pid, "CAUGHT" if r.returncode == 1 and v else
          "MISSED rc=%d" % r.returncode, r.stdout.splitlines()[-1][:150]
          if r.stdout else r.stderr[-200:], flush=True)
    shutil.rmtree(work)


args = sys.argv[1:]
jobs = 2
if args[:1] == ["-j"]:
    jobs = int(args[1])
    args = args[2:]
ids = args or sorted(os.listdir(VERIF + "/seeded"))
with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
f = VERIF + "/tools/seed_results.json"
old = json.load(open(f)) if os.path.exists(f) else {}
old.update(RES)
old = {k: v for k, v in old.items() if os.path.isdir(VERIF + "/seeded/" + k)}
json.dump(old, open(f, "w"), indent=1, sort_keys=True)
