"""Author-side helper: confirm a planted bug and store it under seeded/<id>.

usage: seed.py SPEC.py [ids...]   SPEC defines SEEDS = [dict(id, property,
file, old, new, needs, breaks, demo)] (edits may be a list in 'edits').
Works on a scratch copy of /repo; never touches /repo itself.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = "/verif"
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken (cwd: /repo)
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$tmp/nb" SCRATCH="$tmp"
/opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def demo(dst, cwd):
    r = sh(["bash", dst + "/demo.sh"], cwd=cwd, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def main():
    from concurrent.futures import ThreadPoolExecutor
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    specs = [s for s in specs if not want or s["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, specs))


def one(s):
    if True:
        WORK = "/tmp/seedwork/" + s["id"]
        if os.path.exists(WORK):
            shutil.rmtree(WORK)
        shutil.copytree("/repo", WORK, symlinks=True)
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        bad = None
        for f, old, new in edits:
            p = os.path.join(WORK, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "old text found %d times in %s" % (t.count(old), f)
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(s["id"], "EDIT", bad)
            return
        diff = sh(["git", "diff"], cwd=WORK).stdout
        for f, _, _ in edits:
            old_lines = sh(["git", "show", "9b0e3fe:" + f],
                           cwd=WORK).stdout.splitlines()
            for x in sh(["git", "diff", "-U0", f],
                        cwd=WORK).stdout.splitlines():
                if x.startswith("-") and not x.startswith("---") and \
                        x[1:] not in old_lines:
                    print(s["id"], "not an original line:", x)
        dst = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        open(dst + "/demo.sh", "w").write(SH)
        open(dst + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(dst + "/meta.json", "w"), indent=1)
        c0, o0 = demo(dst, "/repo")
        c1, o1 = demo(dst, WORK)
        ok = c0 == 0 and c1 != 0
        print(s["id"], s["property"], "demo clean=%d patched=%d" % (c0, c1),
              "" if ok else "BAD\n" + o0 + "\n" + o1, flush=True)
        if not ok:
            shutil.rmtree(dst)
            return
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rf",
                "--randomly-seed=1", "--randomly-dont-reorganize", "tests"],
               cwd=WORK,
               env=dict(os.environ, NUMBA_CACHE_DIR=WORK + "/nbcache",
                        PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=WORK))
        failed = [x for x in r.stdout.splitlines() if x.startswith("FAILED")]
        print("   tests:", r.stdout.strip().splitlines()[-1], failed[:4],
              flush=True)
        if failed:
            print("   -> check whether the failing tests are stable ones")
        shutil.rmtree(WORK)


main()
