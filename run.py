#!/usr/bin/env python3
"""Launcher:  python3 /verif/run.py P01 [--tier quick|thorough] [--replay FILE]

Runs one check in a fresh interpreter of the project's own environment, with
the code of /repo's working tree, byte-code and numba caches kept outside
/repo, and a private scratch directory that is removed afterwards.
"""
import hashlib
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "algotom"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fo:
                    h.update(fo.read() + b"\0")
    return h.hexdigest()[:20]


def main():
    argv = sys.argv[1:]
    if not argv:
        print("usage: run.py PROPERTY [--tier T] [--replay FILE]")
        return 2
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 2
        else:
            print("unknown argument", argv[i])
            return 2
    tmp_root = tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="algomc_%s_" % pid, dir=tmp_root)
    cache = os.path.join(tmp_root, "algomc_numba_%d" % os.getuid())
    cache_dir = os.environ.get("VERIF_NUMBA_CACHE") or os.path.join(
        cache, tree_hash())
    os.makedirs(cache, exist_ok=True)
    for old in os.listdir(cache):          # keep only recent tree versions
        p = os.path.join(cache, old)
        try:
            stale = time.time() - os.path.getmtime(p) > 1800
        except OSError:                    # removed by another run
            continue
        if p != cache_dir and stale:
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(cache_dir, exist_ok=True)
    env = dict(os.environ)
    env.update({
        "VERIF_TIER": tier,
        "VERIF_SCRATCH": scratch,
        "VERIF_REPO": REPO,
        "NUMBA_CACHE_DIR": cache_dir,
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "PYTHONHASHSEED": "0",
        "HOME": scratch,
        "TMPDIR": scratch,
        "MPLBACKEND": "Agg",
        "JOBLIB_TEMP_FOLDER": scratch,
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "HDF5_USE_FILE_LOCKING": "FALSE",
        "PYTHONPATH": REPO + os.pathsep + VERIF,
        "PYTHONWARNINGS": "ignore",
    })
    if pid.upper() != "P13":
        # known before numba is first imported (it cannot be changed later)
        env["NUMBA_NUM_THREADS"] = "2"
    cmd = [PY, "-m", "mc.main", pid]
    if replay:
        cmd += [os.path.abspath(replay)]
    proc = None
    try:
        # a session of its own, so that worker processes the code under test
        # left running can be ended with it
        proc = subprocess.Popen(cmd, cwd=scratch, env=env,
                                start_new_session=True)
        return proc.wait()
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            proc.wait()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
