"""Nothing to build: the checks are Python and load /repo's tree when run.
Verify that the interpreter, the libraries and the tree are usable."""
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
here = os.path.dirname(os.path.abspath(__file__))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
           PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"),
           NUMBA_CACHE_DIR="/tmp/algomc_setup_cache")
code = ("import numpy, scipy, h5py, joblib, numba, PIL, pywt; "
        "import algotom.io.loadersaver; print('environment ok')")
sys.exit(subprocess.call([PY, "-c", code], env=env))
