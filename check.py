#!/usr/bin/env python3
"""Entry point:  python3 check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Re-executes itself with a pinned environment (hash seed, single-threaded BLAS, no byte code read
from or written to the repository) and runs vt.run."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VT_REPO", "/repo")
env = dict(os.environ)
env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONPATH=repo + ":" + here, VT_REPO=repo, VT_HERE=here, VT_MONITOR="1")
if sys.argv[1:] == ["--setup"]:
    # nothing to compile: make sure the interpreter can load the harness and the code under test
    sys.argv[1:] = ["-c"]
py = "/opt/venv/bin/python"
if not os.path.exists(py):
    py = sys.executable
if sys.argv[1:] == ["-c"]:
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    os.execve(py, [py, "-W", "ignore", "-c", "import pyzx, numpy, vt.run, vt.ref, vt.gref, vt.gen; print('ready', pyzx.__file__)"], env)
os.execve(py, [py, "-W", "ignore", "-m", "vt.run"] + sys.argv[1:], env)
