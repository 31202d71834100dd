#!/usr/bin/env python3
"""python3 run.py <property id> [--thorough] [--replay FILE] [--part NAME] [-v]"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "TQDM_DISABLE": "1", "NUMBA_DISABLE_JIT": "1", "PYTHONDONTWRITEBYTECODE": "1",
    "HDF5_USE_FILE_LOCKING": "FALSE", "PYTHONWARNINGS": "ignore", "MC_CHILD": "1",
}
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("MC_CHILD") != "1":
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    env.update(ENV)
    os.execve(PY, [PY, os.path.join(here, "run.py")] + sys.argv[1:], env)

sys.path.insert(0, here)
import importlib  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
from mc import core  # noqa: E402

core.bootstrap()
prop = sys.argv[1]
if prop == "--selftest":
    import cratermaker  # noqa: F401

    print("ok")
    sys.stdout.flush()
    os._exit(0)
mod = importlib.import_module(f"checks.{prop.lower()}")
sys.stdout.flush()
rc = core.main(prop, mod, sys.argv[2:])
sys.stdout.flush()
os._exit(rc)
