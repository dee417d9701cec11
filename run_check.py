#!/usr/bin/env python3
"""python3 /verif/run_check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        import tempfile
        import shutil
        import subprocess
        mpl = tempfile.mkdtemp(prefix="verif_mpl_")
        env = dict(os.environ, VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   MPLBACKEND="Agg", MPLCONFIGDIR=mpl, PYTHONNOUSERSITE="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C.UTF-8")
        env.pop("PYTHONPATH", None)
        try:
            rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env)
        finally:
            shutil.rmtree(mpl, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)
    sys.path.insert(0, HERE)
    from mon import core
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
