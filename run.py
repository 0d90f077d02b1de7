#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--jobs N]

Re-executes itself under the project's interpreter and environment and runs
the check of one property against /repo's working tree.
"""
import os
import sys

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get("VERIF_INNER") != "1":
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(("PYTHON", "SLURM"))}
        env.update(VERIF_INNER="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   QT_QPA_PLATFORM="offscreen", TZ="UTC",
                   PYTHONPATH=REPO, PATH_TO_POSYDON=REPO + "/",
                   PATH_TO_POSYDON_DATA=REPO +
                   "/posydon/unit_tests/_data/",
                   MESA_DIR=REPO + "/", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   NUMEXPR_MAX_THREADS="1", BLOSC_NTHREADS="1",
                   HDF5_USE_FILE_LOCKING="FALSE", PYTHONWARNINGS="ignore")
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, HERE)
    from mc import core
    rc = core.run(a.pid, a.tier, seed, jobs=a.jobs, replay=a.replay)
    sys.stdout.flush()
    os._exit(rc)


main()
