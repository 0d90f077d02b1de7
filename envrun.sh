#!/bin/bash
# run a python script in the checks' environment: envrun.sh script args
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export PYTHONPATH=/repo PATH_TO_POSYDON=/repo/ PATH_TO_POSYDON_DATA=/repo/posydon/unit_tests/_data/ MESA_DIR=/repo/
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$@"
