#!/bin/bash
# usage: check.sh <PROPERTY> [--replay FILE] [--facet NAME]
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MKL_NUM_THREADS=1 MPLBACKEND=Agg HDF5_USE_FILE_LOCKING=FALSE
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset PYTHONPATH
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/run_check.py" "$@"
