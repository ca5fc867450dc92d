#!/bin/sh
# usage: tools/run.sh <property> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export NUMBA_NUM_THREADS="${CT_NUMBA_THREADS:-1}" NUMBA_THREADING_LAYER=workqueue
[ "$1" = C08 ] && export NUMBA_NUM_THREADS="${CT_NUMBA_THREADS:-8}"
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m ctv.run "$@"
