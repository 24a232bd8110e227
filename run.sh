#!/bin/bash
# run.sh <property id> [options]: one check, against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -m vsim.check "$@"
