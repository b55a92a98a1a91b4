#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore lib/harness.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
