#!/bin/bash
# check.sh PROPERTY [tier]: decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
p=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
exec /opt/venv/bin/python engine/run.py "$p" --tier "$tier" "$@"
