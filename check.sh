#!/bin/bash
# check.sh PROPERTY [quick|thorough] [options]  -- exit 0 held, 1 violated (VIOLATION line), 2 error
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export MPLCONFIGDIR=${TMPDIR:-/tmp}/symx_mpl
mkdir -p "$MPLCONFIGDIR"
P=$1; shift
T=${VERIF_TIER:-quick}
case "$1" in quick|thorough) T=$1; shift;; esac
exec /opt/venv/bin/python symx/main.py "$P" --tier "$T" "$@"
