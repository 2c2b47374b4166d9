#!/bin/bash
# usage: run.sh <property id> [options]   (tier from $VERIF_TIER or --tier)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/veriftools/pyvenv/bin/python3
[ -x "$PY" ] || PY=$(command -v python3-vt) || PY=python3
exec "$PY" lib/main.py "$@"
