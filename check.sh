#!/bin/bash
# check.sh <property> [--replay FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m vm.main "$@"
