#!/bin/bash
# usage: ./run.sh <PROPERTY> [--quick|--thorough] [--replay FILE] [--only EXPLORATION]
# Runs one check against the working tree of /repo (pure Python: nothing to build).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 LANG=C.UTF-8
unset PYTHONPATH PYTHONHOME
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -W ignore -m mc "$@"
