#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [more options of akmon/run.py]
cd "$(dirname "$0")" || exit 3
id="$1"; tier="${2:-quick}"; shift; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore akmon/run.py "$id" --tier "$tier" "$@"
