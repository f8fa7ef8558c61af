#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--only scenario,...] [--replay FILE]
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.run "$@"
