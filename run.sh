#!/bin/sh
# run.sh <property> <quick|thorough> : run one check with the interpreter that has the
# dependencies of pysal/region
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore harness/check.py "$@"
