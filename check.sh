#!/bin/bash
# usage: bash check.sh C01 [--tier thorough] [--case NAME] [-v] | --replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -m sx.run "$@"
