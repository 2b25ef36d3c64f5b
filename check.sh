#!/bin/bash
# usage: check.sh <property id> <quick|thorough>   |   check.sh --replay <file>
# Runs one property check against the working tree of /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PYTHONPATH="$here"
exec /opt/venv/bin/python -m mudcheck "$@"
