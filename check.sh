#!/bin/bash
# Usage: bash check.sh C01 [--replay FILE] [--facet NAME] ...
# Runs one property check against /repo's working tree, in the interpreter the
# repository's own tests use.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
exec /opt/venv/bin/python -W ignore run_check.py "$@"
