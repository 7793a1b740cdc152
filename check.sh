#!/bin/bash
# check.sh <ID> [--replay FILE]: run the check of one property
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python harness/run.py "$@"
