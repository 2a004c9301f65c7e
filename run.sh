#!/bin/bash
# bash run.sh C01 [--tier thorough] [--test NAME] [--replay FILE]: runs one property's check against /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m pbt.main "$@"
