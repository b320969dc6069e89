#!/bin/bash
# check.sh PID [--tier quick|thorough] [--unit NAME] | --replay FILE
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec /opt/venv-pypy/bin/python -W ignore symx/run.py "$@"
