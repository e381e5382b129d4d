#!/bin/bash
# ./check.sh CXX [--tier quick|thorough]   |   ./check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m mc "$@"
