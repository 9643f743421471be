#!/bin/bash
# usage: run.sh check <property> [quick|thorough] | replay <file> | selftest [runs] | list
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} PYTHONPATH=${VERIF_REPO:-/repo}:$PWD PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=${SIM_HASHSEED:-0} PYTHONWARNINGS=ignore JOBLIB_MULTIPROCESSING=0
exec /opt/venv/bin/python -m sim.runner "$@"
