#!/bin/bash
# usage: run.sh P01 [--tier quick|thorough] | run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 \
    MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore \
    CUDA_VISIBLE_DEVICES= PYTHONPATH=/repo:$PWD
exec /opt/venv/bin/python -m mc "$@"
