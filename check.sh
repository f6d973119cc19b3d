#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
    OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg PYTHONWARNINGS=ignore
export PYTHONPATH=${BEER_REPO:-/repo}:$here
cd "$here" || exit 3
exec /opt/venv/bin/python -m mc "$@"
