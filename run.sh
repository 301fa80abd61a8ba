#!/bin/bash
# ./run.sh check.py C01 --tier quick   (environment for the checks; everything is loaded from /repo's working tree)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${EIN_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$@"
