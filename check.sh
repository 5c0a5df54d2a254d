#!/bin/bash
# usage: check.sh <property id> <quick|thorough>   (run one check against /repo's working tree)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_CACHE_DIR="" ; unset NUMBA_CACHE_DIR
exec /opt/venv/bin/python -c 'import sys; from mc.core import main; sys.exit(main(["check"]+sys.argv[1:]))' "$@"
