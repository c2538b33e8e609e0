#!/bin/bash
# runs a python script in the environment of the checks
repo=${VERIF_REPO:-/repo}; here=$(cd "$(dirname "$0")/.." && pwd)
export PYTHONPATH=$repo:$here/standin:$here/lib:$here/checks PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$@"
