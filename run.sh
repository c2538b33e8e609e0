#!/bin/bash
# usage: run.sh Cxx [quick|thorough] [--section=a,b] [--replay=file]
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
repo=${VERIF_REPO:-/repo}
export PYTHONPATH=$repo:$here/standin:$here/lib PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$here/checks/$id.py" "$@"
