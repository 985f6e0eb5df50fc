#!/bin/bash
# bash run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] ...   (cwd: anywhere)
# Runs one property check against the working tree in ${VERIF_REPO:-/repo}.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/vp/mplconfig}
export PYTHONPATH="$here"
exec /opt/venv/bin/python -m vp.run "$@"
