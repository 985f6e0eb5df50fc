#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree directly. This only proves that the
# interpreter, the repository and Hypothesis can be imported together, offline.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1 MPLCONFIGDIR=/opt/vp/mplconfig MPLBACKEND=Agg \
  /opt/venv/bin/python -c "
from vp import boot; boot.boot()
from vp import run, core; run.load()
print('laws:', sum(map(len, core.LAWS.values())), 'properties:', len(core.LAWS))"
