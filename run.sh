#!/bin/bash
# usage: run.sh ID [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export LANG=C.UTF-8 TZ=UTC MPLBACKEND=Agg
export PYTHONPATH="${MC_REPO:-/repo}/py":"$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PATH="${MC_REPO:-/repo}/bin":/opt/venv/bin:$PATH
unset RR_TEMPLATE_DIR NERSC_HOST SLURM_JOB_NAME
exec /opt/venv/bin/python "$here/run.py" "$@"
