#!/bin/bash
# check.sh <property> [options]: one deterministic-simulation check (see DESIGN.md)
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg TZ=UTC
exec "${PY:-/opt/venv/bin/python}" check.py "$@"
