#!/bin/bash
# cwd: /repo after the build. Exit 0 if the property holds in this scenario.
unset PYTHONPATH PYTHONHOME DISPLAY
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig PROJ_NETWORK=OFF OMP_NUM_THREADS=2
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python "$here/demo.py"
