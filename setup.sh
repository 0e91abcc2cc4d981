#!/bin/bash
# Nothing to build ahead: each check compiles /repo's C sources into a scratch folder itself.
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence replays
"${PY:-/opt/venv/bin/python}" -c "import numpy, scipy, obspy, pandas, pyproj; print('ok')"
