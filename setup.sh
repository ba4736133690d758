#!/bin/bash
# Nothing has to be built: check that the simulator starts and that runs repeat exactly.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -W ignore check.py smoke
