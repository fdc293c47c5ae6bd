#!/bin/bash
# Nothing to download; checks run the Python sources of /repo directly.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import vt.base, toron; print("toron from", toron.__file__)'
