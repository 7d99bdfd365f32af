#!/bin/bash
# usage: check.sh <property> [--quick|--thorough]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B check.py "$@"
