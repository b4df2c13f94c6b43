#!/bin/bash
# usage: run.sh <module> [args]; runs checks/<module>.py against /repo
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
export TZ=UTC LC_ALL=C.UTF-8 LANG=C.UTF-8
export PYTHONPATH="${HACHOIR_REPO:-/repo}:$PWD"
unset PYTHONSAFEPATH PYTHONSTARTUP
m="$1"; shift
exec "$PY" -W ignore -m "checks.$m" "$@"
