#!/bin/bash
# usage: run.sh <property id> [args]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 HAMILTON_TELEMETRY_ENABLED=false
export PYTHONPATH="$(pwd)/lib:${VERIF_REPO:-/repo}:${VERIF_REPO:-/repo}/ui/sdk/src"
p="$1"; shift
PY=/opt/venv/bin/python
[ -f "checks/$p.venv" ] && PY="$(cat "checks/$p.venv")"
exec "$PY" "checks/$p.py" "$@"
