#!/bin/bash
# nothing to build: the checks import the code from /repo's working tree directly
cd "$(dirname "$0")"
mkdir -p evidence/replay
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "/repo")
import hamilton
assert hamilton.__file__.startswith("/repo/"), hamilton.__file__
PY
