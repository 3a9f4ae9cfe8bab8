#!/bin/bash
# Nothing is compiled: check that the interpreter, the solver and the code
# under test can be loaded.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
print('z3', z3.get_version_string())
PY
