#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m symx.run "$@"
