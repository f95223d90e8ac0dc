#!/bin/bash
# run.sh <property-id> [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" "$here/lib/runner.py" "$@"
