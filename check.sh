#!/bin/bash
# bash check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m harness.run "$@"
