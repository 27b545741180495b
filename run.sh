#!/bin/bash
# usage: run.sh <property> [quick|thorough]   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python check.py "$@"
