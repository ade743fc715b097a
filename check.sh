#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONHASHSEED=0
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -X utf8 -m vt "$@"
