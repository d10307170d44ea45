#!/bin/sh
# run.sh PROPERTY [tier]: decide one property
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3-vt check.py "$@"
