#!/bin/bash
# ./check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
ulimit -s 1000000 2>/dev/null
exec python3 analyzer/check.py "$1" "${2:-quick}"
