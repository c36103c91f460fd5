#!/bin/bash
# check.sh PROPERTY [quick|thorough]: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 LANG=C.UTF-8
exec python3-vt lib/pbt.py "$1" --tier "${2:-quick}" "${@:3}"
