#!/bin/bash
# usage: run_check.sh <property> [tier]   -- decides one property on /repo's current tree
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/dst/check.py" --property "$1" --tier "${2:-quick}" "${@:3}"
