#!/bin/sh
# check.sh <property>: seeded simulation of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED PYTHONDONTWRITEBYTECODE
exec /opt/venv/bin/python -B -m sim.runner check "$1"
