#!/bin/bash
# run.sh CHECK [--tier T] [--seed N] [--replay FILE] ...
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
unset PYTHONPATH LD_PRELOAD PYTHONSTARTUP
exec /opt/venv/bin/python -B "$here/sim/engine.py" "$@"
