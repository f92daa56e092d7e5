#!/bin/bash
# ./run.sh C01 quick|thorough [extra check.py options]
cd "$(dirname "$0")" || exit 2
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift 2
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B check.py "$P" --tier "$T" "$@"
