#!/bin/bash
# ./run.sh <property id> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
id="$1"; shift
mod=$(ls checks/${id}_*.py 2>/dev/null | head -1)
[ -n "$mod" ] || { echo "no check for $id"; exit 2; }
mod=$(basename "$mod" .py)
exec /opt/venv/bin/python -W ignore -c "
import sys
from mc import core
sys.exit(core.main('checks.$mod'))" "$@"
