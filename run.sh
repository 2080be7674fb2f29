#!/bin/bash
# usage: bash run.sh <property id>    (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONNOUSERSITE=1
unset PYTHONPATH PYTHONSTARTUP
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from vp.core import main; sys.exit(main(sys.argv[1]))' "$1"
