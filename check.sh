#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)${VERIF_DEV_PATH:+:$VERIF_DEV_PATH}"
export OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -c 'import sys; from symx.runner import main; sys.exit(main(sys.argv[1:]))' "$@"
