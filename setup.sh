#!/bin/bash
# Nothing to compile: the checks import the code under test from /repo/python at run time.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" /opt/venv/bin/python -W ignore -c 'import symx.core, z3, lsst.pipe.base; print("z3", z3.get_version_string()); assert lsst.pipe.base.__file__.startswith("/repo/")'
