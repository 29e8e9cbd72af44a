#!/bin/bash
# Nothing to compile: verify that the interpreter and the framework import.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD MPLBACKEND=Agg /opt/venv/bin/python -W ignore - <<'PY'
import dolfyn, vdolfyn.core, vdolfyn.synth, sys
assert sys.version_info >= (3, 12)
print('ok', dolfyn.__file__)
PY
