#!/bin/bash
# Checks of the Python port (C25-C27, C29); called by check.sh.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH=/repo/python_ai PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=$(command -v python3-vt) || { echo "ERROR: no Python with hypothesis" >&2; exit 2; }
exec timeout -k 5 840 "$PY" py/pycheck.py "$@"
