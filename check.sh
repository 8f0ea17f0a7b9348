#!/bin/bash
# usage: check.sh <property id> [--thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
[ "$2" = "--thorough" ] && export VERIF_TIER=thorough
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
# VERIF_REPO is only for developing the checks; they run against /repo itself.
PYTHONPATH="${VERIF_REPO:-/repo}/src":"$PWD" exec "$PY" -W ignore -c 'import sys; from vlib.core import main; sys.exit(main(["check"] + sys.argv[1:]))' "$@"
