#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE] ...
HERE="$(cd "$(dirname "$0")" && pwd)"
SCRATCH="$(mktemp -d /tmp/dgc_verif.XXXXXX)" || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export HOME="$SCRATCH" LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 DISABLE_CONTRACTS=1
export MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_SCRATCH="$SCRATCH" VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/src:$HERE"
mkdir -p "$MPLCONFIGDIR"
cd "$SCRATCH" || exit 3
/opt/venv/bin/python -m pbt.run "$@"
exit $?
