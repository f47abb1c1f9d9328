#!/bin/bash
# run.sh PXX [quick|thorough] [--replay FILE]
# Runs the runtime monitor of one property against the working tree of /repo
# (VP_REPO overrides the tree, for experiments on scratch copies only).
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/vcheck.XXXXXX")
trap 'rm -rf "$work"' EXIT
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE NUMBA_DISABLE_JIT NUMBA_BOUNDSCHECK
export VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONHASHSEED="$VERIF_SEED"
case "$VERIF_SEED" in (*[!0-9]*|"") export PYTHONHASHSEED=0;; esac
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc"
# numba keys its on-disk cache by mtime and size: always start from an empty one
export NUMBA_CACHE_DIR="$work/numba" MPLCONFIGDIR="$work/mpl" MPLBACKEND=Agg
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VP_REPO="${VP_REPO:-/repo}" VP_WORK="$work" VP_VERIF="$here"
mkdir -p "$work/mpl" "$work/cwd"
cd "$work/cwd"
/opt/venv/bin/python -P "$here/vlib/main.py" "$@"
