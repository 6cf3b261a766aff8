#!/bin/sh
# usage: run.sh <property> [--tier quick|thorough] [--seed N] [--replay file]
cd "$(dirname "$0")" || exit 3
S=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
trap 'find "$S" -mindepth 1 -delete 2>/dev/null; rmdir "$S" 2>/dev/null' EXIT
export VERIF_SCRATCH="$S" MPLCONFIGDIR="$S" MPLBACKEND=Agg
export PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PWD"
/opt/venv/bin/python -W ignore -m vlib "$@"
