#!/bin/bash
# usage: run_check.sh <PROPERTY> <quick|thorough> | run_check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
SCR=$(mktemp -d /tmp/verif_run.XXXXXX) || exit 2
trap 'rm -rf -- "$SCR"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$SCR/nb" "$SCR/tmp" "$SCR/home"
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export NUMBA_CACHE_DIR="$SCR/nb" NUMBA_NUM_THREADS=4
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell NUMBA_CPU_NAME=haswell NUMBA_CPU_FEATURES=+avx2,+fma
export TMPDIR="$SCR/tmp" PYSCF_TMPDIR="$SCR/tmp" HOME="$SCR/home" MPLCONFIGDIR="$SCR/home"
export QISKIT_PARALLEL=FALSE RAYON_NUM_THREADS=1 QISKIT_SUPPRESS_PACKAGING_WARNINGS=Y
export VERIF_SCRATCH="$SCR"
"$PY" -m lib.driver "$@"
exit $?
