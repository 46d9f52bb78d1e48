#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly (numba compiles per run into a scratch cache).
cd "$(dirname "$0")" || exit 1
PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, pyscf, qiskit_nature, qiskit_aer, lib.driver, lib.oracle, lib.gens; print('ok')"
