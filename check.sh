#!/bin/bash
# bash check.sh <property> [quick|thorough] [options]   (run in /verif)
# Runs the generated-input search deciding one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false"
export TF_CPP_MIN_LOG_LEVEL=3
unset PYTHONPATH PYTEST_ADDOPTS JAX_ENABLE_X64
cd "$here" || exit 3
exec /opt/venv/bin/python -B -m pbt.run "$@"
