#!/bin/bash
# Run one check: run.sh <property id> <quick|thorough> [replay file]
# Exit 0: held on everything explored.  Exit 1: violated.  Otherwise: error of the check.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root} PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONUNBUFFERED=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTEST_ADDOPTS JAX_ENABLE_X64 JAX_DISABLE_JIT
WAX_SRC=${WAX_SRC:-/repo/src}
export WAX_SRC PYTHONPATH="$PWD:$WAX_SRC"
exec python -m mc.runner "$@"
