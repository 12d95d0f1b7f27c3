#!/bin/bash
# Nothing to compile: check that the interpreter and the libraries of the checks are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replays
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
python -c "import jax, haiku, flax, numpy, pandas, xarray, optax, numba" || exit 1
