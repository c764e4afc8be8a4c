#!/bin/bash
# check.sh <property> [--replay FILE]: decide one property on /repo's current working tree
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg OMPI_MCA_ess_singleton_isolated=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$here/check.py" "$@"
