#!/bin/bash
# run.sh ID [args]: runs the check of property ID against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export JAX_PLATFORMS=cpu NO_GCE_CHECK=true OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 LANG=C.UTF-8 TZ=UTC
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export GRPC_ENABLE_FORK_SUPPORT=0
unset GOOGLE_APPLICATION_CREDENTIALS
cd "$here" && exec /opt/venv/bin/python -W ignore run.py "$@"
