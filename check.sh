#!/bin/bash
# ./check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/wv_mpl} XLA_FLAGS="--xla_cpu_multi_thread_eigen=false" TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore
unset PYTHONPATH JAX_ENABLE_X64
p=$1; shift
exec /opt/venv/bin/python -m wv.run --property "$p" "$@"
