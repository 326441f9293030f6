#!/bin/bash
# Nothing is built ahead of time: every check extracts its obligations from /repo/src when it runs.
cd "$(dirname "$0")" || exit 3
command -v z3-new >/dev/null || command -v z3 >/dev/null || { echo "no SMT solver"; exit 3; }
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, haiku, flax, wv.registry" || exit 3
echo setup ok
