#!/bin/bash
# usage: check.sh PROPERTY [--tier T]   (run in /verif)
cd "$(dirname "$0")" || exit 2
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -W ignore -m vf.run "$@"
