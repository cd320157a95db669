#!/bin/bash
# Nothing to compile: verify that the interpreter, the code under test and the solver import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -c "from vf import env; env.setup(); env.load(); import z3; print('ok', z3.get_version_string())"
