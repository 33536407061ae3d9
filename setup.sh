#!/bin/bash
# Nothing to build: checks that the toolchain the checks use is there.
. /opt/vp/support/env.sh
cd "$(dirname "$0")" && PYTHONPATH=.:/repo:stubs:$PYTHONPATH /opt/venv/bin/python -W ignore -c "import lib, z3, jax; print('z3', z3.get_version_string(), 'jax', jax.__version__)"
