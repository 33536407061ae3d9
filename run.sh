#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] ...: one property's check.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/support/env.sh
export PYTHONPATH=$here:/repo:$here/stubs:$PYTHONPATH
export VERIF_SITE=/opt/veriftools/pyvenv/lib/python3.12/site-packages
export TF_CPP_MIN_LOG_LEVEL=3 GRPC_VERBOSITY=ERROR OMP_NUM_THREADS=1
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m lib.runner "$@"
