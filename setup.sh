#!/bin/bash
# Nothing is compiled: the checks are Python and import /repo's working tree.
# This only verifies that what they need can be imported offline.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= PYTHONPATH="$here:/repo"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -c '
import pbt.deps, hypothesis, torch, scipy, lalsimulation, ml4gw
print("hypothesis", hypothesis.__version__, "torch", torch.__version__)
'
