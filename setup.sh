#!/bin/bash
# nothing to build: the checks import skmine from /repo's working tree.  Verifies that the simulator starts.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -c "import joblib, numpy, pandas, sklearn, networkx, pyroaring, sortedcontainers, cloudpickle"
