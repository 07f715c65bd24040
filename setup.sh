#!/bin/bash
# nothing to build: the checks are Python and import simpeg from /repo's working tree.
# Fail early if the interpreter or a vendored library is missing.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH= /opt/venv/bin/python -W ignore - <<'PY'
import sys
sys.path.insert(0, "/repo")
sys.path.append("vendor")
import hypothesis, numpy, scipy, discretize, simpeg
print("hypothesis", hypothesis.__version__, "simpeg from", simpeg.__file__)
PY
