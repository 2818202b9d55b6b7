#!/bin/sh
# Makes Hypothesis importable for the interpreter the checks use (offline).
set -e
cd "$(dirname "$0")/.."
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ ! -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis ] && [ ! -d .deps/hypothesis ]; then
    "$PY" -m pip install --quiet --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis
fi
PYTHONDONTWRITEBYTECODE=1 "$PY" - <<'PYEOF'
import sys
sys.path += ["/opt/veriftools/pyvenv/lib/python3.12/site-packages", ".deps"]
import hypothesis
print("hypothesis", hypothesis.__version__)
PYEOF
