#!/bin/sh
# nothing to build: checks load /repo's sources directly; make sure the engine imports
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '.')
import z3, numpy, scipy
from symx import harness
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
PY
