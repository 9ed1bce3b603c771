#!/bin/bash
# nothing to build: check that the interpreter, Numpy and the library can be imported
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${AKMON_REPO:-/repo}" exec "$PY" -W ignore -c "import numpy, awkward0; print('awkward0', awkward0.__version__, 'numpy', numpy.__version__)"
