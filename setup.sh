#!/bin/bash
# Nothing to build: checks that the interpreter, the library under test and hypothesis can be loaded offline.
cd "$(dirname "$0")" || exit 1
exec env PYTHONPATH=/repo/src:. PYTHONDONTWRITEBYTECODE=1 DISABLE_CONTRACTS=1 MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d)" /opt/venv/bin/python -c "
import pbt.core, hypothesis, dg_commons
print('hypothesis', hypothesis.__version__, 'dg_commons from', dg_commons.__file__)"
