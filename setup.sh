#!/bin/bash
# Nothing to build: the checks are Python, run by the interpreter of /repo's
# environment, with the solvers of the pre-installed tool venv.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, scipy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
P
