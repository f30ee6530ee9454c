#!/bin/bash
# Nothing is built ahead of time: every check regenerates its encoding from /repo. Only checks that the tools are there.
set -eu
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" "$py" -c "
from vlib import core, dag, cexec
import z3, pycparser, sympy
print('z3', z3.get_version_string(), 'sympy', sympy.__version__)"
gcc --version | head -1
cbmc --version
