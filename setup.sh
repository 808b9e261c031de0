#!/bin/bash
# nothing to build: the verifier is Python; check that the interpreters are there
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c "import z3, sympy; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__)"
mkdir -p evidence replay
