#!/bin/bash
# Nothing to build: the verifier is pure Python run from /verif. Check that the tools it needs are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())'
/opt/venv/bin/python -c 'import numpy, scipy; print("numpy", numpy.__version__, "scipy", scipy.__version__)'
