#!/bin/bash
# nothing to build: only verifies that the interpreter and FESTIM's dependencies are there
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
"$py" -c "import fenics, numpy, sympy" >/dev/null 2>&1 || { echo "FEniCS is missing"; exit 1; }
mkdir -p "$(dirname "$0")/evidence"
