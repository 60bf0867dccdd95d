#!/bin/bash
# nothing to build: check that the interpreter, the solvers and the contracts load
cd "$(dirname "$0")" || exit 1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
import pydv.smt, pydv.nf, pydv.sym, z3, sympy, mpmath
print("z3", z3.get_version_string(), "sympy", sympy.__version__)
P
