#!/bin/bash
# nothing to compile: check that the solver and the package load
cd "$(dirname "$0")/.." || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
from symx import core
s = core.z3.Solver()
x = core.z3.Real("x")
s.add(x * x < 0)
assert str(s.check()) == "unsat"
print("solver ready", core.z3.get_version_string())
P
