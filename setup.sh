#!/bin/bash
# Nothing is built: the encoding is made from /repo's source on every run.
# This checks that the interpreter, the solvers and folx can be imported.
cd "$(dirname "$0")" && env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
from symfolx import solve, build
import cvc5
x = solve.z3.Real('x')
assert solve.check([x * x < 0], 1000)[0] == 'unsat'
print('ready', solve.z3.get_version_string(), build.folx.__file__)
PY
