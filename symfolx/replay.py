"""Replays a recorded violation: exit 1 if it is still there."""
import json
import sys

from . import solve
from .case import choices_at, compare_at, precision, trace
from .worker import load

d = json.load(open(sys.argv[1]))
case = {c.name: c for c in load(d['property'], d['tier'], d['seed'])}[d['case']]
print('recorded:', d['detail'])
try:
    with precision(case):
        values = choices_at(case, d['point'])
        trace(case, values)
        bad = list(case.structure()) if case.structure else []
        if case.require:
            z3 = solve.z3
            zs = {k: z3.IntVal(v) if isinstance(v, int) else z3.RealVal(str(v)) for k, v in values.items()}
            bad += [t for c, t in case.require(zs) if not z3.is_true(z3.simplify(c))]
        r = (True, '; '.join(bad)) if bad else compare_at(case, d['point'])
except Exception as e:
    r = (True, f'raises {type(e).__name__}: {e}')
print('input:', d['point'])
print('now:', r[1] if r and r[0] else 'agrees with the specification')
sys.exit(1 if r and r[0] else 0)
