"""A worker: reads case numbers on stdin, writes results (JSON lines) on fd 3."""
from __future__ import annotations

import dataclasses
import importlib
import json
import os
import resource
import signal
import sys
import time
import warnings


def main():
    prop, tier, seed, limit = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # whatever the code under test prints goes to stderr
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    warnings.simplefilter('ignore')

    from . import track
    from .case import Timeout, check_case
    from . import interp

    cases = load(prop, tier, seed)
    print(json.dumps({'ready': len(cases), 'names': [c.name for c in cases]}), file=out, flush=True)

    def alarm(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, alarm)
    for line in sys.stdin:
        k = int(line)
        case = cases[k]
        interp.CALLS.clear()
        track.start()
        t = time.time()
        signal.alarm(limit)
        try:
            res = check_case(case, seed=seed, tier=tier)
            d = dataclasses.asdict(res)
        except Timeout:
            d = {'name': case.name, 'status': 'undecided', 'detail': 'time limit of the case',
                 'wall_s': round(time.time() - t, 2)}
        signal.alarm(0)
        d['index'] = k
        d['folx_functions'] = track.stop()
        d['primitives'] = dict(interp.CALLS)
        print(json.dumps(d, default=str), file=out, flush=True)


# constants that single precision rounds differently, or types chosen by the case
NOT_SINGLE = ('var_std', 'erf', 'scans in a scan', 'astype', 'large:')
# masks of constants and of arguments are combined here
SINGLE = ('concat', 'where', 'stack', 'clip', 'const', 'select', 'pad')


# properties about all operations: a part of the cases of others, one of so many
ACROSS = {
    'C06': (3, 'C03 C04 C05 C08 C19 C20', 'sparse'),
    'C07': (3, 'C03 C04 C05 C14 C19 C20', 'sparse'),
    'C11': (4, 'C01 C03 C04 C05 C05 C08 C12 C14 C19 C20', ''),
}


def others(prop, tier, seed):
    import random

    every, props, kind = ACROSS[prop]
    out = []
    for k, q in enumerate(props.split()):
        mod = importlib.import_module(f'symfolx.cases.{q.lower()}')
        cases = mod.cases(tier, random.Random(seed))
        if kind == 'sparse':
            cases = [c for c in cases if 'thr=0' not in c.name and ':' in c.name]
        start = (int(prop[1:]) + int(q[1:]) + k + seed) % every
        out += [dataclasses.replace(c, name=f'{q}: {c.name}') for c in cases[start::every]]
    return out


def load(prop, tier, seed):
    """The list of cases of a property: a function of (tier, seed) only."""
    import random

    mod = importlib.import_module(f'symfolx.cases.{prop.lower()}')
    from .cases import large
    from .case import single

    cases = mod.cases(tier, random.Random(seed)) + large.large(prop)
    if prop in ACROSS:
        cases += others(prop, tier, seed)
    # some of them again as JAX runs by default, with 32 bit numbers and indices
    every = 1 if tier == 'thorough' else 4
    cases += [
        single(c) for k, c in enumerate(cases)
        if not any(w in c.name for w in NOT_SINGLE)
        and ((k + seed) % every == 0 or any(w in c.name for w in SINGLE))
    ]
    seen = {}
    for c in cases:
        k = seen[c.name] = seen.get(c.name, 0) + 1
        if k > 1:
            c.name += f' #{k}'
    return cases


if __name__ == '__main__':
    main()
