"""C06: one answer for every sparsity threshold, on whole programs."""
from .common import *
from .programs import PROGRAMS, generate, thresholds


def cases(tier, rng):
    out = []
    for fn, shapes, dom in PROGRAMS:
        n = sum(int(np.prod(s)) for s in shapes)
        every = n <= 4 and fn.__name__ != 'nuclei' or tier == 'thorough'
        for t in [] if every and tier == 'quick' else thresholds(n, tier):
            out.append(input_case(f'{fn.__name__} n={n} thr={t}', fn,
                                  [Var(s, **dom) for s in shapes], threshold=t))
        if every:
            out.append(input_case(f'{fn.__name__} n={n} every threshold', fn,
                                  [Var(s, **dom) for s in shapes], threshold='symbolic'))
    seen = set()
    count = 60 if tier == 'quick' else 500
    while len(seen) < count:
        shape = rng.choice([(2,), (3,), (2, 2), (3, 1), (2, 1), (4,), (1,)])
        d, g = generate(rng, shape, rng.choice([3, 4, 5]))
        key = (d, shape)
        if key in seen or d == 'x':
            continue
        seen.add(key)
        n = int(np.prod(shape))
        for t in {rng.choice([1, 2, 3]), n, 0} if tier == 'thorough' else {rng.choice([1, 2]), n}:
            out.append(input_case(f'{d} x:{"x".join(map(str, shape))} thr={t}', g, [Var(shape)], threshold=t))
    return out
