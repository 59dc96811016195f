"""C05: dot_general for every layout of small operands."""
import itertools

from .common import *


def layouts(rl, rr):
    """All (contract, batch) dimension numbers of operands of rank rl and rr."""
    for nb in range(0, min(rl, rr) + 1):
        for nc in range(0, min(rl, rr) - nb + 1):
            for lb in itertools.permutations(range(rl), nb):
                rest = [i for i in range(rl) if i not in lb]
                for lc in itertools.permutations(rest, nc):
                    for rb in itertools.permutations(range(rr), nb):
                        rrest = [i for i in range(rr) if i not in rb]
                        for rc in itertools.combinations(rrest, nc):
                            # a simultaneous permutation of the pairs is the same layout
                            if nb > 1 and list(lb) != sorted(lb):
                                continue
                            yield (lc, rc), (lb, rb)


def shapes(rl, rr, dims):
    """Shapes in which matching dimensions agree; others differ where possible."""
    (lc, rc), (lb, rb) = dims
    ls, rs = [0] * rl, [0] * rr
    for k, (i, j) in enumerate(zip(lb, rb)):
        ls[i] = rs[j] = 2 if k == 0 else 1
    for k, (i, j) in enumerate(zip(lc, rc)):
        ls[i] = rs[j] = (2, 3, 1)[k]
    sizes = itertools.cycle((2, 1))
    ls = [s or next(sizes) for s in ls]
    sizes = itertools.cycle((3, 2))
    rs = [s or next(sizes) for s in rs]
    return tuple(ls), tuple(rs)


PAIRS = [('two', 'part'), ('dense', 'own'), ('own', 'rev'), ('dense', 'const'), ('const', 'part'),
         ('dense', 'dense'), ('dup', 'shared'), ('part', 'dense'), ('const', 'dense'), ('rev', 'const')]


def cases(tier, rng):
    out = []
    k = 0
    top = 3
    for rl in range(0, top + 1):
        for rr in range(0, top + 1):
            for dims in layouts(rl, rr):
                ls, rs = shapes(rl, rr, dims)
                size = int(np.prod(ls) * np.prod(rs))
                if size > 72:
                    continue
                # each layout with some of the sparsity patterns, in turn
                count = (3 if rl + rr <= 3 else 2 if rl + rr <= 4 else 1) if tier == 'quick' else 6
                if tier == 'quick' and rl + rr >= 5 and rng.random() > (0.35 if rl + rr == 5 else 0.12):
                    continue
                for _ in range(count):
                    a, b = PAIRS[k % len(PAIRS)]
                    k += 1
                    f = lambda x, y, dims=dims: jax.lax.dot_general(x, y, dims)
                    t = 0 if {a, b} <= {'dense', 'const'} else (4, 2)[k % 2] if tier == 'thorough' else 4
                    out.append(step(f'dot {dims}', f, [(ls, a), (rs, b)], 4, t))
    # with itself, chained, and followed by other operations
    for m in ('dense', 'own', 'two', 'part', 'dup', 'rev'):
        t = 0 if m == 'dense' else 4
        out.append(step('x@x', probe(lambda x: x @ x), [((2, 2), m)], 4, t))
        out.append(step('x.T@x', probe(lambda x: x.T @ x), [((2, 2), m)], 4, t))
        out.append(step('vdot', probe(lambda x: jnp.vdot(x, x)), [((3,), m)], 4, t))
        out.append(step('outer', probe(lambda x: jnp.outer(x, x)), [((2,), m)], 4, t))
        out.append(step('einsum', lambda x, y: jnp.einsum('abc,abc->ab', x, y), [((2, 1, 2), m), ((2, 1, 2), 'two')], 4, 4))
        out.append(step('einsum2', lambda x, y: jnp.einsum('abc,bac->c', x, y), [((2, 1, 2), m), ((1, 2, 2), 'own')], 4, 4))
        out.append(step('quadratic form', lambda x, y: x @ y @ x, [((2,), m), ((2, 2), 'own')], 4, 4))
        out.append(step('three', lambda x, y: (x @ y) @ (y @ x), [((2, 2), m), ((2, 2), 'part')], 4, 4))
        for thr in (1, 2, 3):
            out.append(step('matvec', lambda x, y: x @ y, [((2, 2), m), ((2,), 'two')], 4, thr))
            out.append(step('empty overlap', lambda x, y: (x @ y) ** 2, [((2, 2), m), ((2, 1), 'rev')], 8, thr))
        out.append(step('disjoint', lambda x: (x[:2] @ x[2:]), [((4, 2) if False else (4,), m)], 4, 4))
        out.append(step('sparse overlap', lambda x, y: jnp.einsum('ij,kj->ik', x, y),
                        [((3, 1), m), ((3, 1), 'own')], 6, 6))
    # few of the products share inputs
    few = [
        ('outer', 'i,j->ij', (2,), [[0, 1]], (2,), [[1, 2]]),
        ('outer two', 'i,j->ij', (2,), [[0, 1], [3, 3]], (2,), [[1, 2], [4, 5]]),
        ('outer repeated', 'i,j->ij', (2,), [[0, 1], [0, 1]], (3,), [[1, 2, 4], [1, 3, 5]]),
        ('outer of three', 'i,j->ji', (3,), [[0, 1, 2]], (2,), [[2, 5]]),
        ('rows', 'ik,jk->ij', (2, 2), [[[0, 1], [2, 2]]], (2, 2), [[[3, 3], [4, 1]]]),
        ('rows of pairs', 'ik,jk->ij', (2, 2), [[[0, 1], [2, 2]], [[4, 5], [4, 5]]], (2, 2), [[[3, 3], [2, 1]], [[3, 3], [4, 0]]]),
        ('batch', 'bi,bj->bij', (2, 2), [[[0, 1], [2, 3]]], (2, 2), [[[1, 4], [5, 4]]]),
        ('batch contracted', 'bik,bjk->bij', (2, 2, 1), [[[[0], [1]], [[2], [3]]]], (2, 2, 1), [[[[4], [4]], [[3], [5]]]]),
        ('last', 'i,j->ij', (2,), [[0, 5]], (2,), [[4, 5]]),
        ('none', 'i,j->ij', (2,), [[0, 1]], (2,), [[2, 3]]),
        ('unused', 'i,j->ij', (2,), [[0, 1], [-1, 2]], (2,), [[2, 3], [-1, -1]]),
    ]
    for name, eq, ls, lm, rs, rm in few:
        lm, rm = np.array(lm), np.array(rm)
        for t in (1, 2, 6):
            f = lambda x, y, eq=eq: jnp.einsum(eq, x, y)
            out.append(state_case(f'few {name} thr={t}', probe(f), [In(ls, lm), In(rs, rm)], 6, t))
            out.append(state_case(f'few {name} swapped thr={t}', probe(lambda y, x, f=f: f(x, y)), [In(rs, rm), In(ls, lm)], 6, t))
    out.append(step('preferred type', lambda x, y: jax.lax.dot_general(
        x, y, (((0,), (0,)), ((), ())), preferred_element_type=jnp.float64, precision='highest'),
        [((2,), 'two'), ((2,), 'two')], 3, 3))
    return out
