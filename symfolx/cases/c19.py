"""C19: writing into arrays (scatter, segment reductions, updates)."""
from .common import *

I = np.array


def ops():
    mult = jnp.multiply
    return [
        # name, function, shapes, may be non-smooth
        ('set element', lambda x, y: x.at[1].set(y[0]), [(3,), (2,)]),
        ('set last', lambda x, y: x.at[-1].set(y.sum()), [(3,), (2,)]),
        ('set elements', lambda x, y: x.at[I([2, 0])].set(y), [(3,), (2,)]),
        ('set slice', lambda x, y: x.at[1:].set(y), [(3,), (2,)]),
        ('set strided', lambda x, y: x.at[::2].set(y), [(3,), (2,)]),
        ('set row', lambda x, y: x.at[0].set(y), [(2, 2), (2,)]),
        ('set rows', lambda x, y: x.at[I([1, 0])].set(y), [(3, 2), (2, 2)]),
        ('set column', lambda x, y: x.at[:, 1].set(y), [(2, 2), (2,)]),
        ('set pairs', lambda x, y: x.at[I([0, 1]), I([1, 0])].set(y), [(2, 2), (2,)]),
        ('set diagonal', lambda x, y: x.at[jnp.diag_indices(2)].set(y), [(2, 2), (2,)]),
        ('set mask', lambda x, y: jnp.where(I([True, False, True]), y[0], x), [(3,), (2,)]),
        ('set drop', lambda x, y: x.at[I([1, 9])].set(y, mode='drop'), [(3,), (2,)]),
        ('set broadcast', lambda x, y: x.at[I([0, 2])].set(y), [(3,), ()]),
        ('add element', lambda x, y: x.at[1].add(y[0]), [(3,), (2,)]),
        ('add elements', lambda x, y: x.at[I([2, 0])].add(y), [(3,), (2,)]),
        ('add repeated', lambda x, y: x.at[I([1, 1])].add(y), [(3,), (2,)]),
        ('add rows', lambda x, y: x.at[I([0, 0])].add(y), [(2, 2), (2, 2)]),
        ('add drop', lambda x, y: x.at[I([5, 1])].add(y, mode='drop'), [(3,), (2,)]),
        ('add slice', lambda x, y: x.at[1:, 0].add(y), [(3, 2), (2,)]),
        ('subtract', lambda x, y: x.at[0].add(-y[1]), [(3,), (2,)]),
        ('multiply', lambda x, y: x.at[I([0, 2])].multiply(y, unique_indices=True), [(3,), (2,)]),
        ('max element', lambda x, y: x.at[1].max(y[0]), [(2,), (2,)]),
        ('min element', lambda x, y: x.at[0].min(y[1]), [(2,), (2,)]),
        ('max elements', lambda x, y: x.at[I([1, 0])].max(y), [(2,), (2,)]),
        ('update slice', lambda x, y: jax.lax.dynamic_update_slice(x, y, (1,)), [(3,), (2,)]),
        ('update slice 2d', lambda x, y: jax.lax.dynamic_update_slice(x, y, (0, 1)), [(2, 2), (2, 1)]),
        ('update clamped', lambda x, y: jax.lax.dynamic_update_slice(x, y, (2,)), [(3,), (2,)]),
        ('update in dim', lambda x, y: jax.lax.dynamic_update_index_in_dim(x, y, 1, 0), [(2, 2), (1, 2)]),
        ('update by data', lambda x, y: jax.lax.dynamic_update_slice(x, y, (jnp.argmax(y),)), [(3,), (1,)]),
        ('set by data', lambda x, y: x.at[jnp.argmin(x)].set(y[0]), [(2,), (2,)]),
        ('add by data', lambda x, y: x.at[jnp.argmin(y)].add(y[0]), [(2,), (2,)]),
    ]


def one():
    return [
        ('zeros set', lambda x: jnp.zeros(3).at[I([2, 0])].set(x), [(2,)]),
        ('zeros add', lambda x: jnp.ones(3).at[I([2, 2])].add(x), [(2,)]),
        ('zeros rows', lambda x: jnp.zeros((3, 2)).at[I([2, 0])].set(x), [(2, 2)]),
        ('segment_sum', lambda x: jax.ops.segment_sum(x, I([1, 0, 1]), 3), [(3,)]),
        ('segment_sum rows', lambda x: jax.ops.segment_sum(x, I([1, 0, 1]), 2), [(3, 2)]),
        ('segment_sum unused', lambda x: jax.ops.segment_sum(x, I([0, 0, 0]), 2), [(3,)]),
        ('segment_sum drop', lambda x: jax.ops.segment_sum(x, I([0, 5, 1]), 2), [(3,)]),
        ('segment_max', lambda x: jax.ops.segment_max(x, I([0, 1, 0]), 2), [(3,)]),
        ('segment_min', lambda x: jax.ops.segment_min(x, I([0, 1, 0]), 2), [(3,)]),
        ('set const', lambda x: x.at[1].set(5.0), [(3,)]),
        ('set const rows', lambda x: x.at[I([1, 0])].set(np.ones((2, 2))), [(3, 2)]),
        ('add const', lambda x: x.at[1].add(5.0), [(3,)]),
        ('multiply const', lambda x: x.at[1].multiply(3.0), [(3,)]),
        ('self set', lambda x: x.at[0].set(x[2] * x[1]), [(3,)]),
        ('self add', lambda x: x.at[I([0, 1])].add(x[1:]), [(3,)]),
        ('twice', lambda x: x.at[0].set(x[1]).at[1].add(x[0]), [(3,)]),
        ('triangle', lambda x: jnp.zeros((2, 2)).at[jnp.tril_indices(2)].set(x), [(3,)]),
        ('diag', lambda x: jnp.zeros((2, 2)).at[jnp.diag_indices(2)].set(x), [(2,)]),
        ('symmetric', lambda x: jnp.zeros((2, 2)).at[jnp.triu_indices(2)].set(x) +
         jnp.zeros((2, 2)).at[jnp.triu_indices(2)].set(x).T, [(3,)]),
    ]


PAIRS = [('own', 'dense'), ('dense', 'own'), ('own', 'two'), ('const', 'own'), ('own', 'const'),
         ('dense', 'dense'), ('dup', 'part'), ('dense', 'const'), ('const', 'dense'),
         ('part', 'rev'), ('two', 'dense'), ('dense', 'part'), ('dup', 'const'), ('shared', 'own')]


def cases(tier, rng):
    out = []
    n = 4
    for name, f, shapes in ops():
        pairs = PAIRS if tier == 'thorough' else PAIRS[:5] + [PAIRS[5 + rng.randrange(9)]]
        for p in dict.fromkeys(pairs):
            t = 0 if set(p) <= {'dense', 'const'} else n
            thr = (t,) if tier == 'quick' else sorted({t, 1 if t else 0, 2 if t else 0})
            for t in thr:
                out.append(step(name, after(f), list(zip(shapes, p)), n, t))
    for name, f, shapes in one():
        kinds = ('dense', 'own', 'part', 'two') + (('dup', 'rev', 'shared') if tier == 'thorough' else ())
        for m in kinds:
            for t in (0,) if m == 'dense' else (n,) if tier == 'quick' else (n, 2, 1):
                out.append(step(name, after(f), [(shapes[0], m)], n, t))
    # heights of dense Jacobians that differ
    for ra, rb in ((2, 4), (4, 2), (1, 3)):
        for name, f, shapes in ops()[:8:2] + ops()[13:15]:
            out.append(state_case(f'{name} rows {ra},{rb}', after(f),
                                  [In(shapes[0], None, rows=ra), In(shapes[1], None, rows=rb)], 4, 0))
    return out
