"""C04: linear operations and operations that only move elements."""
from .common import *

I = np.array


def ops(n):
    """(name, function, list of argument shapes)"""
    M = np.arange(1.0, 7.0).reshape(2, 3)
    dyn = jax.lax.dynamic_slice
    return [
        ('transpose', lambda x: x.T, [(2, 3)]),
        ('transpose3', lambda x: x.transpose(2, 0, 1), [(2, 1, 3)]),
        ('swapaxes', lambda x: jnp.swapaxes(x, -1, 0), [(2, 3, 1)]),
        ('reshape', lambda x: x.reshape(3, 2), [(2, 3)]),
        ('ravel', lambda x: x.ravel(), [(2, 2)]),
        ('broadcast', lambda x: jnp.broadcast_to(x, (2, 3)), [(3,)]),
        ('broadcast column', lambda x: jnp.broadcast_to(x[:, None], (2, 3)), [(2,)]),
        ('broadcast scalar', lambda x: jnp.broadcast_to(x, (2, 2)), [()]),
        ('expand', lambda x: x[None, :, None], [(3,)]),
        ('squeeze', lambda x: x.squeeze(1), [(2, 1)]),
        ('slice', lambda x: x[1:3], [(4,)]),
        ('strided slice', lambda x: x[::2], [(5,)]),
        ('reverse slice', lambda x: x[::-1], [(3,)]),
        ('negative index', lambda x: x[-1], [(2, 3)]),
        ('column', lambda x: x[:, 1], [(2, 3)]),
        ('rev', lambda x: jax.lax.rev(x, (1,)), [(2, 3)]),
        ('flip', lambda x: jnp.flip(x), [(2, 2)]),
        ('roll', lambda x: jnp.roll(x, 1), [(3,)]),
        ('tile', lambda x: jnp.tile(x, 2), [(2,)]),
        ('repeat', lambda x: jnp.repeat(x, 2, 0), [(2,)]),
        ('concatenate', lambda x, y: jnp.concatenate([x, y]), [(2,), (1,)]),
        ('concatenate axis', lambda x, y: jnp.concatenate([y, x], -1), [(2, 1), (2, 2)]),
        ('concatenate const', lambda x: jnp.concatenate([jnp.ones(1), x, jnp.zeros(2)]), [(2,)]),
        ('concatenate twice', lambda x: jnp.concatenate([x, x[::-1]]), [(2,)]),
        ('stack', lambda x, y: jnp.stack([x, y, x]), [(2,), (2,)]),
        ('stack const', lambda x: jnp.stack([x, jnp.ones(2)], 1), [(2,)]),
        ('split', lambda x: jnp.split(x, [1])[1], [(3,)]),
        ('pad', lambda x: jnp.pad(x, (1, 2)), [(2,)]),
        ('pad value', lambda x: jnp.pad(x, (1, 0), constant_values=2.0), [(2,)]),
        ('pad negative', lambda x: jax.lax.pad(x, 0.0, [(-1, 1, 0)]), [(3,)]),
        ('pad interior', lambda x: jax.lax.pad(x, 0.0, [(0, 0, 1)]), [(2,)]),
        ('where', lambda x, y: jnp.where(I([True, False]), x, y), [(2,), (2,)]),
        ('where const', lambda x: jnp.where(I([True, False]), x, 3.0), [(2,)]),
        ('where const first', lambda x: jnp.where(I([True, False]), 0.0, x), [(2,)]),
        ('where symbolic', lambda x, y: jnp.where(x > y, x, 2.0 * y), [(2,), (2,)]),
        ('select by scalar', lambda x, y: jax.lax.select_n(True, x, y), [(2,), (2,)]),
        ('select three', lambda x, y: jax.lax.select_n(I([2, 0], np.int32), x, y, x + 1.0), [(2,), (2,)]),
        ('gather', lambda x: x[I([2, 0, 0])], [(3,)]),
        ('gather rows', lambda x: x[I([1, 0])], [(2, 2)]),
        ('gather pairs', lambda x: x[I([1, 0]), I([0, 2])], [(2, 3)]),
        ('gather last', lambda x: x[:, I([2, 1])], [(2, 3)]),
        ('gather negative', lambda x: x[I([-1, -3])], [(3,)]),
        ('gather mask', lambda x: x[I([True, False, True])], [(3,)]),
        ('gather fill', lambda x: x.at[I([1, 7])].get(mode='fill', fill_value=0.0), [(3,)]),
        ('gather clip', lambda x: x.at[I([1, 7])].get(mode='clip'), [(3,)]),
        ('take', lambda x: jnp.take(x, I([[0, 2], [1, 1]]), axis=-1), [(3,)]),
        ('take_along_axis', lambda x: jnp.take_along_axis(x, I([[1], [0]]), axis=1), [(2, 2)]),
        ('diagonal', lambda x: jnp.diagonal(x), [(2, 2)]),
        ('diag', lambda x: jnp.diag(x), [(2,)]),
        ('trace', lambda x: jnp.trace(x), [(2, 2)]),
        ('triu', lambda x: x[jnp.triu_indices(2, 1)], [(2, 2)]),
        ('tril matrix', lambda x: jnp.tril(x), [(2, 2)]),
        ('dynamic_slice', lambda x: dyn(x, (1,), (2,)), [(4,)]),
        ('dynamic_slice 2d', lambda x: dyn(x, (0, 1), (2, 1)), [(2, 3)]),
        ('dynamic_slice clamped', lambda x: dyn(x, (3,), (2,)), [(4,)]),
        ('dynamic index', lambda x: x[jnp.argmax(x)], [(3,)]),
        ('dynamic slice of data', lambda x: dyn(x, (jnp.argmin(x),), (2,)), [(3,)]),
        ('sorted', lambda x: x[jnp.argsort(x)], [(2,)]),
        ('dynamic_update', lambda x, y: jax.lax.dynamic_update_slice(x, y, (1,)), [(3,), (2,)]),
        ('dynamic_update const', lambda x: jax.lax.dynamic_update_slice(jnp.ones(3), x, (1,)), [(2,)]),
        ('cumsum', lambda x: jnp.cumsum(x), [(3,)]),
        ('cumsum axis', lambda x: jnp.cumsum(x, 0), [(2, 2)]),
        ('cumsum reverse', lambda x: jax.lax.cumsum(x, 1, reverse=True), [(2, 2)]),
        ('sum', lambda x: x.sum(), [(2, 2)]),
        ('sum axis 0', lambda x: x.sum(0), [(2, 3)]),
        ('sum axis -1', lambda x: x.sum(-1), [(2, 3)]),
        ('sum axes', lambda x: x.sum((0, 2)), [(2, 3, 2)]),
        ('sum middle', lambda x: x.sum(1), [(2, 2, 2)]),
        ('sum keepdims', lambda x: x.sum(0, keepdims=True), [(2, 2)]),
        ('mean', lambda x: x.mean(0), [(3, 2)]),
        ('negate', lambda x: -x, [(3,)]),
        ('add broadcast', lambda x, y: x[:, None] + y, [(2,), (3,)]),
        ('sub broadcast', lambda x, y: x - y, [(2, 1), ()]),
        ('affine', lambda x: M @ x + 1.0, [(3,)]),
        ('affine right', lambda x: x @ M, [(2,)]),
        ('convert', lambda x: x.astype(jnp.float32).astype(jnp.float64), [(2,)]),
        ('difference', lambda x: jnp.diff(x), [(3,)]),
        ('pairwise', lambda x: (x[:, None] - x[None])[I([0, 1]), I([1, 0])], [(2, 2)]),
        ('moveaxis', lambda x: jnp.moveaxis(x, 0, -1), [(2, 1, 2)]),
        ('rot90', lambda x: jnp.rot90(x), [(2, 2)]),
        ('kron', lambda x: jnp.kron(x, I([1.0, -2.0])), [(2,)]),
        ('einsum const', lambda x: jnp.einsum('ij,j->i', M, x), [(3,)]),
        ('mul const', lambda x: x * I([1.0, 0.0, -2.0]), [(3,)]),
        ('div const', lambda x: x / 4.0, [(3,)]),
        ('real part', lambda x: jnp.real(x), [(2,)]),
        ('copy', lambda x: jnp.array(x), [(2,)]),
        ('size one', lambda x: x.reshape(1, 1).sum(0), [(1,)]),
    ]


CHEAP = ('dense', 'part', 'two')
MIXED = [('two', 'part'), ('dense', 'two'), ('own', 'dense'), ('const', 'part'), ('dup', 'const'),
         ('own', 'dup'), ('part', 'dense'), ('dense', 'dense'), ('shared', 'rev')]


def cases(tier, rng):
    out = []
    n = 5
    for name, f, shapes in ops(n):
        if len(shapes) == 1:
            kinds = CHEAP + (('dup', 'shared', 'own', 'rev') if tier == 'thorough' else ())
            for m in kinds:
                thrs = (0,) if m == 'dense' else (5,) if tier == 'quick' else (5, 1)
                for t in thrs:
                    out.append(step(name, probe(f), [(shapes[0], m)], n, t))
        else:
            for pair in MIXED if tier == 'thorough' else MIXED[:5]:
                t = 0 if set(pair) <= {'dense', 'const'} else 5
                out.append(step(name, probe(f), list(zip(shapes, pair)), n, t))
    # thresholds around the size of the result
    for t in (1, 2, 3, 4):
        for m in ('own', 'two', 'part', 'dup'):
            out.append(step('sum', probe(lambda x: x.sum()), [((3,), m)], 4, t))
            out.append(step('sum rows', probe(lambda x: x.sum(0)), [((3, 2), m)], 6, t))
            out.append(step('cumsum', probe(lambda x: jnp.cumsum(x)), [((3,), m)], 4, t))
            out.append(step('add', probe(lambda x, y: x + y), [((3,), m), ((3,), 'rev')], 4, t))
    return out
