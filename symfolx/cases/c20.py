"""C20: maxima, minima, products and other reductions (away from ties)."""
from .common import *


def ops():
    return [
        ('max', lambda x: x.max(), [(3,)]),
        ('min', lambda x: x.min(), [(3,)]),
        ('max axis 0', lambda x: x.max(0), [(2, 2)]),
        ('min axis -1', lambda x: x.min(-1), [(2, 2)]),
        ('max keepdims', lambda x: x.max(1, keepdims=True), [(2, 2)]),
        ('max axes', lambda x: x.max((0, 2)), [(2, 1, 2)]),
        ('maximum', lambda x, y: jnp.maximum(x, y), [(2,), (2,)]),
        ('minimum broadcast', lambda x, y: jnp.minimum(x, y), [(2,), ()]),
        ('relu', lambda x: jax.nn.relu(x), [(2,)]),
        ('clip', lambda x: jnp.clip(x, -1.0, 0.5), [(2,)]),
        ('prod', lambda x: x.prod(), [(3,)]),
        ('prod axis 0', lambda x: x.prod(0), [(2, 2)]),
        ('prod axis -1', lambda x: x.prod(-1), [(2, 3)]),
        ('prod keepdims', lambda x: x.prod(0, keepdims=True), [(2, 2)]),
        ('prod one', lambda x: x.prod(1), [(3, 1)]),
        ('prod axes', lambda x: x.prod((0, 1)), [(2, 1, 2)]),
        ('cumprod', lambda x: jnp.cumprod(x), [(3,)]),
        ('cummax', lambda x: jax.lax.cummax(x), [(3,)]),
        ('cummin reverse', lambda x: jax.lax.cummin(x, 0, reverse=True), [(3,)]),
        ('cumlogsumexp', lambda x: jax.lax.cumlogsumexp(x), [(2,)]),
        ('logsumexp', lambda x: jax.nn.logsumexp(x), [(3,)]),
        ('logsumexp axis', lambda x: jax.nn.logsumexp(x, 0), [(2, 2)]),
        ('softmax', lambda x: jax.nn.softmax(x), [(2,)]),
        ('log_softmax', lambda x: jax.nn.log_softmax(x), [(2,)]),
        ('norm', lambda x: jnp.linalg.norm(x), [(3,)]),
        ('norm axis', lambda x: jnp.linalg.norm(x, axis=-1), [(2, 2)]),
        ('var', lambda x: x.var(), [(3,)]),
        ('std', lambda x: x.std(0), [(2, 2)]),
        ('mean', lambda x: x.mean((0, 1)), [(2, 2)]),
        ('sort', lambda x: jnp.sort(x), [(3,)]),
        ('median', lambda x: jnp.median(x), [(3,)]),
        ('argmax pick', lambda x: x[jnp.argmax(x)], [(3,)]),
        ('ptp', lambda x: x.max() - x.min(), [(3,)]),
        ('amax of products', lambda x: (x * x[::-1]).max(), [(3,)]),
        ('average', lambda x: jnp.average(x, weights=np.array([1.0, 2.0, 3.0])), [(3,)]),
        ('top_k', lambda x: jax.lax.top_k(x, 2)[0], [(3,)]),
        ('top_k rows', lambda x: jax.lax.top_k(x, 1)[0], [(2, 2)]),
        ('cumsum first axis', lambda x: jnp.cumsum(x, 0), [(2, 2)]),
        ('cumsum last axis', lambda x: jnp.cumsum(x, -1), [(2, 2)]),
        ('cumsum reverse', lambda x: jax.lax.cumsum(x, 0, reverse=True), [(2, 2)]),
        ('cumsum flat', lambda x: jnp.cumsum(x), [(2, 2)]),
        ('cumprod first axis', lambda x: jnp.cumprod(x, 0), [(2, 2)]),
        ('cumprod last axis', lambda x: jnp.cumprod(x, -1), [(1, 3)]),
        ('cumprod reverse', lambda x: jax.lax.cumprod(x, 0, reverse=True), [(3, 1)]),
        ('cummax first axis', lambda x: jax.lax.cummax(x, 0), [(2, 2)]),
        ('cummin last axis', lambda x: jax.lax.cummin(x, 1), [(2, 2)]),
        ('cumlogsumexp rows', lambda x: jax.lax.cumlogsumexp(x, 1, reverse=True), [(2, 2)]),
        ('sort first axis', lambda x: jnp.sort(x, 0), [(2, 2)]),
        ('descending', lambda x: jnp.sort(x, descending=True), [(3,)]),
        ('ordered by another', lambda x: x[jnp.argsort(x[::-1])], [(3,)]),
        ('argmin of rows', lambda x: jnp.take_along_axis(x, jnp.argmin(x, 1, keepdims=True), 1), [(2, 2)]),
        ('max above', lambda x: x.max(initial=0.25), [(2,)]),
        ('max of some', lambda x: x.max(where=np.array([True, False, True]), initial=-5.0), [(3,)]),
        ('prod of some', lambda x: x.prod(where=np.array([True, False, True])), [(3,)]),
        ('logaddexp', lambda x, y: jnp.logaddexp(x, y), [(2,), ()]),
        ('weighted logsumexp', lambda x: jax.nn.logsumexp(x, b=np.array([1.0, 2.0])), [(2,)]),
        ('softmax first axis', lambda x: jax.nn.softmax(x, 0), [(2, 1)]),
        ('diff', lambda x: jnp.diff(x, 2), [(4,)]),
        ('variance of a sample', lambda x: x.var(1, ddof=1), [(1, 3)]),
        ('prod all', lambda x: x.prod((0, 1)), [(2, 2)]),
        ('max all but', lambda x: x.max((0, 2), keepdims=True), [(2, 2, 1)]),
    ]


def cases(tier, rng):
    out = []
    for name, f, shapes in ops():
        kinds = ('dense', 'own', 'part', 'two') + (('dup', 'rev', 'shared') if tier == 'thorough' else ())
        if len(shapes) == 2:
            for p in [('dense', 'dense'), ('own', 'two'), ('part', 'dense'), ('dup', 'const'), ('const', 'two')]:
                t = 0 if set(p) <= {'dense', 'const'} else 4
                out.append(step(name, after(f), list(zip(shapes, p)), 4, t))
            continue
        n = 4
        dom = {'lo': 0.2} if name.startswith(('norm', 'std')) else None
        for m in kinds:
            for t in (0,) if m == 'dense' else (n, 1) if m in ('own', 'part') else (n,):
                out.append(step(name, after(f), [(shapes[0], m)], n, t, dom))
    return out
