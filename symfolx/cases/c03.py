"""C03: functions without any annotation, and functions of some axes (reductions)."""
import folx
from folx.api import FunctionFlags as F

from .c02 import ann
from .common import *


def mix(x):
    """R^k -> R^k, every output depends on several inputs."""
    f = x.ravel()
    return jnp.stack([opq('g', f[i], f[(i + 1) % f.size]) for i in range(f.size)]).reshape(x.shape)


def red(x):
    """All elements to one number."""
    f = x.ravel()
    return opq('r', *[f[i] for i in range(f.size)])


def last(x):
    return opq('l', *[x[..., i] for i in range(x.shape[-1])])


def last2(x, y):
    return opq('l', *[x[..., i] for i in range(x.shape[-1])], *[y[..., i] for i in range(y.shape[-1])])


def lasttwo(x):
    return opq('l', *[x[..., i, j] for i in range(x.shape[-2]) for j in range(x.shape[-1])])


def first(x):
    return opq('l', *[x[i] for i in range(x.shape[0])])


def first2(x, y):
    return opq('l', *[x[i] for i in range(x.shape[0])], *[y[i] for i in range(y.shape[0])])


def firsttwo(x):
    return opq('l', *[x[i, j] for i in range(x.shape[0]) for j in range(x.shape[1])])


def keep_first(x):
    """(k, ...) -> (..., k): the other axes are batch axes, which lead"""
    return jnp.stack([opq('p', x[0], x[1]), opq('q', x[1])], -1)


def keep_last(x):
    """(..., k) -> (..., k)"""
    return jnp.stack([opq('p', x[..., 0], x[..., 1]), opq('q', x[..., 1])], -1)


@jax.custom_jvp
def cj(x):
    return opq('c', x[0], x[1]) * x


@cj.defjvp
def _(p, t):
    (x,), (dx,) = p, t
    c, a, b = opq('c', x[0], x[1]), opq('c', x[0], x[1], alpha=(1, 0)), opq('c', x[0], x[1], alpha=(0, 1))
    return c * x, (a * dx[0] + b * dx[1]) * x + c * dx


@jax.custom_jvp
def cj_scaled(x, s):
    return jnp.sin(x) * s


@cj_scaled.defjvp
def _(p, t):
    (x, s), (dx, ds) = p, t
    return cj_scaled(x, s), jnp.cos(x) * s * dx + jnp.sin(x) * ds


def cases(tier, rng):
    out = []
    gen = dict(in_axes=None)
    kinds = ('dense', 'own', 'two', 'dup', 'part', 'shared')
    for m in kinds:
        sp = m != 'dense'
        for n in (1, 2, 4):
            if m in ('two', 'part', 'dup', 'dense', 'shared') or n == 4:
                out.append(ann('mix', mix, [((3,), m)], n, n if sp else 0, gen))
        out.append(ann('mix 2d', mix, [((2, 2), m)], 3, 3 if sp else 0, gen))
        for n in (2, 3, 4):
            for t in (sorted({n, 2, 1}) if sp else (0,)):
                out.append(ann('red', red, [((3,), m)], n, t, gen))
        out.append(ann('red flag', red, [((3,), m)], 3, 3 if sp else 0, dict(flags=F.REDUCTION)))
        out.append(ann('pair', lambda x, y: opq('p', x[0], y[1], x[1]) * y,
                       [((2,), m), ((2,), 'two')], 4, 4, gen))
        out.append(ann('pair d', lambda x, y: opq('p', x[0], y[1], x[1]) * y,
                       [((2,), m), ((2,), 'dense')], 4, 4, gen))
        out.append(ann('pair c', lambda x, y: opq('p', x[0], y[1], x[1]) * y,
                       [((2,), m), ((2,), 'const')], 4, 4 if sp else 0, gen))
        out.append(ann('pair c2', lambda x, y: opq('p', x[0], y[1], x[1]) * y,
                       [((2,), 'const'), ((2,), m)], 4, 4 if sp else 0, gen))
        out.append(ann('several outputs', lambda x: (red(x), mix(x), jnp.outer(x, x)),
                       [((2,), m)], 3, 3 if sp else 0, gen))
        out.append(ann('dictionary', lambda x: {'a': red(x), 'b': (x * x,)},
                       [((2,), m)], 3, 3 if sp else 0, gen))
        # linear in each argument, with a Hessian of several rows and columns
        for n in (1, 3):
            out.append(ann('bilinear', lambda x, y: jnp.stack([x[0] * y[0] + 2.0 * x[1] * y[0], x[0] * y[1]]),
                           [((2,), m), ((2,), 'two')], n, n, dict(flags=F.LINEAR_IN_ONE)))
            out.append(ann('bilinear d', lambda x, y: jnp.stack([x[0] * y[0] + 2.0 * x[1] * y[0], x[0] * y[1]]),
                           [((2,), m), ((2,), 'dense')], n, n, dict(flags=F.LINEAR_IN_ONE)))
        out.append(ann('bilinear c', lambda x, y: jnp.outer(x, y),
                       [((2,), m), ((3,), 'const')], 3, 3 if sp else 0, dict(flags=F.LINEAR_IN_ONE)))
        # only the last axes matter
        for ax in (-1, (-1,), 1):
            for t in ((4, 2) if sp else (0,)):
                out.append(ann(f'last ax={ax}', last, [((2, 2), m)], 4, t, dict(in_axes=ax)))
        out.append(ann('last 3d', last, [((2, 1, 2), m)], 4, 4 if sp else 0, dict(in_axes=-1)))
        out.append(ann('keep last', keep_last, [((2, 2), m)], 4, 4 if sp else 0, dict(in_axes=-1)))
        out.append(ann('keep last', keep_last, [((3, 2), m)], 4, 4 if sp else 0, dict(in_axes=-1)))
        out.append(ann('last two', lasttwo, [((2, 2, 2), m)], 4, 4 if sp else 0, dict(in_axes=(-2, -1))))
        out.append(ann('last of two', last2, [((2, 2), m), ((2, 2), 'two')], 4, 4, dict(in_axes=-1)))
        out.append(ann('last of two b', last2, [((2, 2), m), ((1, 2), 'part')], 4, 4, dict(in_axes=-1)))
        out.append(ann('last of two d', last2, [((2, 2), m), ((2, 2), 'dense')], 4, 4, dict(in_axes=-1)))
        out.append(ann('last of two c', last2, [((2, 2), m), ((2, 2), 'const')], 4, 4 if sp else 0, dict(in_axes=-1)))
        # of different ranks
        for sx, sy in (((2, 2, 2), (2, 2)), ((2, 2), (2, 1, 2)), ((2,), (2, 2)), ((2, 2, 2), (2,))):
            for k in ('two', 'dense', 'const'):
                out.append(ann('last of two ranks', last2, [(sx, m), (sy, k)], 4, 4 if sp or k == 'two' else 0,
                               dict(in_axes=-1)))
        # of three and four arguments, some of them constant
        three = lambda x, y, z: opq('t', x[0], y[1], z[0], x[1]) * y  # noqa: E731
        three_last = lambda x, y, z: opq('l', x[..., 0], y[..., 0], x[..., 1], z[..., 1], y[..., 1])  # noqa: E731
        four = lambda x, y, z, w: opq('f', x[0], y[0], z[1], w[0]) * z  # noqa: E731
        for ks in ((m, 'two', 'part'), ('own', m, 'dense'), ('const', m, 'two'), (m, 'const', 'part'), ('rev', 'two', m)):
            t = 0 if all(k in ('dense', 'const') for k in ks) else 4
            out.append(ann('three', three, [((2,), k) for k in ks], 4, t, gen))
            out.append(ann('last of three', three_last, [((1, 2), ks[0]), ((2, 2), ks[1]), ((2, 2), ks[2])], 4, t,
                           dict(in_axes=-1)))
        for ks in ((m, 'const', 'two', 'part'), ('const', 'own', m, 'const'), ('two', m, 'const', 'dense'), ('own', 'two', 'part', m)):
            t = 0 if all(k in ('dense', 'const') for k in ks) else 4
            out.append(ann('four', four, [((2,), k) for k in ks], 4, t, gen))
        # only the first axes matter
        for ax in (0, (0,)):
            for t in ((4, 2, 1) if sp else (0,)):
                out.append(ann(f'first ax={ax}', first, [((2, 2), m)], 4, t, dict(in_axes=ax)))
        out.append(ann('first long', first, [((2, 3), m)], 4, 4 if sp else 0, dict(in_axes=0)))
        out.append(ann('first 3d', first, [((2, 1, 3), m)], 4, 4 if sp else 0, dict(in_axes=0)))
        out.append(ann('first flag', first, [((2, 3), m)], 4, 4 if sp else 0, dict(in_axes=0, flags=F.REDUCTION)))
        out.append(ann('keep first', keep_first, [((2, 3), m)], 4, 4 if sp else 0, dict(in_axes=0)))
        out.append(ann('first two', firsttwo, [((2, 2, 2), m)], 4, 4 if sp else 0, dict(in_axes=(0, 1))))
        out.append(ann('first two flag', firsttwo, [((2, 1, 2), m)], 3, 3 if sp else 0,
                       dict(in_axes=(0, 1), flags=F.REDUCTION)))
        out.append(ann('first of two', first2, [((2, 2), m), ((2, 2), 'two')], 4, 4, dict(in_axes=0)))
        out.append(ann('first of two b', first2, [((2, 2), m), ((2, 1), 'part')], 4, 4, dict(in_axes=0)))
        out.append(ann('first of two d', first2, [((2, 2), m), ((2, 2), 'dense')], 4, 4, dict(in_axes=0)))
        out.append(ann('first of two c', first2, [((2, 2), m), ((2, 2), 'const')], 4, 4 if sp else 0, dict(in_axes=0)))
        out.append(ann('prod first', lambda x: jnp.prod(x, 0), [((2, 3), m)], 4, 4 if sp else 0, dict(in_axes=0)))
        # a function with its own derivative, through forward_laplacian
        out.append(step('custom_jvp', cj, [((2,), m)], 3, 3 if sp else 0))
        out.append(step('custom_jvp scaled', lambda x: cj_scaled(x, 2.0), [((2,), m)], 3, 3 if sp else 0))
        out.append(step('custom_jvp two args', lambda x, y: cj_scaled(x, y), [((2,), m), ((2,), 'own')], 3, 3))
        # primitives without a rule
        out.append(step('unregistered', lambda x: opq('g', x[0], x[1]) * x, [((2,), m)], 3, 3 if sp else 0))
        out.append(step('unregistered vector', lambda x: opq('g', x, x[::-1]), [((2,), m)], 3, 3 if sp else 0))
        out.append(step('clamp', lambda x: jnp.clip(x, -0.5, 0.5) ** 2, [((2,), m)], 3, 3 if sp else 0))
        out.append(step('cumprod', probe(jnp.cumprod), [((3,), m)], 3, 3 if sp else 0))
        out.append(step('sort', lambda x: jnp.sort(x) * jnp.arange(1.0, 4.0), [((3,), m)], 3, 3 if sp else 0))
        out.append(step('cummax', lambda x: jax.lax.cummax(x) ** 2, [((3,), m)], 3, 3 if sp else 0))
        out.append(step('logcumsumexp', lambda x: jax.lax.cumlogsumexp(x), [((2,), m)], 3, 3 if sp else 0))
        out.append(step('argsort', lambda x: (x * x)[jnp.argsort(x)], [((2,), m)], 3, 3 if sp else 0))
        out.append(step('top_k', lambda x: jax.lax.top_k(x, 2)[0] ** 2, [((3,), m)], 3, 3 if sp else 0))
        out.append(step('top_k indices', lambda x: (x * x)[jax.lax.top_k(x, 1)[1]], [((2,), m)], 3, 3 if sp else 0))
        out.append(step('sort pairs', lambda x: jax.lax.sort((x, x * x, np.arange(2)), num_keys=1)[1],
                        [((2,), m)], 3, 3 if sp else 0))
        out.append(step('while', lambda x: jax.lax.while_loop(lambda c: c[0] < 2, lambda c: (c[0] + 1, c[1] * x + 1.0),
                                                              (0, x))[1], [((2,), m)], 3, 3 if sp else 0))
        out.append(step('conv', lambda x: jnp.convolve(x * x, jnp.array([1.0, -2.0, 3.0]), 'same'),
                        [((3,), m)], 3, 3 if sp else 0))
        out.append(step('conv xx', lambda x: jnp.convolve(x, x), [((3,), m)], 3, 3 if sp else 0))
    if tier == 'thorough':
        for n in (3, 5, 6):
            for m in kinds:
                sp = m != 'dense'
                for t in ((n, 2) if sp else (0,)):
                    out.append(ann('mix big', mix, [((4,), m)], n, t, gen))
                    out.append(ann('red big', red, [((4,), m)], n, t, gen))
                    out.append(ann('last big', last, [((2, 3), m)], n, t, dict(in_axes=-1)))
                    out.append(ann('last of two big', last2, [((2, 2), m), ((2, 2), 'rev')], n, t, dict(in_axes=-1)))
    return out
