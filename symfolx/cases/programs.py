"""Whole programs, as users write them, and generated ones."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from ..opq import opq


def mlp(x):
    w = np.array([[0.5, -1.0, 2.0], [1.5, 0.25, -0.5]])
    h = jnp.tanh(x @ w + np.array([0.1, 0.2, -0.3]))
    return h @ np.array([1.0, -2.0, 0.5])


def mlp_rows(x):
    w = np.array([[0.5, -1.0], [1.5, 0.25]])
    h = jnp.tanh(x @ w)
    return (jnp.sin(h) @ np.array([1.0, -2.0])).sum()


def pairs(x):
    """Distances of particles, as in a wave function."""
    d = x[:, None] - x[None]
    iu, ju = np.triu_indices(x.shape[0], 1)
    r = jnp.sqrt((d[iu, ju] ** 2).sum(-1))
    return jnp.exp(-r).sum() + r.sum()


def chain(x):
    d = x[:, None] - x[None]
    iu, ju = np.triu_indices(x.shape[0], 1)
    r = jnp.sqrt((d[iu, ju] ** 2).sum(-1) + 1.0)
    return r.sum() + opq('c', r[0], r[1])


def pair_messages(x):
    d = x[:, None] - x[None]
    h = opq('m', d[..., 0], d[..., 1])
    return jnp.tanh(h.sum(1)).sum()


def nuclei(x):
    nuc = np.array([[0.0, 0.5], [1.0, -0.5]])
    d = x[:, None] - nuc
    r = jnp.linalg.norm(d, axis=-1, keepdims=True)
    e = jnp.concatenate([d, r], axis=-1)
    return jnp.log(jnp.sum(jnp.exp(-e), axis=(-1, -2))).sum()


def slater(x):
    phi = jnp.stack([jnp.exp(-x), opq('o', x)], axis=-1)
    s, l = jnp.linalg.slogdet(phi)
    return l


def two_slaters(x):
    a = jnp.stack([x, opq('o', x)], axis=-1)
    b = jnp.stack([jnp.ones_like(x), opq('p', x)], axis=-1)
    return jnp.log(jnp.linalg.det(a) ** 2 + jnp.linalg.det(b) ** 2)


def attention(x):
    k = x * np.array([1.0, -0.5])
    a = jax.nn.softmax(x @ k.T, axis=-1)
    return (a @ x).sum(0)


def layer_norm(x):
    m = x.mean(-1, keepdims=True)
    v = ((x - m) ** 2).mean(-1, keepdims=True)
    return (x - m) / jnp.sqrt(v + 1.0)


def softmax(x):
    return jax.nn.softmax(x)


def logsumexp(x):
    return jax.scipy.special.logsumexp(x, axis=-1)


def jastrow(x):
    r = x[:-1] * x[1:]
    return jnp.log(jnp.cosh(r)).sum() / (1.0 + (x**2).sum())


def polynomial(x):
    return x[0] * x[1] ** 2 - 3.0 * x[2] * x[0] + x[2] ** 3


def einsum(x):
    return jnp.einsum('ij,jk,ki->', x, x * x, x)


def bilinear(x):
    return jnp.einsum('i,ij,j->', x, np.array([[1.0, 2.0, 0.0], [0.5, 0.0, -1.0], [0.0, 3.0, 1.0]]), jnp.sin(x))


def shuffles(x):
    y = jnp.concatenate([x[::-1], x**2])
    y = jnp.roll(y, 1).reshape(2, -1).T
    a, b = jnp.split(y, 2, axis=1)
    return (a * b).squeeze() + jnp.cumsum(y[:, 0])


def gathers(x):
    i = np.array([2, 0, 0, 1])
    y = (x * x)[i] * x[i[::-1]]
    return jax.ops.segment_sum(y, np.array([0, 1, 1, 0]), 3)


def scatters(x):
    z = jnp.zeros(4).at[np.array([0, 2, 3])].set(x)
    z = z.at[1].add(x[0] * x[1])
    return opq('g', z) * z[::-1]


def dynamic(x):
    y = jax.lax.dynamic_update_slice(x * x, x[:1], (1,))
    return jnp.sin(jax.lax.dynamic_slice(y, (1,), (2,)) * x[:2])


def residual(x):
    for _ in range(2):
        x = x + jnp.sin(x @ np.array([[0.0, 1.0], [-1.0, 0.5]]))
    return x


def disconnected(x):
    a, b = x[:2], x[2:]
    return opq('a', a).sum() * 2.0 + opq('b', b).sum(), jnp.outer(opq('a', a), opq('b', b))


def nested_jit(x):
    f = jax.jit(lambda y, z: jnp.exp(y) * z)
    return f(x, f(x[::-1], x)).sum()


def custom(x):
    @jax.custom_jvp
    def soft(x):
        return jnp.log1p(jnp.exp(x))

    @soft.defjvp
    def _(p, t):
        return soft(p[0]), jax.nn.sigmoid(p[0]) * t[0]

    return soft(x).prod()


def recurrent(x):
    def body(h, w):
        h = jnp.tanh(h * w + x)
        return h, None

    return jax.lax.scan(body, x * 0.5, np.array([0.5, -1.0]))[0].sum()


def outer_product(x):
    return jnp.outer(x, jnp.cos(x))


def broadcasts(x):
    return x[:, None] * (x + 1.0) - x.sum() / (1.0 + x[None, :, None] ** 2)


def norms(x):
    return jnp.linalg.norm(x) + jnp.linalg.norm(x.reshape(2, -1), axis=0).prod()


def backflow(x):
    y = x + opq('b', x[::-1])[:, None] * np.ones(1)
    return (y * y).sum(1)


def gelu(x):
    return jax.nn.gelu(x).sum() + jax.nn.silu(x) @ x


def mixed_constants(x):
    c = jnp.sin(np.arange(3.0))
    return (c * x + jnp.flip(c)) / (2.0 + jnp.cos(x)) ** 2


def var_std(x):
    return x.var() + jnp.sqrt(x.var(0) + 1.0)


def where(x):
    return jnp.where(np.array([True, False, True]), x**3, jnp.exp(x)).sum()


def tril(x):
    return (jnp.tril(jnp.outer(x, x)) @ x) + jnp.trace(jnp.outer(x, x**2))


def big_sum(x):
    return jnp.sum(x**2) ** 2


def ident(x):
    return x


def constant_out(x):
    return jnp.ones(2), x.sum()


# name, function, input shapes, domain
PROGRAMS = [
    (mlp, [(2,)], {}),
    (mlp_rows, [(2, 2)], {}),
    (pairs, [(2, 2)], {}),
    (pairs, [(3, 2)], {}),
    (chain, [(3, 1)], {}),
    (pair_messages, [(2, 2)], {}),
    (nuclei, [(1, 2)], {}),
    (nuclei, [(2, 2)], {}),
    (slater, [(2,)], {}),
    (two_slaters, [(2,)], {}),
    (attention, [(2, 2)], {}),
    (layer_norm, [(2, 2)], {}),
    (softmax, [(3,)], {}),
    (logsumexp, [(3,)], {}),
    (jastrow, [(3,)], {}),
    (polynomial, [(3,)], {}),
    (einsum, [(2, 2)], {}),
    (bilinear, [(3,)], {}),
    (shuffles, [(3,)], {}),
    (gathers, [(3,)], {}),
    (scatters, [(3,)], {}),
    (dynamic, [(3,)], {}),
    (residual, [(2, 2)], {}),
    (disconnected, [(4,)], {}),
    (nested_jit, [(3,)], {}),
    (custom, [(2,)], {}),
    (recurrent, [(2,)], {}),
    (outer_product, [(3,)], {}),
    (broadcasts, [(3,)], {}),
    (norms, [(4,)], {'pos': True}),
    (backflow, [(3, 1)], {}),
    (gelu, [(2,)], {}),
    (mixed_constants, [(3,)], {}),
    (var_std, [(3,)], {}),
    (where, [(3,)], {}),
    (tril, [(3,)], {}),
    (big_sum, [(5,)], {}),
    (ident, [(2, 1)], {}),
    (constant_out, [(3,)], {}),
]


def thresholds(n, tier):
    ts = [0, 1, n // 2, n, 1000, 0.6]
    if tier == 'thorough':
        ts += [2, 3, n - 1, n + 1, 0.1, 0.3, 0.99, 1.0, 2.5]
    return [t for t in dict.fromkeys(ts) if t >= 0]


# ------------------------------------------------------------------ generated


UNARY = [
    ('sin', jnp.sin), ('tanh', jnp.tanh), ('square', jnp.square),
    ('cube', lambda x: x**3), ('affine', lambda x: 2.0 * x - 1.0), ('neg', lambda x: -x),
    ('recip', lambda x: 1.0 / (2.0 + x * x)), ('exp', lambda x: jnp.exp(-x * x)),
    ('opq', lambda x: opq('g', x)), ('opq2', lambda x: opq('h', x, x)),
]
SHAPES = [
    ('flip', lambda x: jnp.flip(x, 0)), ('roll', lambda x: jnp.roll(x, 1, 0)),
    ('cumsum', lambda x: jnp.cumsum(x, 0)), ('T', lambda x: x.T),
    ('ravel', lambda x: x.ravel()), ('row', lambda x: x[None]), ('col', lambda x: x[..., None]),
    ('mean', lambda x: x.mean(0, keepdims=True)), ('sum', lambda x: x.sum(-1)),
    ('tail', lambda x: x[-2:]), ('dup', lambda x: jnp.concatenate([x, x], 0)),
    ('pick', lambda x: x[np.array([0, -1])]), ('sum0', lambda x: x.sum(0)),
    ('prod', lambda x: x.prod(-1)), ('tile', lambda x: jnp.stack([x, x * x], -1)),
    ('pad', lambda x: jnp.pad(x, [(1, 0)] + [(0, 0)] * (x.ndim - 1))),
    ('diag', lambda x: jnp.diagonal(x, axis1=0, axis2=1) if x.ndim == 2 else x),
    ('where', lambda x: jnp.where(np.arange(x.size).reshape(x.shape) % 2 == 0, x, 0.5)),
]
BINARY = [
    ('+', jnp.add), ('-', jnp.subtract), ('*', jnp.multiply),
    ('/', lambda a, b: a / (2.0 + b * b)), ('opq', lambda a, b: opq('k', a, b)),
    ('matmul', lambda a, b: jnp.matmul(a, b)), ('outer', lambda a, b: jnp.outer(a, b)),
    ('dot', lambda a, b: jnp.vdot(a, b)), ('tdot', lambda a, b: jnp.tensordot(a, b, 1)),
    ('cat', lambda a, b: jnp.concatenate([a.ravel(), b.ravel()])),
    ('batchdot', lambda a, b: jnp.einsum('...i,...i->...', a, b)),
    ('const', lambda a, b: a * np.arange(1.0, 1.0 + a.size).reshape(a.shape)),
]


def generate(rng, shape, steps):
    """A random program over the named pieces; returns (description, function)."""
    trees = [('x', lambda x: x)]
    shapes = [jax.ShapeDtypeStruct(shape, np.float64)]
    inp = shapes[0]
    guard = 0
    while len(trees) <= steps and guard < 400:
        guard += 1
        kind = rng.choice('uussb' if len(trees) > 1 else 'us')
        i = len(trees) - 1 if rng.random() < 0.6 else rng.randrange(len(trees))
        if kind == 'b':
            j = rng.randrange(len(trees))
            nm, f = rng.choice(BINARY)
            (da, fa), (db, fb) = trees[i], trees[j]
            d, g = f'{nm}({da},{db})', (lambda x, f=f, fa=fa, fb=fb: f(fa(x), fb(x)))
        else:
            nm, f = rng.choice(UNARY if kind == 'u' else SHAPES)
            da, fa = trees[i]
            d, g = f'{nm}({da})', (lambda x, f=f, fa=fa: f(fa(x)))
        if d.count('(') > steps + 2 or len(d) > 90 or d.count('opq') > 2:
            continue
        try:
            s = jax.eval_shape(g, inp)
        except (TypeError, ValueError, IndexError):
            continue
        if s.size > 16 or s.size == 0 or d in [t[0] for t in trees]:
            continue
        trees.append((d, g))
        shapes.append(s)
    return trees[-1]
