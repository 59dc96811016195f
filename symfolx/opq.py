"""Opaque smooth functions: a JAX primitive whose values and derivatives are
uninterpreted functions for the solver, so that what is proved with them holds
for every smooth function.

`opq('g', u1, ..., uk)` is the elementwise application of an arbitrary smooth
g: R^k -> R.  Its jvp yields the primitive again with a higher derivative
order, so JAX can differentiate it to any order.  For replays it has a concrete
meaning: a fixed generic function of the same arity.
"""
from __future__ import annotations

import hashlib

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
from jax.interpreters import ad, batching, mlir

from . import alg, interp
from . import expr as X

opq_p = core.Primitive('opq')


def opq(name, *args, alpha=None):
    args = jnp.broadcast_arrays(*map(jnp.asarray, args))
    alpha = alpha or (0,) * len(args)
    return opq_p.bind(*args, name=name, alpha=tuple(alpha))


def coefficients(name, k):
    """Directions, phases and amplitudes of the concrete stand-in for `name`."""
    seed = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=4).digest(), 'big')
    rng = np.random.default_rng(seed)
    m = 3
    return rng.uniform(0.4, 1.3, (m, k)), rng.uniform(0, 6, m), rng.uniform(0.5, 1.5, m)


def numeric(args, name, alpha, xp=jnp):
    w, ph, am = coefficients(name, len(args))
    n = sum(alpha)
    out = 0.0
    for j in range(len(am)):
        s = ph[j] + n * np.pi / 2
        c = am[j]
        for i, a in enumerate(args):
            s = s + w[j, i] * a
            c = c * w[j, i] ** alpha[i]
        out = out + c * xp.sin(s)
    return out


def _impl(*args, name, alpha):
    return numeric(args, name, alpha).astype(args[0].dtype)


opq_p.def_impl(lambda *a, **k: jax.jit(lambda *b: _impl(*b, **k))(*a))
opq_p.def_abstract_eval(lambda *a, **k: core.ShapedArray(a[0].shape, a[0].dtype))
mlir.register_lowering(opq_p, mlir.lower_fun(_impl, multiple_results=False))


def _bump(alpha, i):
    return tuple(a + (j == i) for j, a in enumerate(alpha))


def _jvp(primals, tangents, *, name, alpha):
    out = opq_p.bind(*primals, name=name, alpha=alpha)
    tan = None
    for i, t in enumerate(tangents):
        if type(t) is ad.Zero:
            continue
        term = opq_p.bind(*primals, name=name, alpha=_bump(alpha, i)) * t
        tan = term if tan is None else tan + term
    if tan is None:
        tan = ad.Zero(core.get_aval(out).to_tangent_aval())
    return out, tan


ad.primitive_jvps[opq_p] = _jvp


def _batch(args, dims, **params):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    args = [
        batching.bdim_at_front(a, d, size) if d is not batching.not_mapped
        else jnp.broadcast_to(a, (size, *a.shape))
        for a, d in zip(args, dims)
    ]
    return opq_p.bind(*args, **params), 0


batching.primitive_batchers[opq_p] = _batch


def _sym(name, alpha, *args):
    vals = [alg.value(a) for a in args]

    def at(al):
        return X.atom(('opq', name, al), tuple(vals))

    v = at(alpha)
    if not any(isinstance(a, alg.Jet) for a in args):
        return v
    return alg.apply_smooth(
        args,
        v,
        lambda i: at(_bump(alpha, i)),
        lambda i, j: at(_bump(_bump(alpha, i), j)),
    )


@interp.rule('opq')
def _(eqn, *args):
    p = eqn.params
    return interp.elementwise(lambda *a: _sym(p['name'], p['alpha'], *a))(eqn, *args)


X.NUM_ATOMS['opq'] = lambda fn, *u: float(numeric(u, fn[1], fn[2], np))
