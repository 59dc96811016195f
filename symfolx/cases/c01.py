"""C01: elementwise primitives with a registered rule."""
from .common import *

POS = dict(pos=True)
UNIT = dict(lo=-0.99, hi=0.99)
UNARY = {
    'neg': (jax.lax.neg, {}),
    'sqrt': (jnp.sqrt, POS),
    'rsqrt': (jax.lax.rsqrt, POS),
    'log': (jnp.log, POS),
    'log1p': (jnp.log1p, dict(lo=-0.99)),
    'exp': (jnp.exp, {}),
    'expm1': (jnp.expm1, {}),
    'tanh': (jnp.tanh, {}),
    'logistic': (jax.lax.logistic, {}),
    'acos': (jax.lax.acos, UNIT),
    'asin': (jax.lax.asin, UNIT),
    'atan': (jax.lax.atan, {}),
    'cos': (jnp.cos, {}),
    'sin': (jnp.sin, {}),
    'tan': (jax.lax.tan, UNIT),
    'abs': (jnp.abs, {}),
    'square': (jnp.square, {}),
    'cube': (lambda x: x**3, {}),
    'pow4': (lambda x: jax.lax.integer_pow(x, 4), {}),
    'inverse': (lambda x: jax.lax.integer_pow(x, -1), POS),
    'pow-2': (lambda x: x**-2, POS),
    'pow1': (lambda x: jax.lax.integer_pow(x, 1), {}),
    'pow0': (lambda x: jax.lax.integer_pow(x, 0), {}),
    'cbrt': (jax.lax.cbrt, POS),
    'erf': (jax.lax.erf, {}),
    'sinh': (jnp.sinh, {}),
    'cosh': (jnp.cosh, {}),
    'asinh': (jax.lax.asinh, {}),
    'sigmoid': (jax.nn.sigmoid, {}),
    'softplus': (jax.nn.softplus, {}),
    'silu': (jax.nn.silu, {}),
    'relu': (jax.nn.relu, {}),
    'gelu': (jax.nn.gelu, {}),
    'elu': (jax.nn.elu, {}),
    'log_sigmoid': (jax.nn.log_sigmoid, {}),
    'xlogx': (lambda x: jax.scipy.special.xlogy(x, x), POS),
}
BINARY = {
    'add': (jax.lax.add, {}),
    'sub': (jax.lax.sub, {}),
    'mul': (jax.lax.mul, {}),
    'div': (jax.lax.div, POS),
    'pow': (jax.lax.pow, POS),
    'atan2': (jax.lax.atan2, POS),
    'max': (jax.lax.max, {}),
    'min': (jax.lax.min, {}),
    'logaddexp': (jnp.logaddexp, {}),
}
PAIRS = [
    ('dense', 'dense'),
    ('own', 'own'),
    ('own', 'rev'),
    ('two', 'part'),
    ('dup', 'own'),
    ('shared', 'part'),
    ('dense', 'two'),
    ('part', 'dense'),
    ('const', 'two'),
    ('two', 'const'),
    ('const', 'dense'),
    ('dense', 'const'),
]


def cases(tier, rng):
    out = []
    big = tier == 'thorough'
    for name, (f, dom) in UNARY.items():
        for m in ('dense', 'part', 'dup') + (('own', 'two', 'shared') if big else ()):
            out.append(step(name, probe(f), [((2,), m)], 3, 0 if m == 'dense' else 3, dom))
    for name, (f, dom) in BINARY.items():
        for a, b in PAIRS:
            thr = 0 if {a, b} <= {'dense', 'const'} else 4
            out.append(step(name, probe(f), [((2,), a), ((2,), b)], 4, thr, dom))
            if big:
                out.append(step(name, probe(f), [((3,), a), ((3,), b)], 4, 2 if thr else 0, dom))
        # the same variable twice, and scalars
        out.append(step(name + ' xx', probe(lambda x, f=f: f(x, x + 1.0)), [((2,), 'two')], 3, 3, dom))
        out.append(step(name + ' scalar', probe(f), [((), 'own'), ((), 'two')], 3, 3, dom))
        out.append(step(name + ' 2d', probe(f), [((2, 2), 'part'), ((2, 2), 'rev')], 4, 4, dom))
        # a large Jacobian compared to the number of arguments, and a small one
        out.append(step(name + ' n=1', probe(f), [((2,), 'dense'), ((2,), 'dense')], 1, 0, dom))
    return out
