"""C12: where derivatives stop (stop_gradient, comparisons, rounding, integers, choices)."""
from .common import *

sg = jax.lax.stop_gradient


def q(x):
    return opq('q', x)


def progs():
    return [
        ('stop', lambda x: sg(x), (2,)),
        ('stop and use', lambda x: sg(x) * q(x), (2,)),
        ('stop product', lambda x: sg(q(x)) * x + x[::-1], (2,)),
        ('stop inside', lambda x: q(x * sg(x[::-1])), (2,)),
        ('stop tree', lambda x: (lambda t: t['a'] * x + t['b'])(sg({'a': x * x, 'b': q(x)})), (2,)),
        ('stop once', lambda x: x * x - sg(x * x), (2,)),
        ('straight through', lambda x: x + sg(jnp.round(x) - x), (2,)),
        ('stop matrix', lambda x: sg(jnp.outer(x, x)) @ x, (2,)),
        ('stop max', lambda x: jnp.exp(x - sg(x.max())), (2,)),
        ('zero derivative', lambda x: jnp.zeros_like(x) + x.size, (2,)),
        ('sign', lambda x: jnp.sign(x), (2,)),
        ('sign product', lambda x: jnp.sign(x) * q(x), (2,)),
        ('abs', lambda x: jnp.abs(x) * x[::-1], (2,)),
        ('abs cubed', lambda x: jnp.abs(x) ** 3, (2,)),
        ('floor', lambda x: jnp.floor(x) * x, (2,)),
        ('ceil', lambda x: x + jnp.ceil(q(x)), (2,)),
        ('round', lambda x: jnp.round(x) * q(x), (2,)),
        ('round decimals', lambda x: jnp.round(x, 1) * x, (2,)),
        ('integer', lambda x: x.astype(int) * x, (2,)),
        ('integer only', lambda x: (x * 2).astype(int), (2,)),
        ('fraction', lambda x: (x - jnp.floor(x)) ** 2, (2,)),
        ('comparison', lambda x: (x > 0.5) * q(x), (2,)),
        ('comparison as number', lambda x: (x > x[::-1]).astype(float), (2,)),
        ('count', lambda x: (x > 0).sum() * x, (2,)),
        ('not', lambda x: jnp.where(~(x > 0.2), x * x, x), (2,)),
        ('and or', lambda x: jnp.where((x > -1) & (x < 1) | (x > 2), q(x), x), (2,)),
        ('isfinite', lambda x: jnp.where(jnp.isfinite(x), x * x, 0.0), (2,)),
        ('where', lambda x: jnp.where(x > 0, q(x), x[::-1]), (2,)),
        ('where shared', lambda x: jnp.where(x[0] > x[1], x, x * x), (2,)),
        ('where constant', lambda x: jnp.where(x > 0, x, 3.0), (2,)),
        ('where constants', lambda x: jnp.where(x > 0, 1.0, 3.0) * x, (2,)),
        ('safe where', lambda x: jnp.where(x > 0.1, jnp.log(jnp.where(x > 0.1, x, 1.0)), 0.0), (2,)),
        ('heaviside', lambda x: jnp.heaviside(x, 0.5) * x, (2,)),
        ('relu', lambda x: jax.nn.relu(x) ** 2, (2,)),
        ('leaky', lambda x: jax.nn.leaky_relu(x) * x, (2,)),
        ('elu', lambda x: jax.nn.elu(x), (2,)),
        ('hard tanh', lambda x: jax.nn.hard_tanh(x) * x, (2,)),
        ('clip', lambda x: jnp.clip(x, -0.5, 0.5) * q(x), (2,)),
        ('clip by itself', lambda x: jnp.clip(x, x[0], 10.0) * x[::-1], (2,)),
        ('max', lambda x: x.max() * x, (2,)),
        ('argmax', lambda x: jnp.argmax(x) * x, (2,)),
        ('argmax index', lambda x: x[jnp.argmax(x)] ** 2 + x, (2,)),
        ('one hot', lambda x: jax.nn.one_hot(jnp.argmin(x), 2) @ q(x), (2,)),
        ('argsort', lambda x: q(x)[jnp.argsort(x)], (2,)),
        ('nan free', lambda x: jnp.nan_to_num(x) * x, (2,)),
        ('mod', lambda x: jnp.where(jnp.floor(x) == 0, x**2, -x), (2,)),
        ('parity', lambda x: jnp.where(jnp.floor(x).astype(int) > 1, x, q(x)), (2,)),
        ('bool any', lambda x: jnp.where((x > 1).any(), x, x**3), (2,)),
        ('sort then stop', lambda x: sg(jnp.sort(x)) * x, (2,)),
        ('segment by data', lambda x: jax.ops.segment_sum(q(x), (x > 0).astype(int), 2), (2,)),
        ('zeros like', lambda x: jnp.zeros_like(x).at[(x > 0).astype(int)].add(x), (2,)),
        ('float of comparison', lambda x: jnp.float64(x[0] < x[1]) * x, (2,)),
        ('copysign', lambda x: jnp.abs(x) * jnp.sign(x), (2,)),
        ('piecewise', lambda x: jnp.select([x < -0.5, x < 0.5], [x, q(x)], x**2), (2,)),
        ('constant branch', lambda x: jax.lax.cond(x[0] > 0, lambda x: jnp.ones(2), lambda x: x * x, x), (2,)),
        ('integer branch', lambda x: jax.lax.cond(x[0] > 0, lambda: 1, lambda: 2) * x, (2,)),
        ('integer branches', lambda x: (lambda k: x[k[0]] * x * k[1])(
            jax.lax.cond(x[0] > x[1], lambda: (0, 2), lambda: (1, 3))), (2,)),
        ('integer loop', lambda x: jax.lax.while_loop(lambda k: (k < 2) & (x[0] > 0), lambda k: k + 1, 0) * q(x), (2,)),
        ('mixed branch', lambda x: (lambda k, y: y[k] * x)(*jax.lax.cond(
            x[0] > 0, lambda: (0, x * x), lambda: (1, x)))  , (2,)),
        ('top index', lambda x: x * jax.lax.top_k(x, 1)[1], (2,)),
        ('top value', lambda x: x * jax.lax.top_k(x, 1)[0], (2,)),
        ('searched', lambda x: x * jnp.searchsorted(np.array([-0.5, 0.5]), x[0]), (2,)),
        ('digit', lambda x: x ** 2 * jnp.digitize(x, np.array([0.0])), (2,)),
        ('nonzero', lambda x: jnp.nonzero(x > 0, size=2, fill_value=0)[0] * x, (2,)),
        ('bits', lambda x: jnp.where((x > 0) ^ (x > 1), x, x * x), (2,)),
        ('order', lambda x: jnp.lexsort((x,)) * x, (2,)),
        ('custom no derivative', nograd, (2,), lambda x: sg(x * x) * x),
        ('custom half', half, (2,), lambda x: (x + sg(jnp.round(x) - x)) ** 2 * x),
    ]


@jax.custom_jvp
def _frozen(x):
    return x * x


@_frozen.defjvp
def _(p, t):
    return _frozen(*p), jnp.zeros_like(t[0])


def nograd(x):
    return _frozen(x) * x


@jax.custom_jvp
def _straight(x):
    return jnp.round(x)


@_straight.defjvp
def _(p, t):
    return _straight(*p), t[0]


def half(x):
    return _straight(x) ** 2 * x


def cases(tier, rng):
    out = []
    for name, fn, shape, *other in progs():
        ref = other[0] if other else fn  # the same with stop_gradient, for custom rules
        n = int(np.prod(shape))
        for t in (0, 1, n):
            for jit in ((False, True) if t != 1 else (False,)):
                out.append(input_case(f'{name} thr={t}{" jitted" if jit else ""}', fn, [Var(shape)], threshold=t,
                                      disable_jit=not jit, ref_fn=ref))
        for m in ('dense', 'two', 'dup', 'part') + (('shared', 'rev', 'own') if tier == 'thorough' else ()):
            if name in HEAVY and tier == 'quick' and m in ('dup', 'part'):
                continue
            out.append(step(name, after(fn), [(shape, m)], 3, 0 if m == 'dense' else 3, ref_fn=after(ref)))
    return out


HEAVY = ('clip', 'piecewise', 'and or')
