"""C13: control flow and nested transformations (jit, scan, loops, branches, custom rules)."""
from .common import *

lax = jax.lax
W = np.array([0.5, -1.0, 2.0])


def q(*x):
    return opq('q', *x)


def h(x):
    return opq('h', x)


def scans():
    """(name, function, whether every element stays with its own inputs)"""
    def final(body, c0=lambda x: x, xs=W[:2], **kw):
        return lambda x: lax.scan(lambda c, w: (body(c, w, x), None), c0(x), xs, **kw)[0]

    def stacked(body, out, c0=lambda x: x, xs=W[:2], **kw):
        return lambda x: lax.scan(lambda c, w: (body(c, w, x), out(c, w, x)), c0(x), xs, **kw)

    return [
        ('final', final(lambda c, w, x: jnp.sin(c) * w), True),
        ('final with input', final(lambda c, w, x: c * w + jnp.sin(x)), True),
        ('product', final(lambda c, w, x: c * x * w), True),
        ('product start', final(lambda c, w, x: c * x, c0=lambda x: jnp.exp(x)), True),
        ('stacked', stacked(lambda c, w, x: jnp.sin(c), lambda c, w, x: c * w), True),
        ('stacked input', stacked(lambda c, w, x: c + w, lambda c, w, x: c * x), True),
        ('stacked constant', stacked(lambda c, w, x: c * w, lambda c, w, x: w), True),
        ('stacked both', stacked(lambda c, w, x: c * w, lambda c, w, x: (c * c, w, {'k': x})), True),
        ('stacked of sums', stacked(lambda c, w, x: c * w, lambda c, w, x: (c.sum(), (x * c).sum())), True),
        ('stacked matrix', stacked(lambda c, w, x: c * w, lambda c, w, x: jnp.outer(c, x)), True),
        ('stacked reverse', stacked(lambda c, w, x: jnp.sin(c) * w, lambda c, w, x: c + w, reverse=True), True),
        ('reverse', final(lambda c, w, x: c * w + x * x, reverse=True), True),
        ('unrolled', stacked(lambda c, w, x: jnp.sin(c) * w, lambda c, w, x: c, unroll=2), True),
        ('one step', stacked(lambda c, w, x: jnp.sin(c) * w, lambda c, w, x: c * x, xs=W[:1]), True),
        ('matrix of constants', stacked(lambda c, w, x: c * w[0] + w[1], lambda c, w, x: c @ w,
                                        xs=np.array([[1.0, -1.0], [2.0, 0.5]])), True),
        ('length', lambda x: lax.scan(lambda c, _: (jnp.sin(c), c), x, None, length=2), True),
        ('two carries', lambda x: lax.scan(lambda c, w: ((c[0] * w, c[1] * x), c[1]), (x, jnp.exp(x)), W[:2]), True),
        ('vector and scalar', lambda x: lax.scan(lambda c, w: ((jnp.sin(c[0]) * w, c[1] * w), c[1] + w), (x * x, x[1]), W[:2]), True),
        ('scalar and vector', lambda x: lax.scan(lambda c, w: ((c[0] * w, c[1] * jnp.exp(c[1])), c[0] + w), (x[0], x[::-1] * 2.0), W[:2]), True),
        ('matrix, vector, matrix', lambda x: lax.scan(lambda c, w: ((c[0] * w, jnp.cos(c[1]), c[2] * c[2]), c[1]),
                                                      (jnp.stack([x, x[::-1]]), x, x[:, None]), W[:2]), True),
        ('two sums', lambda x: lax.scan(lambda c, w: ((c[0] * w, c[1] * c[1]), c[1]), (x[0], x.sum()), W[:2]), True),
        ('swap', lambda x: lax.scan(lambda c, w: ((c[1], c[0] * w), None), (x, jnp.exp(x)), W[:2])[0], True),
        ('carry dictionary', lambda x: lax.scan(lambda c, w: ({'a': c['b'] * w, 'b': c['a'] + x}, c['a']),
                                                {'a': x, 'b': x * x}, W[:2]), True),
        ('constant carry', lambda x: lax.scan(lambda c, w: ((c[0] + 1.0, c[1] * c[0]), c[0]), (0.5, x), W[:2]), True),
        ('integer carry', lambda x: lax.scan(lambda c, w: ((c[0] + 1, c[1] * w), c[0]), (0, x), W[:2]), True),
        ('index', lambda x: lax.scan(lambda c, i: (c * jnp.asarray(W[:2])[i] + x, x[0] * i), x, np.arange(2)), True),
        ('nested', lambda x: lax.scan(lambda c, w: (lax.scan(lambda d, v: (d * v + x, None), c * w, W[:2])[0], c),
                                      x, W[:2]), True),
        ('constants outside', (lambda k: lambda x: lax.scan(lambda c, w: (c * w + k * x, c), x, W[:2]))(np.array([2.0, -1.0])), True),
        ('twice', lambda x: lax.scan(lambda c, w: (c * x, None), lax.scan(lambda c, w: (jnp.sin(c), None), x, W[:1])[0], W[:2])[0], True),
        ('mixing', lambda x: lax.scan(lambda c, w: (jnp.roll(c, 1) * w + x, None), x, W[:2])[0], False),
        ('mixing matrix', lambda x: lax.scan(lambda c, w: (jnp.tanh(np.array([[1.0, 2.0], [0.5, -1.0]]) @ c) * w, c.sum()), x, W[:2]), False),
        ('sum carry', lambda x: lax.scan(lambda c, w: (c + (w * x).prod(), c), x.sum(), W[:2]), False),
    ]


def picks():
    """Loops whose steps arrange dependent arrays by the constants of the step: (name, step, constants)"""
    at = np.array
    return [
        ('element', lambda c, i: c[i], at([2, 0])),
        ('element twice', lambda c, i: c[i] * c[0], at([1, 0, 2])),
        ('elements', lambda c, i: c[i], at([[1, 0], [2, 2]])),
        ('last first', lambda c, i: jnp.roll(c, i), at([1, 2])),
        ('window', lambda c, i: lax.dynamic_slice(c, (i,), (2,)), at([1, 0])),
        ('row', lambda c, i: lax.dynamic_index_in_dim(c, i, 0, False) ** 2, at([2, 1])),
        ('chosen', lambda c, w: jnp.where(w > 0, c, c[::-1]), at([0.5, -1.0])),
        ('chosen elements', lambda c, w: jnp.where(w, c, 2.0), at([[True, False, True], [False, False, True]])),
        ('selected', lambda c, w: lax.select_n(w, c[::-1], c, c * c[1]), at([2, 0, 1], np.int32)),
        ('ordered', lambda c, w: c[jnp.argsort(w)], at([[0.1, -2.0, 1.0], [3.0, 1.0, 2.0]])),
        ('written', lambda c, i: c.at[i].set(c[0] * c[1]), at([2, 0])),
        ('added', lambda c, i: c.at[i].add(c[2]), at([1, 0])),
        ('placed', lambda c, i: lax.dynamic_update_slice(c, c[1:] * c[:2], (i,)), at([1, 0])),
        ('one hot', lambda c, i: jnp.eye(3)[i] @ c, at([2, 0])),
        ('weighted', lambda c, w: c * w + w.sum(), at([[1.0, 0.0, 2.0], [0.0, 3.0, -1.0]])),
        ('branch', lambda c, i: lax.switch(i, [lambda: c, lambda: c[::-1], lambda: c * c[0]]), at([1, 2, 0], np.int32)),
        ('condition', lambda c, w: lax.cond(w > 0, lambda: c[0], lambda: c[1] * c[2]), at([0.5, -1.0])),
        ('summed prefix', lambda c, i: (c * (np.arange(3) < i)).sum(), at([1, 3])),
        ('along', lambda c, i: jnp.take_along_axis(c, i, 0), at([[1], [2]])),
        ('segments', lambda c, i: jax.ops.segment_sum(c, i, 2), at([[0, 1, 0], [1, 1, 0]])),
    ]


def rejected():
    def final(body, c0=lambda x: x):
        return lambda x: lax.scan(lambda c, w: (body(c, w, x), c), c0(x), W[:2])

    return [
        ('scan rotation', final(lambda c, w, x: jnp.roll(c, 1) * w)),
        ('scan rotation and input', final(lambda c, w, x: jnp.roll(c, 1) * x)),
        ('scan flip', final(lambda c, w, x: c[::-1] + w, c0=lambda x: x * x)),
        ('scan matrix', final(lambda c, w, x: np.array([[1.0, 2.0], [0.5, -1.0]]) @ c)),
        ('scan sum', final(lambda c, w, x: c * 0.5 + x.sum())),
        ('scan opaque', final(lambda c, w, x: q(c) * w)),
        ('scan forgets', final(lambda c, w, x: jnp.stack([x[1], c[0]]))),
        ('scan constant start', final(lambda c, w, x: c * w + x, c0=lambda x: np.ones(2))),
        ('scan loses input', final(lambda c, w, x: jnp.ones(2) * w)),
        ('scan swap', lambda x: lax.scan(lambda c, w: ((c[1], c[0] * w), None), (x, x[::-1] ** 2), W[:2])[0]),
        ('scan input', lambda x: lax.scan(lambda c, w: (c * w, c), x[0], x)),
        ('scan rows', lambda x: lax.scan(lambda c, w: (c + w @ w, w), x.sum(), jnp.outer(x, x))),
        ('map input', lambda x: lax.map(lambda a: a * q(a), x)),
        ('fori opaque', lambda x: lax.fori_loop(0, 2, lambda i, c: q(c) * x, x)),
        ('fori shift', lambda x: lax.fori_loop(0, 2, lambda i, c: c.at[0].set(c[1] * 2.0), x)),
        ('while', lambda x: lax.while_loop(lambda c: c[1] < 2, lambda c: (c[0] * c[0][::-1], c[1] + 1), (x, 0))[0]),
        ('custom_vjp', lambda x: _cv(x) * x),
        ('cond', lambda x: lax.cond(x[0] > 0, lambda x: x[::-1], lambda x: x * x, x)),
        ('root', lambda x: lax.custom_root(lambda y: y - x * x, x, lambda f, g: x * x, lambda g, y: y)),
        ('cumulative max', lambda x: lax.cummax(x) * x),
        ('window', lambda x: lax.reduce_window(x, 0.0, lax.add, (2,), (1,), 'SAME')),
        ('convolution', lambda x: jnp.convolve(x * x, np.array([1.0, -2.0]))),
    ]


@jax.custom_vjp
def _cv(x):
    return x * x


_cv.defvjp(lambda x: (x * x, x), lambda x, g: (2.0 * x * g,))


def flows():
    V = (2,)
    jit = jax.jit
    return [
        ('jit', lambda x: jit(q)(x), V),
        ('jit in jit', lambda x: jit(lambda y: jit(lambda z: z * x)(y) + y)(q(x)), V),
        ('jit two results', lambda x: jit(lambda a, b: (a * b, b.sum()))(x, q(x)), V),
        ('jit with constants', lambda x: jit(lambda a, b: a * b)(np.array([2.0, 3.0]), x), V),
        ('jit unused', lambda x: jit(lambda a, b: a)(x, q(x)), V),
        ('jit constant result', lambda x: jit(lambda a: (a, jnp.ones(2)))(x)[1] * x, V),
        ('jit identity', lambda x: jit(lambda a: a)(x), V),
        ('jit static', lambda x: jit(lambda a, k: a**k, static_argnums=1)(x, 3), V),
        ('jit reused', lambda x: (lambda f: f(x) * f(f(x)))(jit(h)), V),
        ('jit closure', lambda x: (lambda y: jit(lambda z: z * y)(x))(q(x)), V),
        ('jit tree', lambda x: jit(lambda d: {'r': d['a'] * d['b'][0]})({'a': x, 'b': [q(x)]}), V),
        ('remat', lambda x: jax.checkpoint(lambda y: q(y) * y)(x), V),
        ('remat nested', lambda x: jax.checkpoint(lambda y: jax.checkpoint(h)(y) * x)(q(x)), V),
        ('named', lambda x: jax.named_call(lambda y: y * y, name='block')(q(x)), V),
        ('vmap', lambda x: jax.vmap(lambda a: q(a) * x)(x), V),
        ('vmap axes', lambda x: jax.vmap(lambda a, b: a * q(b), in_axes=(0, None), out_axes=1)(x, x), V),
        ('vmap matvec', lambda x: jax.vmap(lambda w: w @ x)(np.array([[1.0, 2.0], [0.0, -1.0], [3.0, 0.5]])) ** 2, V),
        ('vmap of jit', lambda x: jax.vmap(jit(lambda a: h(a) * x.sum()))(x), V),
        ('vmap of scan', lambda x: jax.vmap(lambda a: lax.scan(lambda c, w: (c * a + w, None), a, W[:2])[0])(x), V),
        ('vectorize', lambda x: jnp.vectorize(lambda a, b: (a * b).sum(), signature='(n),(n)->()')(jnp.outer(x, x), x), V),
        ('map', lambda x: jax.lax.map(lambda w: w * q(x), W[:2]), V),
        ('fori', lambda x: lax.fori_loop(0, 3, lambda i, c: c * x + 0.5, x), V),
        ('fori index', lambda x: lax.fori_loop(1, 3, lambda i, c: c * i + jnp.sin(x), x), V),
        ('fori tree', lambda x: lax.fori_loop(0, 2, lambda i, c: (c[0] * c[1], c[1] * x), (x, jnp.sin(x))), V),
        ('while', lambda x: lax.while_loop(lambda c: c[1] < 2, lambda c: (c[0] * 0.5 + 1.0, c[1] + 1), (x, 0))[0], V),
        ('while input', lambda x: lax.while_loop(lambda c: c[1] < 2, lambda c: (c[0] * jnp.sin(c[0]), c[1] + 1), (x, 0))[0], V),
        ('while float', lambda x: lax.while_loop(lambda c: c[1] < 2.5, lambda c: (c[0] ** 2, c[1] + 1.0), (x, 0.0))[0] * x, V),
        ('while on data', lambda x: lax.while_loop(lambda c: (c[0].sum() < 0.3) & (c[1] < 2), lambda c: (c[0] * 2.0 + x * x, c[1] + 1), (x, 0))[0], V),
        ('fori dynamic', lambda x: lax.fori_loop(0, jnp.array(2), lambda i, c: c * 2.0 + i, x), V),
        ('cond constant', lambda x: lax.cond(True, h, q, x), V),
        ('cond', lambda x: lax.cond(x[0] > 0.0, lambda x: h(x), lambda x: x * x, x), V),
        ('cond two', lambda x: lax.cond(x[0] > x[1], lambda x, y: (x * y, y), lambda x, y: (y, x), x, q(x)), V),
        ('cond closure', lambda x: (lambda y: lax.cond(x[0] > 0.0, lambda: y * x, lambda: y))(h(x)), V),
        ('cond scalar', lambda x: lax.cond(x.sum() > 0.0, lambda: x.prod(), lambda: x.sum()), V),
        ('cond after', lambda x: lax.cond(x[1] > 0.0, jnp.sin, jnp.cos, q(x)) * x, V),
        ('switch', lambda x: lax.switch((x[0] > 0.0).astype(int), [lambda x: x, lambda x: h(x)], x), V),
        ('switch three', lambda x: lax.switch(np.int32(2), [lambda x: x, lambda x: h(x), lambda x: x * x], x), V),
        ('select', lambda x: lax.select(x > 0, q(x), x), V),
        ('nested cond', lambda x: lax.cond(x[0] > 0, lambda x: lax.cond(x[1] > 0, h, lambda x: x, x), lambda x: -x, x), V),
        ('cond in jit', lambda x: jit(lambda y: lax.cond(y[0] > 0, h, lambda z: z * z, y))(x), V),
        ('custom_jvp', lambda x: soft(x) * x, V),
        ('custom_jvp two', lambda x: mul2(x, q(x)), V),
        ('custom_jvp nondiff', lambda x: scaled(x, 3), V),
        ('custom_jvp of jit', lambda x: jit(soft)(x * x), V),
        ('custom_jvp of constant', lambda x: mul2(jnp.ones(2), x), V),
        ('custom_jvp results', lambda x: pairf(x), V),
        ('grad inside', lambda x: jax.grad(lambda y: (y**3).sum())(x) * x, V),
        ('grad of opaque', lambda x: jax.grad(lambda y: q(y[0], y[1]))(x), V),
        ('jvp inside', lambda x: jax.jvp(lambda y: y * h(y), (x,), (x,))[1], V),
        ('vjp inside', lambda x: jax.vjp(lambda y: y * y, x)[1](x)[0], V),
        ('jacobian inside', lambda x: jax.jacfwd(lambda y: y * y[::-1])(x) @ x, V),
        ('hessian inside', lambda x: jax.hessian(lambda y: y.prod() * y.sum())(x), V),
        ('softmax', lambda x: jax.nn.softmax(x), V),
        ('logsumexp', lambda x: jax.nn.logsumexp(x), V),
        ('silu', lambda x: jax.nn.silu(x), V),
        ('softplus', lambda x: jax.nn.softplus(x), V),
        ('relu', lambda x: jax.nn.relu(x) * x, V),
        ('associative scan', lambda x: lax.associative_scan(jnp.multiply, jnp.concatenate([x, x[:1]])), V),
        ('reduce', lambda x: lax.reduce(x, 1.0, lax.mul, (0,)), V),
        ('expm1', lambda x: jnp.expm1(x) + jnp.log1p(jnp.exp(x)), V),
    ]


def named():
    """
    Functions compiled under the names of functions with own rules: transformed ones, and
    different ones which happen to have such a name.
    """
    nn, la, jit = jax.nn, jnp.logaddexp, jax.jit
    M = lambda x: x.reshape(2, 2)  # noqa: E731

    def called(name, f):
        f.__name__ = name
        return jit(f)

    out = []
    for name, f in (('sigmoid', nn.sigmoid), ('softplus', nn.softplus), ('silu', nn.silu),
                    ('logaddexp', lambda x: la(x, x * x)), ('logaddexp one', lambda x: la(x, 1.0)),
                    ('sign', lambda x: jnp.sign(x) * x * x)):
        out += [
            (f'{name} gradient', lambda x, f=f: jax.grad(lambda y: f(y).sum())(x), (2,)),
            (f'{name} tangent', lambda x, f=f: jax.jvp(f, (x,), (x * x,)), (2,)),
            (f'{name} linearised', lambda x, f=f: jax.linearize(f, x)[1](x), (2,)),
            (f'{name} linear part', lambda x, f=f: jax.linearize(f, np.zeros(2))[1](x), (2,)),
            (f'{name} pullback', lambda x, f=f: jax.vjp(f, np.zeros(2))[1](x)[0], (2,)),
            (f'{name} Jacobian', lambda x, f=f: jax.jacfwd(f)(x), (2,)),
            (f'{name} reverse Jacobian', lambda x, f=f: jax.jacrev(f)(x), (2,)),
            (f'{name} along the last axis', lambda x, f=f: jax.vmap(f, in_axes=1)(M(x)), (4,)),
            (f'{name} to the last axis', lambda x, f=f: jax.vmap(f, out_axes=1)(M(x)), (4,)),
            (f'{name} of rows', lambda x, f=f: jax.vmap(jax.vmap(f), in_axes=1, out_axes=1)(M(x)), (4,)),
            (f'{name} gradients of rows', lambda x, f=f: jax.vmap(jax.grad(lambda y: f(y).sum()))(M(x)), (4,)),
            (f'{name} remat gradient', lambda x, f=f: jax.grad(jax.checkpoint(lambda y: f(y).sum()))(x), (2,)),
        ]
    for a in (0, 1, None):
        for b in (0, 1, None):
            if a is None and b is None:
                continue
            out.append((f'logaddexp axes {a} {b}',
                        lambda x, a=a, b=b: jax.vmap(la, in_axes=(a, b))(
                            M(x) if a is not None else x[:2], M(x * x) if b is not None else x[2:]), (4,)))
    out += [
        ('logaddexp rows and numbers', lambda x: jax.vmap(la)(M(x), x[:2]), (4,)),
        ('logaddexp numbers and rows', lambda x: jax.vmap(la)(x[2:], M(x)), (4,)),
        ('logaddexp columns and numbers', lambda x: jax.vmap(la, in_axes=(1, 0))(M(x), x[:2]), (4,)),
        ('logaddexp twice', lambda x: jax.vmap(jax.vmap(la, in_axes=(0, None)), in_axes=(None, 0))(x[:2], x[2:]), (4,)),
        ('logaddexp twice turned', lambda x: jax.vmap(jax.vmap(la, in_axes=(None, 0)), in_axes=(0, None), out_axes=1)(x[:2], x[2:]), (4,)),
        ('logaddexp second argument', lambda x: jax.grad(lambda y: la(x, y).sum())(x * x), (2,)),
        ('logaddexp rows and constants', lambda x: jax.vmap(la)(M(x), np.array([0.5, 1.0])), (4,)),
        ('own sigmoid', lambda x: called('sigmoid', lambda y: 1.0 / (1.0 + y * y))(x), (2,)),
        ('own silu', lambda x: called('silu', lambda y, b=2.0: y * b)(x) * x, (2,)),
        ('own softplus with scale', lambda x: called('softplus', lambda y, b: y * b)(x, x[::-1]), (2,)),
        ('own softplus with constant', lambda x: called('softplus', lambda y, b: y * y * b)(x, 2.0), (2,)),
        ('own logaddexp', lambda x: called('logaddexp', lambda y, z: y * z)(x, x[::-1]), (2,)),
        ('own logaddexp two results', lambda x: called('logaddexp', lambda y, z: (y * z, z))(x, x[::-1]), (2,)),
        ('own sign', lambda x: called('sign', lambda y: y * y)(x), (2,)),
        ('own sign of the sum', lambda x: called('sign', lambda y: jnp.sign(y.sum()) * y)(x), (2,)),
        ('own slogdet', lambda x: called('slogdet', lambda y: (y[0, 0], y.sum() ** 2))(x[:, None] * x), (2,)),
        ('own slogdet one result', lambda x: called('slogdet', lambda y: y[0] * y[1])(x), (2,)),
        ('own slogdet result dropped', lambda x: called('slogdet', lambda y: (y[0, 0], y.sum() ** 2))(x[:, None] * x)[1], (2,)),
        ('own sigmoid vectorised', lambda x: jax.vmap(called('sigmoid', lambda y: y * y[::-1]), in_axes=1)(M(x)), (4,)),
    ]
    return out


@jax.custom_jvp
def soft(x):
    return jnp.exp(x) * x


@soft.defjvp
def _(p, t):
    return soft(p[0]), (jnp.exp(p[0]) * p[0] + jnp.exp(p[0])) * t[0]


@jax.custom_jvp
def mul2(x, y):
    return x * y * y


@mul2.defjvp
def _(p, t):
    x, y = p
    return mul2(x, y), y * y * t[0] + 2.0 * x * y * t[1]


import functools  # noqa: E402


@functools.partial(jax.custom_jvp, nondiff_argnums=(1,))
def scaled(x, k):
    return x**k


@scaled.defjvp
def _(k, p, t):
    return scaled(p[0], k), k * p[0] ** (k - 1) * t[0]


@jax.custom_jvp
def pairf(x):
    return x * x[::-1], x.sum()


@pairf.defjvp
def _(p, t):
    (x,), (d,) = p, t
    return pairf(x), (d * x[::-1] + x * d[::-1], d.sum())


def cases(tier, rng):
    out = []
    for name, fn, shape in flows() + named():
        n = int(np.prod(shape))
        for t in (0, 1, n):
            for jit in (False, True):
                if jit and t == 1:
                    continue
                out.append(input_case(f'{name} thr={t}{" jitted" if jit else ""}', fn, [Var(shape)], threshold=t,
                                      disable_jit=not jit))
        for m in ('dense', 'own', 'two') + (('dup', 'part', 'shared', 'rev') if tier == 'thorough' else ('dup',)):
            loop = name.startswith(('while', 'fori dynamic'))
            if m != 'own' and name.startswith(('fori', 'vmap of scan')) and m != 'dense':
                continue  # carries that change their sparsity are rejected
            if m == 'own' and name.startswith(('fori index', 'fori tree')):
                continue
            # JAX differentiates while loops in forward mode only, which folx uses
            # for at most as many directions as elements
            out.append(step(name, lambda x, fn=fn: fn(x), [(shape, m)], 2 if loop else 3,
                            0 if m == 'dense' else 3))
    for name, fn, diag in scans():
        for t in (0, 1, 2) if diag else (0,):
            for jit in (False, True):
                out.append(input_case(f'scan {name} thr={t}{" jitted" if jit else ""}', fn, [Var((2,))], threshold=t,
                                      disable_jit=not jit))
        kinds = ('dense', 'own', 'rev', 'part', 'two', 'dup', 'shared') if diag else ('dense',)
        for m in kinds if tier == 'thorough' else [k for k in kinds if k in ('dense', 'own', 'rev')]:
            out.append(step(f'scan {name}', fn, [((2,), m)], 3, 0 if m == 'dense' else 3))
        out.append(step(f'scan after {name}', lambda x, fn=fn: jax.tree_util.tree_map(
            lambda y: (y * y).sum(), fn(x)), [((2,), 'dense')], 2, 0))
    for name, f, xs in picks():
        fns = [
            ('picks', lambda x, f=f, xs=xs: lax.scan(lambda c, i: (c, f(c, i)), x, xs)[1]),
            ('picks from outside', lambda x, f=f, xs=xs: lax.scan(lambda c, i: (c * 2.0, f(x, i)), x, xs)),
            ('counts', lambda x, f=f, xs=xs: lax.scan(lambda c, _: ((c[0] + 1, c[1]), f(c[1], jnp.asarray(xs)[c[0]])),
                                                      (0, x), None, length=len(xs))[1]),
        ]
        for k, fn in fns:
            for t in (1, 3) if tier == 'quick' else (0, 1, 2, 3):
                out.append(input_case(f'scan {k} {name} thr={t}', fn, [Var((3,))], threshold=t, disable_jit=True))
            out.append(input_case(f'scan {k} {name} jitted', fn, [Var((3,))], threshold=2))
        for m in ('dense', 'rev', 'two') if tier == 'quick' else ('dense', 'own', 'rev', 'part', 'two', 'dup', 'shared'):
            out.append(step(f'scan picks {name}', fns[0][1], [((3,), m)], 3, 0 if m == 'dense' else 3))
        mixed = lambda x, f=f, xs=xs: lax.scan(lambda c, i: (c + f(c, i).sum(), c), x, xs)  # noqa: E731
        for t in (0, 1, 4):
            out.append(input_case(f'scan mixing {name} right or rejected thr={t}', mixed, [Var((3,))], threshold=t,
                                  disable_jit=True, may_reject=True))
    # what is not supported is rejected, never computed wrongly
    for name, fn, *other in rejected():
        ref = other[0] if other else fn
        for t in (0, 1, 2, 4):
            for jit in (False, True):
                out.append(input_case(f'{name} right or rejected thr={t}{" jitted" if jit else ""}', fn, [Var((2,))],
                                      threshold=t, disable_jit=not jit, may_reject=True, ref_fn=ref))
        for m in ('dense', 'own', 'rev', 'part', 'two', 'dup', 'shared'):
            out.append(step(f'{name} right or rejected', fn, [((2,), m)], 3, 0 if m == 'dense' else 3, may_reject=True, ref_fn=ref))
    # carries and constants with different states
    two = [
        ('carry x, constant y', lambda x, y: lax.scan(lambda c, w: (c * y + w, c.sum()), x, W[:2])),
        ('two carries', lambda x, y: lax.scan(lambda c, w: ((c[0] * w, c[1] + c[0] * w), c[1]), (x, y), W[:2])),
        ('stacked outer', lambda x, y: lax.scan(lambda c, w: (c * w, jnp.outer(c, y)), x, W[:2])[1]),
    ]
    for name, fn in two:
        if name == 'two carries':
            # a carry that becomes dependent on the inputs only later is rejected
            out.append(step(f'scan {name}', fn, [((2,), 'const'), ((2,), 'dense')], 3, 0))
        for a, b in (('dense', 'dense'), ('dense', 'const' if name != 'two carries' else 'dense')):
            out.append(step(f'scan {name}', fn, [((2,), a), ((2,), b)], 3, 0))
        for a, b in (('own', 'const' if name != 'two carries' else 'own'), ('own', 'own')):
            out.append(step(f'scan {name}', fn, [((2,), a), ((2,), b)], 3, 3))
    return out
