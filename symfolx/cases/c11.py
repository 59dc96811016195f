"""C11: values, shapes, types and structure of the results are those of the function."""
from .common import *
from .programs import PROGRAMS, generate

import folx
from folx.api import IS_LPL_ARR, FwdLaplArray


def value_case(name, fn, inputs, thr, jit=False, weights=None, **kw):
    """Only the values: the function itself is the oracle."""
    st = Structure()

    def impl(**a):
        st.bad.clear()
        xs = [a[f'x{i}'] for i in range(len(inputs))]
        extra = {} if weights is None else {'weights': weights}
        out = folx.forward_laplacian(fn, thr, disable_jit=not jit)(*xs, **extra)
        st.output(out, jax.eval_shape(fn, *xs))
        flat = []
        for l in jax.tree_util.tree_leaves(out, is_leaf=IS_LPL_ARR):
            flat.append(l.x if isinstance(l, FwdLaplArray) else jnp.asarray(l))
        return flat

    def ref(S):
        xs = [S[f'x{i}'] for i in range(len(inputs))]
        av = [jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for v in inputs]
        return run_ref(fn, av, xs)

    return Case(f'{name} thr={thr}{" jitted" if jit else ""}', {f'x{i}': v for i, v in enumerate(inputs)},
                impl, ref, st, **kw)


def body_cond(x):
    return jax.lax.while_loop(lambda c: c[1] < 3, lambda c: (c[0] * 0.5 + 1.0, c[1] + 1), (x, 0))


def nonsmooth():
    V = Var
    return [
        ('max', lambda x: (x.max(), x.min(0)), [V((2, 2))]),
        ('argmax', lambda x: (x.argmax(), x.argmin(), x), [V((3,))]),
        ('sort', lambda x: jnp.sort(x), [V((3,))]),
        ('sort descending', lambda x: -jnp.sort(-x), [V((3,))]),
        ('argsort', lambda x: jnp.argsort(x), [V((3,))]),
        ('sort keys', lambda x, y: jax.lax.sort((x, y), num_keys=1), [V((2,)), V((2,))]),
        ('top_k', lambda x: jax.lax.top_k(x, 2), [V((3,))]),
        ('median', lambda x: jnp.median(x), [V((3,))]),
        ('sign', lambda x: jnp.sign(x) * x, [V((2,))]),
        ('abs', lambda x: jnp.abs(x) + x, [V((2,))]),
        ('floor', lambda x: (jnp.floor(x), jnp.ceil(x), jnp.round(x)), [V((2,))]),
        ('compare', lambda x: (x > 0.5, x <= x[::-1], jnp.isfinite(x)), [V((2,))]),
        ('where', lambda x: jnp.where(x > 0, x, 2.0 * x), [V((2,))]),
        ('clip', lambda x: jnp.clip(x, -0.5, 0.5), [V((2,))]),
        ('maximum', lambda x, y: jnp.maximum(x, y) - jnp.minimum(x, y), [V((2,)), V((2,))]),
        ('relu', lambda x: jax.nn.relu(x).sum(), [V((3,))]),
        ('count', lambda x: (x > 0).sum() * x, [V((2,))]),
        ('any all', lambda x: ((x > 0).any(), (x > 0).all(), x), [V((2,))]),
        ('integer', lambda x: x.astype(int), [V((2,))]),
        ('cond', lambda x: jax.lax.cond(x[0] > 0, jnp.sin, lambda x: x * x, x), [V((2,))]),
        ('switch', lambda x: jax.lax.switch(jnp.argmax(x), [jnp.sin, jnp.cos], x), [V((2,))]),
        ('while', body_cond, [V((2,))]),
        ('fori', lambda x: jax.lax.fori_loop(0, 3, lambda i, c: c * x + i, x), [V((2,))]),
        ('scan', lambda x: jax.lax.scan(lambda c, w: (c * w + x, c.sum()), x, jnp.arange(3.0)), [V((2,))]),
        ('cummax', lambda x: (jax.lax.cummax(x), jax.lax.cummin(x)), [V((3,))]),
        ('norm inf', lambda x: jnp.linalg.norm(x, jnp.inf), [V((3,))]),
        ('max pool', lambda x: jax.lax.reduce_window(x, -jnp.inf, jax.lax.max, (2,), (1,), 'VALID'), [V((3,))]),
        ('stop', lambda x: jax.lax.stop_gradient(x) * x, [V((2,))]),
        ('searchsorted', lambda x: jnp.searchsorted(np.array([-0.5, 0.5]), x, method='compare_all'), [V((2,))]),
        ('dynamic', lambda x: x[jnp.argmax(x)] * x, [V((2,))]),
        ('slogdet', lambda x: jnp.linalg.slogdet(x), [V((2, 2))]),
        ('det', lambda x: jnp.linalg.det(x), [V((2, 2))]),
        ('complex', lambda x: jnp.exp(1j * x), [V((2,))]),
        ('complex parts', lambda x: ((x * 1j).imag, (x + 1j).real, jnp.abs(x + 1j)), [V((2,))]),
        ('constant', lambda x: (jnp.arange(3), np.float64(2.0), True), [V((2,))]),
        ('nothing', lambda x: (), [V((2,))]),
    ]


def typed():
    """Functions whose results have another type than their arguments."""
    f32, f64, f16, bf = np.float32, np.float64, np.float16, jnp.bfloat16
    one = [
        ('sin', lambda x: jnp.sin(x)), ('square', lambda x: x * x), ('sum', lambda x: (x**2).sum()),
        ('outer', lambda x: jnp.outer(x, x) @ x), ('constant', lambda x: x * np.ones(2, np.float64)),
        ('python number', lambda x: 2 * x + 1.5), ('widen', lambda x: jnp.sin(x).astype(f64) * x),
        ('narrow', lambda x: (x * x).astype(f32)), ('half', lambda x: x.astype(f16)),
        ('sum wide', lambda x: x.sum(dtype=f64)), ('cumsum', lambda x: jnp.cumsum(x)),
        ('prod', lambda x: x.prod()), ('max', lambda x: x.max()), ('integers', lambda x: x * jnp.arange(2)),
        ('where', lambda x: jnp.where(np.array([True, False]), x, 2)), ('set', lambda x: x.at[0].set(3.0)),
        ('clip', lambda x: jnp.clip(x, 0, 1)), ('dot', lambda x: x @ np.eye(2)), ('einsum', lambda x: jnp.einsum('i,j,i->j', x, x, x)),
        ('dot wide', lambda x: jnp.dot(x, x, preferred_element_type=f64)), ('norm', lambda x: jnp.sqrt((x * x).sum() + 1)),
        ('fori', lambda x: jax.lax.fori_loop(0, 2, lambda i, c: c * x, x)),
        ('cond', lambda x: jax.lax.cond(x[0] > 0, lambda x: x * x, lambda x: x + 1, x)),
        ('complex', lambda x: x * 1j), ('to complex', lambda x: jax.lax.complex(x, x * x) * x),
        ('abs complex', lambda x: jnp.abs(x + 1j)), ('argmax', lambda x: (x.argmax(), x > 0)),
        ('concatenate', lambda x: jnp.concatenate([x, np.ones(1, x.dtype)])), ('stack', lambda x: jnp.stack([x, x * x])),
        ('logsumexp', lambda x: jax.nn.logsumexp(x)), ('slogdet', lambda x: jnp.linalg.slogdet(jnp.outer(x, x) + jnp.eye(2, dtype=x.dtype))[1]),
    ]
    two = [
        ('mul', lambda x, y: x * y), ('dot', lambda x, y: x @ y), ('lax dot', lambda x, y: jax.lax.dot_general(
            x, y, (((0,), (0,)), ((), ())), preferred_element_type=f64)),
        ('mat', lambda x, y: jnp.outer(x, x) @ y), ('concatenate', lambda x, y: jnp.concatenate([x, y])),
        ('set', lambda x, y: x.at[0].set(y[0].astype(x.dtype))), ('add', lambda x, y: y.at[0].add(x[0].astype(y.dtype))),
        ('where', lambda x, y: jnp.where(np.array([True, False]), x, y)),
        ('complex', lambda x, y: x + 1j * y), ('outer', lambda x, y: jnp.outer(x, y).sum(1)),
    ]
    return one, two


def cases(tier, rng):
    out = []
    for fn, shapes, dom in PROGRAMS:
        n = sum(int(np.prod(s)) for s in shapes)
        ins = [Var(s, **dom) for s in shapes]
        for t in (0, 1, n, 0.5):
            out.append(value_case(f'{fn.__name__} {shapes}', fn, ins, t))
        for t in (0, n):
            out.append(value_case(f'{fn.__name__} {shapes}', fn, ins, t, jit=True))
            out.append(value_case(f'{fn.__name__} {shapes} weighted', fn, ins, t, weights=3.0))
    for name, fn, ins in nonsmooth():
        n = sum(int(np.prod(v.shape)) for v in ins)
        for t in (0, 1, n):
            for jit in (False, True):
                if jit and t == 1:
                    continue
                out.append(value_case(name, fn, ins, t, jit=jit))
    one, two = typed()
    f = dict(float32=np.float32, bfloat16=jnp.bfloat16, float16=np.float16)
    for t in (0, 1, 4):
        for jit in (False, True):
            for dn, d in f.items():
                if dn != 'float32' and (jit or t == 1):
                    continue
                for name, fn in one:
                    if dn != 'float32' and name in ('complex', 'to complex', 'abs complex', 'slogdet'):
                        continue
                    v = Var((2,), dtype=d, pos=True)
                    out.append(value_case(f'{name} {dn}', fn, [v], t, jit=jit, tol=2e-4 if dn == 'float32' else 0.3))
            for a, b in ((np.float32, np.float64), (np.float64, np.float32), (np.float16, np.float32)):
                if jit and a != np.float32:
                    continue
                for name, fn in two:
                    if a == np.float16 and name == 'complex':
                        continue
                    ins = [Var((2,), dtype=a, pos=True), Var((2,), dtype=b, pos=True)]
                    out.append(value_case(f'{name} {a.__name__} {b.__name__}', fn, ins, t, jit=jit,
                                          tol=2e-4 if a != np.float16 else 0.1))
    for k in range(40 if tier == 'quick' else 400):
        shape = rng.choice([(3,), (2, 2), (4,), (2, 3)])
        d, fn = generate(rng, shape, rng.randint(3, 7))
        n = int(np.prod(shape))
        out.append(value_case(f'generated {d} {shape}', fn, [Var(shape)], rng.choice([0, 1, 2, n, 0.5])))
    return out
