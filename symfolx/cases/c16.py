"""C16: batched_vmap is vmap, for every batch size."""
import folx

from .common import *


def q(*x):
    e = [jnp.asarray(a).ravel()[i] for a in x for i in range(jnp.size(a))]
    return opq('q', *e)


def rows(x):
    return jnp.stack([q(x[i]) for i in range(x.shape[0])])


def progs():
    """name, function, argument shapes (batch axis included), in_axes, out_axes, tree, kwargs"""
    V = Var
    one = lambda xs: tuple(xs)
    B = 5
    return [
        ('vector', lambda x: q(x), [(B, 2)], 0, 0, one, {}),
        ('numbers', lambda x: q(x), [(B,)], 0, 0, one, {}),
        ('matrix', lambda x: rows(x), [(B, 2, 1)], 0, 0, one, {}),
        ('in 1', lambda x: q(x), [(2, B)], 1, 0, one, {}),
        ('in -1', lambda x: q(x), [(2, B)], -1, 0, one, {}),
        ('in -2', lambda x: q(x), [(B, 2)], -2, 0, one, {}),
        ('in middle', lambda x: q(x[1], x[0]), [(2, B, 1)], 1, 0, one, {}),
        ('out 1', lambda x: rows(x), [(B, 2, 1)], 0, 1, one, {}),
        ('out -1', lambda x: rows(x[::-1]), [(B, 2, 1)], 0, -1, one, {}),
        ('out 2', lambda x: jnp.outer(x, rows(x)), [(B, 2)], 0, 2, one, {}),
        ('in 1 out 1', lambda x: rows(x), [(2, B)], 1, 1, one, {}),
        ('square', lambda x: rows(x), [(3, 3)], 1, 1, one, {}),
        ('square in 1', lambda x: rows(x), [(3, 3)], 1, 0, one, {}),
        ('two', lambda x, y: q(x, y), [(B, 1), (B,)], 0, 0, one, {}),
        ('two axes', lambda x, y: q(x, y), [(B, 2), (2, B)], (0, 1), 0, one, {}),
        ('two square', lambda x, y: q(x[0], y[1]), [(3, 3), (3, 3)], (0, 1), 0, one, {}),
        ('two swapped', lambda x, y: q(x[0], y[1]), [(3, 3), (3, 3)], (1, 0), 0, one, {}),
        ('three axes', lambda x, y, z: q(x, y, z), [(B, 1), (1, B), (B,)], (0, 1, -1), 0, one, {}),
        ('list', lambda x, y: q(x, y), [(B,), (1, B)], [0, 1], 0, one, {}),
        ('shared second', lambda x, y: q(x, y), [(B, 1), (2,)], (0, None), 0, one, {}),
        ('shared first', lambda y, x: q(y, x), [(2,), (B, 1)], (None, 0), 0, one, {}),
        ('shared same size', lambda y, x: q(y[0], x), [(B,), (B,)], (None, 0), 0, one, {}),
        ('shared between', lambda x, y, z: q(x, y, z), [(B,), (2,), (B,)], (0, None, 0), 0, one, {}),
        ('shared ranks', lambda x, y, z: q(x * y, z), [(B, 2), (2,), ()], (0, None, None), 0, one, {}),
        ('shared ranks first', lambda y, z, x: q(x * y, z), [(2, 2), (2,), (B, 2)], (None, None, 0), 0, one, {}),
        ('shared alike', lambda y, x, z, w: q(y, x, z * w), [(2,), (2, B), (2,), (2,)], (None, 1, None, None), 0, one, {}),
        ('mapped ranks', lambda x, y, z, s: q(x, y, z, s), [(B, 2), (B,), (2, B, 1), (2,)], (0, 0, 1, None), 0, one, {}),
        ('shared list', lambda x, y, z: q(x, y, z), [(1,), (B,), (2,)], [None, 0, None], 0, one, {}),
        ('shared tree', lambda p, x: q(p['a'] * x, p['b'], x), [(2,), (), (B, 2)], (None, 0), 0,
         lambda xs: ({'a': xs[0], 'b': xs[1]}, xs[2]), {}),
        ('tree', lambda d: q(d['a'], d['b']), [(B,), (B, 2)], 0, 0, lambda xs: ({'a': xs[0], 'b': xs[1]},), {}),
        ('tree axes', lambda d: q(d['a'], d['b']), [(B,), (2, B)], ({'a': 0, 'b': 1},), 0,
         lambda xs: ({'a': xs[0], 'b': xs[1]},), {}),
        ('tree axes shared', lambda d, z: q(d['a'], d['b'], z), [(B,), (2,), (1, B)], ({'a': 0, 'b': None}, 1), 0,
         lambda xs: ({'a': xs[0], 'b': xs[1]}, xs[2]), {}),
        ('tree prefix', lambda d, z: q(d[0], d[1]['c'], z), [(B,), (B, 1), (2, B)], (0, 1), 0,
         lambda xs: ((xs[0], {'c': xs[1]}), xs[2]), {}),
        ('nested lists', lambda d: q(d[0], d[1][0]), [(B,), (2, B)], ([0, [1]],), 0, lambda xs: ([xs[0], [xs[1]]],), {}),
        ('empty container', lambda x, e: q(x), [(B,)], (0, None), 0, lambda xs: (xs[0], ()), {}),
        ('two results', lambda x: (q(x), x[0] * x), [(B, 2)], 0, 0, one, {}),
        ('two results axes', lambda x: (rows(x), x[0] * x), [(B, 2)], 0, (0, 1), one, {}),
        ('two results axes swapped', lambda x: (rows(x), x[0] * x), [(B, 2)], 0, (1, 0), one, {}),
        ('two results axes negative', lambda x: (rows(x), q(x)), [(B, 2)], 0, (-1, 0), one, {}),
        ('dict result', lambda x: {'v': rows(x), 'w': (q(x), x)}, [(B, 2)], 0, 0, one, {}),
        ('dict result axes', lambda x: {'v': rows(x), 'w': q(x)}, [(B, 2)], 0, {'v': 1, 'w': 0}, one, {}),
        ('dict result prefix axes', lambda x: {'v': rows(x), 'w': (x[::-1], x)}, [(B, 2)], 0, {'v': 0, 'w': 1}, one, {}),
        ('list result', lambda x: [q(x), x], [(B, 2)], 0, 0, one, {}),
        ('one in a tuple', lambda x: (q(x),), [(B, 2)], 0, 0, one, {}),
        ('constant result', lambda x: (q(x), jnp.ones(2)), [(B, 2)], 0, 0, one, {}),
        ('constant result axis', lambda x: (q(x), jnp.arange(3.0)), [(B, 2)], 0, (0, 1), one, {}),
        ('unmapped result', lambda x, s: (q(x, s), s * s), [(B, 2), (2,)], (0, None), (0, None), one, {}),
        ('unmapped results', lambda x, s: {'a': (s, s[::-1]), 'b': rows(x)}, [(B, 2), (2,)], (0, None), {'a': None, 'b': 1}, one, {}),
        ('unmapped only', lambda x, s: q(s), [(B, 2), (2,)], (0, None), None, one, {}),
        ('None result', lambda x: (q(x), None), [(B, 2)], 0, 0, one, {}),
        ('keyword', lambda x, k: q(x, k), [(B, 2)], 0, 0, one, {'k': 1.5}),
        ('keyword axis', lambda x, y, k: rows(x * k + y), [(2, B), (2,)], (1, None), 1, one, {'k': 2.0}),
        ('reduction', lambda x: (x * q(x)).sum(0), [(B, 2)], 0, 0, one, {}),
        ('inner vmap', lambda x: jax.vmap(lambda y: q(y))(x), [(B, 2, 1)], 0, 0, one, {}),
        ('inner jit', lambda x: jax.jit(lambda y: q(y))(x), [(B, 2)], 0, 0, one, {}),
        ('inner scan', lambda x: jax.lax.scan(lambda c, w: (q(c, w), None), 0.5, x)[0], [(B, 2)], 0, 0, one, {}),
        ('inner batched', lambda x: folx.batched_vmap(lambda y: q(y), 2)(x), [(B, 3)], 0, 0, one, {}),
        ('inner batched axis', lambda x: folx.batched_vmap(lambda y: rows(y), 2, 1, 1)(x), [(B, 2, 3)], 0, 1, one, {}),
        ('single', lambda x: q(x), [(1, 2)], 0, 0, one, {}),
        ('empty', lambda x: jnp.sin(x), [(0, 2)], 0, 0, one, {}),
        ('six', lambda x: q(x), [(6, 1)], 0, 0, one, {}),
        ('eight', lambda x, s: q(x, s), [(8,), ()], (0, None), 0, one, {}),
        ('prime', lambda x: q(x), [(1, 7)], 1, 0, one, {}),
        ('gradient', lambda x: jax.grad(lambda y: q(y))(x), [(B, 2)], 0, 1, one, {}),
        ('sorted', lambda x: jnp.sort(x), [(2, 2)], 1, 1, one, {}),
    ]


def batch_case(name, fn, shapes, ia, oa, tree, kw, b, jit=False, dtypes=None):
    vars = {f'x{i}': Var(s, dtype=(dtypes or {}).get(i)) for i, s in enumerate(shapes)}
    st = Structure()
    jia = tuple(ia) if isinstance(ia, list) else ia
    ref_fn = jax.vmap(lambda *a: fn(*a, **kw), in_axes=jia, out_axes=oa)
    avals = tree([jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for v in vars.values()])

    def impl(**a):
        st.bad.clear()
        args = tree(list(a.values()))
        call = lambda *p: folx.batched_vmap(fn, b, in_axes=ia, out_axes=oa)(*p, **kw)
        out = (jax.jit(call) if jit else call)(*args)
        st.output(out, jax.eval_shape(ref_fn, *avals))
        return jax.tree_util.tree_leaves(out)

    def ref(S):
        return run_ref(ref_fn, avals, tree([S[k] for k in vars]))

    return Case(f'{name} b={b}' + (' jit' if jit else ''), vars, impl, ref, st)


def laplacian_case(name, fn, shape, t, b, B, oa=0):
    """Forward Laplacians of a batch of samples, as the library is used."""
    n = int(np.prod(shape, dtype=int))
    st = Structure()

    def impl(x):
        st.bad.clear()

        def one(y):
            o = folx.forward_laplacian(fn, t)(y)
            return o.x, o.laplacian, dense_jacobian(o.jacobian, n)

        out = folx.batched_vmap(one, b, out_axes=oa)(x)
        ax = (oa, oa, oa) if isinstance(oa, int) else oa
        return [jnp.moveaxis(o, a, 0) for o, a in zip(out, ax)]

    def ref(S):
        outs = [[], [], []]
        for k in range(B):
            (o,) = run_ref(fn, (jax.ShapeDtypeStruct(shape, np.float64),), jets_of_inputs([S['x'][k : k + 1].reshape(shape)]))
            v, J, L = split_jets(o, n)
            for lst, e in zip(outs, (v, L, J)):
                lst.append(e)
        return [np.stack(o) for o in outs]

    return Case(f'laplacian {name} thr={t} b={b} out={oa}', {'x': Var((B, *shape))}, impl, ref, st)


def cases(tier, rng):
    out = []
    for name, fn, shapes, ia, oa, tree, kw in progs():
        sizes = (1, 2, 3, 4, 5, 6) if name not in ('six', 'eight', 'prime') else (1, 2, 3, 4, 5, 6, 7, 8)
        for b in sizes:
            out.append(batch_case(name, fn, shapes, ia, oa, tree, kw, b))
        out.append(batch_case(name, fn, shapes, ia, oa, tree, kw, 2, jit=True))
        if tier == 'thorough':
            for b in (3, 100):
                out.append(batch_case(name, fn, shapes, ia, oa, tree, kw, b, jit=True))
    # every division of a batch of up to B samples
    top = 9 if tier == 'quick' else 17
    for B in range(1, top):
        for b in range(1, B + 2):
            out.append(batch_case(f'batch {B}', lambda x, y: (q(x, y), x), [(1, B), (B,)], (1, 0), 0,
                                  lambda xs: tuple(xs), {}, b))
    # random layouts
    for k in range(70 if tier == 'quick' else 400):
        na, B, b = rng.choice([1, 2, 3, 4]), rng.choice([2, 3, 4, 5]), rng.choice([1, 2, 3, 4])
        shapes, axes = [], []
        mapped = rng.randrange(na)
        for i in range(na):
            inner = [rng.choice([1, 2]) for _ in range(rng.choice([0, 1, 2]))]
            ax = rng.randrange(len(inner) + 1)
            if i != mapped and rng.random() < 0.45:
                axes.append(None)
            else:
                axes.append(ax - (len(inner) + 1 if rng.random() < 0.3 else 0))
                inner.insert(ax, B)
            shapes.append(tuple(inner))
        oa = (rng.choice([0, 1, -1]), rng.choice([0, 0, 0]))
        out.append(batch_case(f'random {k} {shapes} {axes} {oa}', lambda *x: (rows(x[0].reshape(-1, 1)), q(*x)), shapes,
                              tuple(axes), oa, lambda xs: tuple(xs), {}, b))
    for name, fn, shape in [('mlp', lambda x: jnp.tanh(np.array([[1.0, -2.0], [0.5, 3.0]]) @ x).sum(), (2,)),
                            ('any', lambda x: q(x), (2,)), ('slogdet', lambda x: jnp.linalg.slogdet(x)[1], (2, 2)),
                            ('pairs', lambda x: x[:, None] * x, (2,))]:
        for t in (0, 2):
            for b in (1, 2, 3):
                out.append(laplacian_case(name, fn, shape, t, b, 3))
            if name == 'pairs':
                out.append(laplacian_case(name, fn, shape, t, 2, 3, (1, 2, -1)))
    return out
