"""C15: the three Laplacian operators give the Laplacian and the gradient."""
import folx

from .common import *
from .programs import PROGRAMS, generate

OPS = {
    'loop': lambda: folx.LoopLaplacianOperator(),
    'parallel': lambda: folx.ParallelLaplacianOperator(),
}


def q(*x):
    e = [a.ravel()[i] for a in x for i in range(a.size)]
    return opq('q', *e)


def funcs():
    return [
        ('any of one', lambda x: q(x), (1,)),
        ('any of three', lambda x: q(x), (3,)),
        ('any of a matrix', lambda x: q(x), (2, 2)),
        ('any of a row', lambda x: q(x), (1, 3)),
        ('any of a number', lambda x: q(x), ()),
        ('any of rank three', lambda x: q(x), (2, 1, 2)),
        ('sum of parts', lambda x: sum(q(x[i]) for i in range(3)), (3,)),
        ('rows', lambda x: q(x[0]) + q(x[1]) * q(x[0]), (2, 2)),
        ('quadratic', lambda x: x @ np.array([[1.0, 2.0], [3.0, -1.0]]) @ x, (2,)),
        ('linear', lambda x: (x * np.arange(3.0)).sum(), (3,)),
        ('product', lambda x: x.prod(), (3,)),
        ('power of sum', lambda x: x.sum() ** 3, (2, 2)),
        ('gaussian', lambda x: jnp.exp(-0.5 * (x**2).sum()), (3,)),
        ('first', lambda x: q(x[0], x[1]), (3,)),
        ('last', lambda x: x[2] ** 2, (3,)),
        ('partial', lambda x: jnp.sin(x[0]) * x[2], (3,)),
        ('mlp', lambda x: jnp.tanh(np.array([[1.0, -2.0], [0.5, 3.0]]) @ x).sum(), (2,)),
        ('transposed', lambda x: q(x.T[0]) + (x.T @ x).sum(), (2, 2)),
        ('slogdet', lambda x: jnp.linalg.slogdet(x)[1], (2, 2)),
        ('maximum', lambda x: (x * x).max(), (2,)),
        ('where', lambda x: jnp.where(x[0] > 0, x[0] ** 2, x[1] ** 3), (2,)),
        ('kinks', lambda x: jnp.abs(x).sum() * x[0], (2,)),
        ('inner jit', lambda x: jax.jit(lambda y: q(y) * y[0])(x), (2,)),
        ('scan', lambda x: jax.lax.scan(lambda c, w: (c * jnp.sin(x * w), None), x, np.array([1.0, 2.0]))[0].sum(), (2,)),
        ('constant', lambda x: jnp.ones(()) * 3.0, (2,)),
        ('stopped', lambda x: jax.lax.stop_gradient(q(x)) * x[0] ** 2, (2,)),
        ('float result', lambda x: jnp.linalg.norm(x), (3,)),
        ('complex inside', lambda x: jnp.abs(jnp.exp(1j * x) + 2.0).sum(), (2,)),
    ]


def op_case(name, f, shape, make, under=None, dom=None, dtype=None):
    n = int(np.prod(shape, dtype=int))
    st = Structure()
    under = under or (lambda g: g)

    def impl(x):
        st.bad.clear()
        lap, jac = under(make()(f))(x)
        st.expect(lap.shape == (), f'Laplacian of shape {lap.shape}')
        st.expect(jac.shape == (n,), f'gradient of shape {jac.shape}')
        want = jax.eval_shape(f, x).dtype
        st.expect(want != x.dtype or lap.dtype == want and jac.dtype == want, f'types {lap.dtype}, {jac.dtype}')
        return [lap, jac]

    def ref(S):
        av = jax.ShapeDtypeStruct(shape, np.dtype(dtype or np.float64))
        (o,) = run_ref(f, (av,), jets_of_inputs([S['x']]))
        _, J, L = split_jets(o, n)
        return [L, J]

    v = Var(shape, dtype=dtype, **(dom or {}))
    return Case(name, {'x': v}, impl, ref, st, tol=1e-3 if dtype == 'float32' else 1e-6)


def batch_case(name, f, shape, make, b):
    """Under vmap, as it is used over samples."""
    n = int(np.prod(shape, dtype=int))
    st = Structure()

    def impl(x):
        st.bad.clear()
        lap, jac = jax.vmap(make()(f))(x)
        st.expect(lap.shape == (b,) and jac.shape == (b, n), f'shapes {lap.shape}, {jac.shape}')
        return [lap, jac]

    def ref(S):
        av = jax.ShapeDtypeStruct(shape, np.float64)
        Ls, Js = [], []
        for k in range(b):
            (o,) = run_ref(f, (av,), jets_of_inputs([S['x'][k : k + 1].reshape(shape)]))
            _, J, L = split_jets(o, n)
            Ls.append(L)
            Js.append(J)
        return [np.stack(Ls), np.stack(Js)]

    return Case(name, {'x': Var((b, *shape))}, impl, ref, st)


def cases(tier, rng):
    out = []
    fs = funcs()
    seen = set()
    while len(seen) < (10 if tier == 'quick' else 80):
        shape = rng.choice([(2,), (3,), (2, 2)])
        d, g = generate(rng, shape, rng.choice([3, 4]))
        if d in seen or d == 'x':
            continue
        seen.add(d)
        fs.append((d, lambda x, g=g: g(x).sum(), shape))
    for fn, shapes, dom in PROGRAMS:
        if len(shapes) == 1 and (tier == 'thorough' or len(out) % 3 == 0):
            fs.append((fn.__name__, lambda x, fn=fn: sum(l.sum() for l in jax.tree_util.tree_leaves(fn(x))),
                       shapes[0], dom))
    for name, f, shape, *dom in fs:
        if name == 'float result':
            dom = [{'lo': 0.2}]
        n = int(np.prod(shape, dtype=int))
        ts = sorted({0, 1, n, n + 1}) if tier == 'thorough' else sorted({0, max(n - 1, 1), n})
        dom = dom[0] if dom else None
        ops = dict(OPS) | {f'forward thr={t}': lambda t=t: folx.ForwardLaplacianOperator(t) for t in ts}
        ops['forward thr=0.6'] = lambda: folx.ForwardLaplacianOperator(0.6)
        for k, make in ops.items():
            out.append(op_case(f'{name} {k}', f, shape, make, dom=dom))
    for name, f, shape in funcs()[:12]:
        for k, make in (OPS | {'forward': lambda: folx.ForwardLaplacianOperator(2)}).items():
            out.append(op_case(f'{name} {k} under jit', f, shape, make, jax.jit))
            out.append(op_case(f'{name} {k} float32', f, shape, make, dtype='float32'))
            if len(shape) < 3 and shape != (2, 2):
                out.append(batch_case(f'{name} {k} under vmap', f, shape, make, 2))
    return out
