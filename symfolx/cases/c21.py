"""C21: the transformation can be compiled, batched over samples, differentiated and reused."""
import folx

from .common import *
from .programs import PROGRAMS, generate


def q(*x):
    e = [a.ravel()[i] for a in x for i in range(a.size)]
    return opq('q', *e)


M = np.array([[1.0, -2.0], [0.5, 3.0]])


def funcs():
    return [
        ('any', lambda x: q(x), (2,)),
        ('vector', lambda x: q(x) * x, (2,)),
        ('matrix', lambda x: jnp.outer(x, x) @ x, (2,)),
        ('rows', lambda x: jnp.stack([q(x[0]), q(x[1])]), (2, 2)),
        ('mlp', lambda x: jnp.tanh(M @ x).sum(), (2,)),
        ('slogdet', lambda x: jnp.linalg.slogdet(x)[1], (2, 2)),
        ('linear', lambda x: x[::-1].cumsum(), (3,)),
        ('moves', lambda x: jnp.concatenate([x[1:], x[:1] ** 2]).reshape(3, 1), (3,)),
        ('maximum', lambda x: (x * x).max(), (2,)),
        ('inner jit', lambda x: jax.jit(lambda y: q(y) * y)(x), (2,)),
        ('scan', lambda x: jax.lax.scan(lambda c, w: (jnp.sin(c * w), c), x, np.array([1.0, 2.0])), (2,)),
        ('two results', lambda x: (q(x), x[:1]), (2,)),
        ('constant result', lambda x: (q(x), jnp.ones(2)), (2,)),
        ('pairs', lambda x: (x[:, None] - x[None]) ** 2, (2,)),
        ('first of three', lambda x: q(x[0]), (3,)),
        ('number', lambda x: q(x) ** 2, ()),
        ('complex', lambda x: jnp.exp(1j * x) * x, (2,)),
    ]


def dense(f, thr, n, disable_jit):
    """The dense results, made inside of one trace."""

    def g(*x):
        return triples(folx.forward_laplacian(f, thr, disable_jit=disable_jit)(*x), n)

    return g


def jit_case(name, f, shape, thr, how):
    n = int(np.prod(shape, dtype=int))

    def impl(x):
        if how == 'jit':
            return jax.jit(dense(f, thr, n, True))(x)
        if how == 'default':
            return dense(f, thr, n, False)(x)
        if how == 'jit of default':
            return jax.jit(dense(f, thr, n, False))(x)
        if how == 'checkpoint':
            return jax.checkpoint(dense(f, thr, n, True))(x)
        if how == 'scan':
            g = dense(f, thr, n, True)
            out = jax.lax.scan(lambda c, y: (c, g(y)), 0.0, x[None])[1]
            return [o[0] for o in out]
        if how == 'while':
            g = dense(f, thr, n, True)
            zero = jax.tree_util.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), jax.eval_shape(g, x))
            return jax.lax.fori_loop(0, 1, lambda i, c: g(x), zero)
        raise ValueError(how)

    def ref(S):
        return ref_triples(run_ref(f, (jax.ShapeDtypeStruct(shape, np.float64),), jets_of_inputs([S['x']])), n)

    return Case(f'{name} {how} thr={thr}', {'x': Var(shape)}, impl, ref)


def vmap_case(name, f, shape, thr, disable_jit, axis, B=2, nested=False):
    n = int(np.prod(shape, dtype=int))
    full = list(shape)
    full.insert(axis, B)

    def impl(x):
        g = dense(f, thr, n, disable_jit)
        if nested:
            out = jax.vmap(jax.vmap(g))(jnp.moveaxis(x, axis, 0)[None])
            return [o[0] for o in out]
        return jax.vmap(g, in_axes=axis)(x)

    def ref(S):
        outs = None
        for k in range(B):
            x = S['x'].take([k], axis).reshape(shape)
            r = ref_triples(run_ref(f, (jax.ShapeDtypeStruct(shape, np.float64),), jets_of_inputs([x])), n)
            outs = [[] for _ in r] if outs is None else outs
            for l, e in zip(outs, r):
                l.append(e)
        return [np.stack(l) for l in outs]

    tag = ('nested vmap' if nested else f'vmap {axis}') + ('' if disable_jit else ' of default')
    return Case(f'{name} {tag} thr={thr}', {'x': Var(tuple(full))}, impl, ref)


def shared_case(name, f, pshape, shape, thr, B=2):
    """Parameters shared by all samples: vmap with in_axes (None, 0)."""
    n = int(np.prod(shape, dtype=int))

    def impl(p, x):
        return jax.vmap(lambda p, x: dense(lambda y: f(p, y), thr, n, True)(x), in_axes=(None, 0))(p, x)

    def ref(S):
        outs = None
        av = (jax.ShapeDtypeStruct(pshape, np.float64), jax.ShapeDtypeStruct(shape, np.float64))
        for k in range(B):
            x = S['x'][k : k + 1].reshape(shape)
            r = ref_triples(run_ref(f, av, [S['p'], *jets_of_inputs([x])]), n)
            outs = [[] for _ in r] if outs is None else outs
            for l, e in zip(outs, r):
                l.append(e)
        return [np.stack(l) for l in outs]

    return Case(f'{name} shared parameters thr={thr}', {'p': Var(pshape), 'x': Var((B, *shape))}, impl, ref)


def textbook(f, p, x):
    """Laplacian of f(p, .) from nested differentiation by JAX."""
    flat = x.ravel()
    g = jax.grad(lambda y: f(p, y.reshape(x.shape)))
    eye = np.eye(flat.size)
    return sum(jnp.vdot(eye[i], jax.jvp(g, (flat,), (eye[i],))[1]) for i in range(flat.size))


def grad_case(name, f, pshape, shape, thr, how, disable_jit=True):
    """Derivatives of value, gradient and Laplacian by parameters."""
    n = int(np.prod(shape, dtype=int))
    av = (jax.ShapeDtypeStruct(pshape, np.float64), jax.ShapeDtypeStruct(shape, np.float64))

    def folx_parts(p, x):
        out = folx.forward_laplacian(lambda y: f(p, y), thr, disable_jit=disable_jit)(x)
        return out.x, dense_jacobian(out.jacobian, n).sum(), out.laplacian

    def jax_parts(p, x):
        return f(p, x), jax.grad(lambda y: f(p, y))(x).sum(), textbook(f, p, x)

    def derive(parts):
        def g(p, x):
            if how == 'grad':
                return [jax.grad(lambda p: parts(p, x)[i])(p) for i in range(3)]
            if how == 'grad of x':
                return [jax.grad(lambda y: parts(p, y)[i])(x) for i in (0, 2)]
            if how == 'local energy':
                o = lambda p: (lambda v, j, l: -0.5 * (l + j * j) * v)(*parts(p, x))
                return [jax.grad(o)(p)]
            return list(jax.jvp(lambda p: parts(p, x), (p,), (jnp.ones(pshape),))[1])

        return g

    def impl(p, x):
        return derive(folx_parts)(p, x)

    def ref(S):
        return run_ref(derive(jax_parts), av, [S['p'], S['x']])

    return Case(f'{name} {how} thr={thr}' + ('' if disable_jit else ' jitted'), {'p': Var(pshape), 'x': Var(shape)}, impl, ref)


def reuse_case(name, f, calls, thr, disable_jit=False, jit=False):
    """One transformed function called with several inputs, one after the other."""
    vars = {f'x{i}': Var(s, dtype=d) for i, (s, d) in enumerate(calls)}
    st = Structure()

    def impl(**a):
        st.bad.clear()
        fwd = folx.forward_laplacian(f, thr, disable_jit=disable_jit)
        if jit:
            fwd = jax.jit(fwd)
        out = []
        for i, (s, d) in enumerate(calls):
            n = int(np.prod(s, dtype=int))
            o = fwd(a[f'x{i}'])
            st.output(o, jax.eval_shape(f, a[f'x{i}']))
            out += triples(o, n)
        return out

    def ref(S):
        out = []
        for i, (s, d) in enumerate(calls):
            n = int(np.prod(s, dtype=int))
            av = (jax.ShapeDtypeStruct(s, np.dtype(d or np.float64)),)
            out += ref_triples(run_ref(f, av, jets_of_inputs([S[f'x{i}']])), n)
        return out

    low = any(d == 'float32' for _, d in calls)
    return Case(f'{name} thr={thr} {"" if disable_jit else "jitted"}{" jit" if jit else ""}', vars, impl, ref, st,
                tol=1e-3 if low else 1e-6)


def arranged():
    """Programs on a (2, 2) array, each of them used with several arrangements of the inputs."""
    return [
        ('prod', lambda y: y.prod(0)), ('prod1', lambda y: y.prod(1)), ('sum', lambda y: y.sum(0)), ('max', lambda y: y.max(0)),
        ('any rows', lambda y: jnp.stack([q(y[0]), q(y[1])])),
        ('product', lambda y: y * y[::-1]), ('pairs', lambda y: y[0, :, None] * y[1, None]), ('matmul', lambda y: y @ y.T),
        ('matvec', lambda y: y @ y[0]), ('division', lambda y: y[0] / y[1]), ('add', lambda y: y[0] + y[1]),
        ('scatter', lambda y: y.at[0].add(y[1])), ('set', lambda y: y.at[0].set(y[1] * y[0])),
        ('segment', lambda y: jax.ops.segment_sum(y, np.array([0, 0]), 2)),
        ('concatenate', lambda y: jnp.concatenate([y[0], y[1] * y[0]]) ** 2), ('cumsum', lambda y: jnp.cumsum(y, 0)),
        ('select', lambda y: jnp.where(np.array([True, False]), y[0], y[1]) * y[0]), ('index', lambda y: y[np.array([1, 1, 0])] * y[0]),
        ('slogdet', lambda y: jnp.linalg.slogdet(y)[1]), ('scan', lambda y: jax.lax.scan(lambda c, w: (c * w, c), y, np.ones(2))[0]),
        ('jit', lambda y: jax.jit(lambda a: (a * a[::-1]).sum(1))(y)), ('einsum', lambda y: jnp.einsum('ij,kj->ik', y, y[::-1])),
        ('abs', lambda y: jnp.abs(y[0] * y[1])), ('softmax', lambda y: jax.nn.softmax(y, 0)), ('sort', lambda y: jnp.sort(y, 0)),
    ]


ARRANGE = {
    'as is': np.array([[0, 1], [2, 3]]), 'transposed': np.array([[0, 2], [1, 3]]), 'reversed': np.array([[3, 2], [1, 0]]),
    'crossed': np.array([[0, 1], [3, 2]]), 'repeated': np.array([[0, 0], [3, 3]]), 'same': np.array([[1, 2], [1, 2]]),
    'one': np.array([[0, 0], [0, 0]]), 'half': np.array([[0, 3], [0, 3]]),
}


def history_case(name, f, orders, thr):
    """The same operations, one use after the other, on inputs arranged differently:
    what was found out about one use must not be taken for another."""
    vars = {'x': Var((4,))}
    g = [lambda x, o=o: f(x[ARRANGE[o]]) for o in orders]

    def impl(x):
        return [t for h in g for t in triples(folx.forward_laplacian(h, thr, disable_jit=True)(x), 4)]

    def ref(S):
        av = (jax.ShapeDtypeStruct((4,), np.float64),)
        return [t for h in g for t in ref_triples(run_ref(h, av, jets_of_inputs([S['x']])), 4)]

    return Case(f'{name} {" then ".join(orders)} thr={thr}', vars, impl, ref)


def cases(tier, rng):
    out = []
    fs = funcs()
    pairs = [('as is', 'transposed', 'reversed'), ('crossed', 'as is'), ('repeated', 'transposed'), ('half', 'same'), ('one', 'as is'),
             ('same', 'repeated')]
    for name, f in arranged():
        for k, orders in enumerate(pairs):
            if name == 'slogdet' and k > 1:
                continue  # equal rows
            for thr in (1, 2, 4):
                if tier == 'quick' and (thr == 1 or thr == 4 and k > 2) and name != 'prod':
                    continue
                out.append(history_case(name, f, orders, thr))
    seen = set()
    while len(seen) < (8 if tier == 'quick' else 60):
        shape = rng.choice([(2,), (3,), (2, 2)])
        d, g = generate(rng, shape, rng.choice([3, 4]))
        if d in seen or d == 'x':
            continue
        seen.add(d)
        fs.append((d, g, shape))
    for name, f, shape in fs:
        n = int(np.prod(shape, dtype=int))
        for thr in (0, n):
            for how in ('jit', 'default', 'jit of default', 'scan'):
                out.append(jit_case(name, f, shape, thr, how))
            out.append(vmap_case(name, f, shape, thr, True, 0))
            out.append(vmap_case(name, f, shape, thr, False, 0))
            if len(shape) == 1:
                out.append(vmap_case(name, f, shape, thr, True, 1))
        if tier == 'thorough' or not name.startswith('x'):
            for how in ('checkpoint', 'while'):
                out.append(jit_case(name, f, shape, n, how))
            out.append(vmap_case(name, f, shape, 1, True, 0, nested=True))
    P = [
        ('any of both', lambda p, x: q(p, x), (1,), (2,)),
        ('scaled', lambda p, x: (p * opq('g', x)).sum(), (2,), (2,)),
        ('mlp', lambda p, x: jnp.tanh(p * (M @ x)).sum(), (2,), (2,)),
        ('product', lambda p, x: p[0] * x.prod() + (p * x**2).sum(), (2,), (2,)),
        ('dot', lambda p, x: (p @ x) ** 3, (2,), (2,)),
        ('quadratic form', lambda p, x: x @ p @ x, (2, 2), (2,)),
        ('slogdet', lambda p, x: jnp.linalg.slogdet(p[0] * x)[1] * p[1], (2,), (2, 2)),
        ('gaussian', lambda p, x: jnp.exp(-p[0] * (x**2).sum()), (1,), (2,)),
        ('norms', lambda p, x: jnp.sqrt((x**2).sum() + p[0] ** 2 + 1.0), (1,), (2,)),
        ('inner jit', lambda p, x: jax.jit(lambda a, b: (opq('g', b) * a).sum())(p, x), (2,), (2,)),
        ('scan', lambda p, x: jax.lax.scan(lambda c, w: (c * jnp.sin(x * w), None), x, np.array([1.0, 2.0]))[0].sum() * p[0],
         (1,), (2,)),
    ]
    for name, f, ps, s in P:
        n = int(np.prod(s, dtype=int))
        for thr in (0, 1, n):
            for how in ('grad', 'local energy', 'jvp', 'grad of x'):
                out.append(grad_case(name, f, ps, s, thr, how))
            out.append(shared_case(name, f, ps, s, thr))
        out.append(grad_case(name, f, ps, s, n, 'grad', disable_jit=False))
    R = [
        ('shapes', lambda x: x * jnp.sin(x), [((2,), None), ((3,), None), ((2,), None)]),
        ('ranks', lambda x: x * x.sum(), [((2,), None), ((2, 1), None), ((), None)]),
        ('types', lambda x: x * x[::-1], [((2,), None), ((2,), 'float32'), ((2,), None)]),
        ('any', lambda x: q(x) * x, [((1,), None), ((2,), None)]),
        ('twice', lambda x: jnp.outer(x, x), [((2,), None), ((2,), None)]),
    ]
    for name, f, calls in R:
        for thr in (0, 2, 0.6):
            for dj, j in ((True, False), (False, False), (True, True)):
                if j and thr:
                    continue  # masks do not leave a compiled function inside of another
                out.append(reuse_case(name, f, calls, thr, dj, j))
    return out
