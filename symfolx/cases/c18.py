"""C18: jacrev, jacfwd and hessian of functions from and to real and complex numbers."""
import jax.tree_util as jtu

from folx import ad

from .. import expr as X
from ..alg import Cx, Jet
from ..interp import lift_array
from .common import *


def q(*x):
    e = [a.ravel()[i] for a in x for i in range(a.size)]
    return opq('q', *e)


def mixv(x):
    f = x.ravel()
    return jnp.stack([opq('g', f[i], f[(i + 1) % f.size]) for i in range(f.size)])


def directional(fn, avals, tree, arrs, v, cplx):
    """f, f'v and v^T f'' v of every result, flattened; v has one number per input.

    Complex inputs move along the real direction: for holomorphic functions that is
    the complex derivative."""
    k, jets = 0, []
    for a in arrs:
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            if cplx:
                b[i] = Cx(Jet(a[i].re, [v[k]], X.ZERO), Jet(a[i].im, [X.ZERO], X.ZERO))
            else:
                b[i] = Jet(a[i], [v[k]], X.ZERO)
            k += 1
        jets.append(b)
    outs = run_ref(fn, avals, tree(jets))
    vs, js, hs = [], [], []
    for o in outs:
        val, J, L = split_jets(o, 1)
        vs += [np.atleast_1d(val).ravel()]
        js += [np.atleast_1d(J[0]).ravel()]
        hs += [np.atleast_1d(L).ravel()]
    return [np.concatenate(z) for z in (vs, js, hs)]


def unit(n, *idx):
    v = [X.ZERO] * n
    for i in idx:
        v[i] = X.ONE
    return v


def jac_ref(fn, avals, tree, arrs, cplx):
    """(number of results, number of inputs)"""
    n = sum(a.size for a in arrs)
    return np.stack([directional(fn, avals, tree, arrs, unit(n, i), cplx)[1] for i in range(n)], -1)


def sub(a, b):
    f = lambda x, y: Cx(X.sub(x.re, y.re), X.sub(x.im, y.im)) if isinstance(x, Cx) else X.sub(x, y)
    return np.vectorize(f, otypes=[object])(*align2(a, b))


def align2(a, b):
    from ..case import align

    return align(a, b)


def half(a):
    h = X.const(0.5)
    f = lambda x: Cx(X.mul(h, x.re), X.mul(h, x.im)) if isinstance(x, Cx) else X.mul(h, x)
    return np.vectorize(f, otypes=[object])(a)


def hess_ref(fn, avals, tree, arrs, cplx):
    n = sum(a.size for a in arrs)
    d = lambda *idx: directional(fn, avals, tree, arrs, unit(n, *idx), cplx)[2]
    diag = [d(i) for i in range(n)]
    m = diag[0].size
    H = np.empty((m, n, n), dtype=object)
    for i in range(n):
        H[:, i, i] = diag[i]
        for j in range(i):
            e = half(sub(sub(d(i, j), diag[i]), diag[j]))
            H[:, i, j] = H[:, j, i] = e
    return H


def ad_case(kind, name, fn, vars, tree=None):
    tree = tree or (lambda xs: tuple(xs))
    cplx = any(v.complex for v in vars.values())
    n = sum(int(np.prod(v.shape, dtype=int)) for v in vars.values())
    st = Structure()
    avals = tree([jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for v in vars.values()])

    def impl(**a):
        st.bad.clear()
        args = tree(list(a.values()))
        out = jax.eval_shape(fn, *args)
        outs = jtu.tree_leaves(out)
        m = sum(int(np.prod(o.shape, dtype=int)) for o in outs)
        if kind == 'jacfwd':
            J = ad.jacfwd(fn)(*args)
            leaves = jtu.tree_leaves(J)
            st.expect(jtu.tree_structure(J) == jtu.tree_structure(out), 'structure of the result')
            for l, o in zip(leaves, outs):
                st.expect(l.shape == (*o.shape, n), f'{l.shape} for a result of shape {o.shape}')
                st.expect(l.dtype == o.dtype, f'{l.dtype} for a result of type {o.dtype}')
            return [jnp.concatenate([l.reshape(-1, n) for l in leaves])]
        if kind == 'jacrev':
            J = ad.jacrev(fn)(*args)
            want = args[0] if len(args) == 1 else args
            st.expect(jtu.tree_structure(J) == jtu.tree_structure(want), 'structure of the result')
            leaves = jtu.tree_leaves(J)
            for l, i in zip(leaves, jtu.tree_leaves(want)):
                st.expect(l.shape == (m, *i.shape), f'{l.shape} for an input of shape {i.shape}')
            return [jnp.concatenate([l.reshape(m, -1) for l in leaves], -1)]
        H = ad.hessian(fn)(*args)
        leaves = jtu.tree_leaves(H)
        for l, i in zip(leaves, jtu.tree_leaves(args)):
            st.expect(l.shape == (m, *i.shape, n), f'{l.shape} for an input of shape {i.shape}')
        return [jnp.concatenate([l.reshape(m, -1, n) for l in leaves], 1)]

    def ref(S):
        arrs = [S[k] for k in vars]
        if kind == 'hessian':
            return [hess_ref(fn, avals, tree, arrs, cplx)]
        return [jac_ref(fn, avals, tree, arrs, cplx)]

    return Case(f'{kind} {name}', vars, impl, ref, st)


def vjp_case(name, fn, vars):
    """v -> v^T J, for every real or complex vector v."""
    cplx = any(v.complex for v in vars.values())
    st = Structure()
    avals = tuple(jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for v in vars.values())
    out = jax.eval_shape(fn, *avals)
    vars = dict(vars)
    keys = list(vars)
    vars['v'] = Var(out.shape, complex=jnp.issubdtype(out.dtype, jnp.complexfloating))

    def impl(v, **a):
        st.bad.clear()
        args = [a[k] for k in keys]
        res = ad.vjp(fn, *args)(v)
        st.expect(len(res) == len(args), f'{len(res)} results')
        for r, x in zip(res, args):
            st.expect(r.shape == x.shape, f'{r.shape} for an input of shape {x.shape}')
        return [jnp.concatenate([r.ravel() for r in res])]

    def ref(S):
        arrs = [S[k] for k in keys]
        J = jac_ref(fn, avals, lambda xs: tuple(xs), arrs, cplx)
        v = S['v'].ravel()
        out = []
        for i in range(J.shape[1]):
            acc = None
            for k in range(len(v)):
                t = cmul(v[k], J[k, i])
                acc = t if acc is None else cadd(acc, t)
            out.append(acc)
        return [np.array(out, dtype=object)]

    return Case(f'vjp {name}', vars, impl, ref, st)


def parts(a):
    return (a.re, a.im) if isinstance(a, Cx) else (a, X.ZERO)


def cmul(a, b):
    if not isinstance(a, Cx) and not isinstance(b, Cx):
        return X.mul(a, b)
    (ar, ai), (br, bi) = parts(a), parts(b)
    return Cx(X.sub(X.mul(ar, br), X.mul(ai, bi)), X.add(X.mul(ar, bi), X.mul(ai, br)))


def cadd(a, b):
    if not isinstance(a, Cx) and not isinstance(b, Cx):
        return X.add(a, b)
    (ar, ai), (br, bi) = parts(a), parts(b)
    return Cx(X.add(ar, br), X.add(ai, bi))


M = np.array([[1.0 + 2.0j, 0.5], [-1.0j, 2.0]])


def funcs():
    V = Var
    R = [
        ('number', lambda x: q(x), [V((2,))]),
        ('of a number', lambda x: q(x), [V(())]),
        ('vector', lambda x: mixv(x), [V((3,))]),
        ('matrix', lambda x: mixv(x).reshape(2, 2) @ x, [V((2, 2))]),
        ('shaped', lambda x: mixv(x).reshape(1, 2, 1), [V((2,))]),
        ('two arguments', lambda x, y: jnp.stack([q(x, y), x[0] * y]), [V((2,)), V(())]),
        ('three arguments', lambda x, y, z: (x @ y) * z, [V((2, 1)), V((1,)), V((2,))]),
        ('constant', lambda x: jnp.ones(2), [V((2,))]),
        ('linear', lambda x: x[::-1] * 2.0, [V((3,))]),
        ('polynomial', lambda x: jnp.outer(x, x) * x, [V((2,))]),
        # real to complex
        ('to complex', lambda x: q(x) + 1j * opq('h', x[1], x[0]), [V((2,))]),
        ('phase', lambda x: jnp.exp(1j * x), [V((2,))]),
        ('to complex matrix', lambda x: M @ x, [V((2,))]),
        ('to complex, two arguments', lambda x, y: x * jnp.exp(1j * y) + y, [V((2,)), V((2,))]),
        ('conjugate', lambda x: jnp.conj((1 + 2j) * x**2), [V((2,))]),
        ('purely imaginary', lambda x: 1j * q(x), [V((2,))]),
        ('back to real', lambda x: jnp.abs(jnp.exp(1j * x) + 2.0) ** 2, [V((2,))]),
    ]
    C = [
        ('complex square', lambda z: z * z, [V((2,), complex=True)]),
        ('complex cube', lambda z: z**3 * (1 + 2j), [V((2,), complex=True)]),
        ('complex exp', lambda z: jnp.exp(z).sum(), [V((2,), complex=True)]),
        ('complex product', lambda z: jnp.outer(z, z), [V((2,), complex=True)]),
        ('complex matrix', lambda z: M @ z * z[::-1], [V((2,), complex=True)]),
        ('complex, two arguments', lambda z, w: z * w + w**2, [V((2,), complex=True), V((1,), complex=True)]),
        ('complex sine', lambda z: jnp.sin(z), [V((1,), complex=True)]),
        ('complex reciprocal', lambda z: 1.0 / (z + 3.0), [V((1,), complex=True)]),
    ]
    return R, C


def cases(tier, rng):
    out = []
    R, C = funcs()
    for name, fn, vs in R + C:
        vars = {f'x{i}': v for i, v in enumerate(vs)}
        for kind in ('jacfwd', 'jacrev', 'hessian'):
            out.append(ad_case(kind, name, fn, vars))
        out.append(vjp_case(name, fn, vars))
    trees = [
        ('dict', lambda d: jnp.stack([q(d['a'], d['b']), d['b'][0] * d['a']]), [Var(()), Var((2,))],
         lambda xs: ({'a': xs[0], 'b': xs[1]},)),
        ('dict and array', lambda d, z: q(d['a'], z) * d['b'], [Var(()), Var((2,)), Var((1,))],
         lambda xs: ({'a': xs[0], 'b': xs[1]}, xs[2])),
        ('nested to complex', lambda d: q(d[0]) + 1j * d[1][0], [Var((2,)), Var((1,))], lambda xs: ([xs[0], (xs[1],)],)),
    ]
    for name, fn, vs, tree in trees:
        vars = {f'x{i}': v for i, v in enumerate(vs)}
        for kind in ('jacfwd', 'jacrev', 'hessian'):
            out.append(ad_case(kind, name, fn, vars, tree))
    results = [
        ('two results', lambda x: (q(x), mixv(x)), [Var((2,))]),
        ('dict of results', lambda x: {'u': mixv(x).reshape(1, 2), 'v': x[0] * x}, [Var((2,))]),
        ('two complex results', lambda x: (jnp.exp(1j * x), 1j * x**2), [Var((2,))]),
    ]
    for name, fn, vs in results:
        vars = {f'x{i}': v for i, v in enumerate(vs)}
        for kind in ('jacfwd', 'jacrev', 'hessian'):
            out.append(ad_case(kind, name, fn, vars))
    return out
