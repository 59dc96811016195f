"""C10: arguments and results of any structure, keyword arguments, composition."""
from typing import NamedTuple

from .common import *
from .programs import PROGRAMS


class Pair(NamedTuple):
    a: object
    b: object


def q(*xs):
    """One number that depends on all elements of all arguments."""
    e = [x.ravel()[i] for x in xs for i in range(x.size)]
    return opq('q', *e)


def progs():
    V = Var
    return [
        ('two', lambda x, y: q(x, y), [V((2,)), V((1,))], None),
        ('three', lambda x, y, z: (x * z).sum() * y + q(x, y), [V((2,)), V(()), V((2,))], None),
        ('scalars', lambda x, y: jnp.sin(x) * y, [V(()), V(())], None),
        ('mixed shapes', lambda x, y: x @ y, [V((2, 2)), V((2,))], None),
        ('dict', lambda d: d['u'] * q(d['v']), [V((2,)), V((1,))], lambda xs: ({'u': xs[0], 'v': xs[1]},)),
        ('unsorted dict', lambda d: d['z'] * d['a'] ** 2, [V((2,)), V((2,))], lambda xs: ({'z': xs[1], 'a': xs[0]},)),
        ('list', lambda l: l[0] * q(l[1]) + l[1].sum(), [V((2,)), V((2,))], lambda xs: (list(xs),)),
        ('nested', lambda t, y: t[0]['k'] * t[1][0].sum() * y, [V((2,)), V((1,)), V(())],
         lambda xs: (({'k': xs[0]}, [xs[1]]), xs[2])),
        ('namedtuple', lambda p: Pair(p.b * p.a, q(p.a)), [V((2,)), V((2,))], lambda xs: (Pair(*xs),)),
        ('none inside', lambda t: t[0] * t[2] ** 2, [V((2,)), V(())], lambda xs: ((xs[0], None, xs[1]),)),
        ('unused', lambda x, y: x**2, [V((2,)), V((2,))], None),
        ('unused first', lambda x, y: jnp.outer(y, y), [V((1,)), V((2,))], None),
        ('tuple out', lambda x, y: (x * y, (y, x.sum())), [V((2,)), V((2,))], None),
        ('dict out', lambda x: {'b': x[::-1], 'a': q(x), 'c': [x, x]}, [V((2,))], None),
        ('none out', lambda x: (x * x, None), [V((2,))], None),
        ('constant out', lambda x: (x * x, jnp.arange(3.0), 2.0), [V((2,))], None),
        ('only constants', lambda x: jnp.ones(2), [V((2,))], None),
        ('identity', lambda x: x, [V((2, 1))], None),
        ('identity of two', lambda x, y: (y, x), [V((2,)), V((1,))], None),
        ('same out twice', lambda x: (lambda y: (y, y))(q(x) * x), [V((2,))], None),
        ('empty argument', lambda x, y: x * 2.0 + y.sum(), [V((2,)), V((0,))], None),
        ('empty result', lambda x: (x[:0] * 3.0, x.sum() ** 2), [V((2,))], None),
        ('closure', (lambda c: lambda x: q(x) * c @ x)(np.array([1.0, -2.0])), [V((2,))], None),
        ('static branch', lambda x: x**2 if x.ndim == 1 else x, [V((2,))], None),
        ('integers inside', lambda x: x * jnp.arange(2) + jnp.int32(3), [V((2,))], None),
    ]


def stages():
    """g after f: the forward Laplacian of g applied to that of f."""
    return [
        ('sin of product', lambda x: x * x[::-1], lambda y: jnp.sin(y).sum()),
        ('tuple between', lambda x: (x[:1], jnp.outer(x, x)), lambda t: t[1] @ (t[0] * t[1][0])),
        ('dictionary between', lambda x: {'s': q(x), 'v': x**2}, lambda d: d['s'] * d['v']),
        ('constants between', lambda x: (x, jnp.ones(2)), lambda t: q(t[0]) * t[1] + t[0]),
        ('opaque', lambda x: opq('f', x), lambda y: opq('g', y[0], y[1])),
        ('matrix', lambda x: jnp.stack([x, x**2]), lambda m: jnp.linalg.slogdet(m)[1]),
        ('gather', lambda x: jnp.concatenate([x, x]), lambda y: (y[np.array([2, 0])] * y[:2]).cumsum()),
    ]


def cases(tier, rng):
    out = []
    for name, fn, inputs, tree in progs():
        n = sum(int(np.prod(v.shape)) for v in inputs)
        for t in (0, 1, n, 0.7):
            out.append(input_case(f'{name} thr={t}', fn, inputs, threshold=t, tree=tree))
        for t in (0, n):
            out.append(input_case(f'{name} jitted thr={t}', fn, inputs, threshold=t, tree=tree, disable_jit=False))
    # keyword arguments are constants
    kw = [
        ('kw scalar', lambda x, s=1.0: jnp.sin(x * s), dict(s=3.0)),
        ('kw array', lambda x, c: (x * c) @ x, dict(c=np.array([1.0, -2.0]))),
        ('kw tree', lambda x, p: jnp.tanh(p['w'] @ x + p['b']), dict(p={'w': np.eye(2) * 2.0, 'b': np.ones(2)})),
        ('kw two', lambda x, *, a, b=2.0: a * x**2 + b, dict(a=np.array(0.5))),
        ('kw unused', lambda x, a=None: x.prod(), dict(a=np.ones(3))),
    ]
    for name, fn, k in kw:
        for t in (0, 2):
            for jit in (True, False):
                out.append(input_case(f'{name} thr={t} jit={jit}', fn, [Var((2,))], threshold=t, fn_kwargs=k,
                                      disable_jit=not jit))
    # symbolic parameters
    for t in (0, 1, 2):
        out.append(input_case(f'parameters thr={t}',
                              lambda p, x: jnp.tanh(p['w'] @ x + p['b']) @ p['b'], [Var((2,))], threshold=t,
                              params={'w': Var((2, 2)), 'b': Var((2,))}))
        out.append(input_case(f'parameters only {t}', lambda p, x: p['b'] * 2.0, [Var((2,))], threshold=t,
                              params={'b': Var((2,))}))
    # composition
    for name, f, g in stages():
        for shape in ((2,),):
            for t1, t2 in ((0, 0), (2, 2), (2, 0), (0, 2), (1, 2), (2, 1)):
                out.append(compose(f'{name} thr={t1},{t2}', f, g, shape, t1, t2))
    for name, f in [('forward of itself', lambda x: x * x[::-1])]:
        out.append(compose(name, f, lambda y: f(f(y)), (2,), 2, 2))
    for m in ('dense', 'own', 'two', 'dup', 'part'):
        # only some arguments carry derivatives
        for t in ((0, 3) if m != 'dense' else (0,)):
            out.append(step('constant first', lambda c, x: q(c, x) * x, [((2,), 'const'), ((2,), m)], 3, t))
            out.append(step('constant between', lambda x, c, y: (x * c + y) ** 2 * c,
                            [((2,), m), ((2,), 'const'), ((2,), 'own')], 3, max(t, 3)))
            out.append(step('constant last', lambda x, c: x @ c, [((2,), m), ((2,), 'const')], 3, t))
            out.append(step('tree of states', lambda x, y: {'a': x * y, 'b': (y,)},
                            [((2,), m), ((), 'dense')], 3, t))
    return out


def compose(name, f, g, shape, t1, t2):
    n = int(np.prod(shape))
    st = Structure()

    def impl(x):
        st.bad.clear()
        mid = folx.forward_laplacian(f, t1, disable_jit=True)(x)
        out = folx.forward_laplacian(g, t2, disable_jit=True)(mid)
        st.output(out, jax.eval_shape(lambda x: g(f(x)), x))
        return triples(out, n)

    def ref(S):
        return ref_triples(run_ref(lambda x: g(f(x)), (jax.ShapeDtypeStruct(shape, np.float64),),
                                   tuple(jets_of_inputs([S['x']]))), n)

    return Case(name, {'x': Var(shape)}, impl, ref, st)


import folx  # noqa: E402
