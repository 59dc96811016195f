"""Cases of more elements, inputs and axes than the rest of each list."""
import folx
from folx.api import FunctionFlags as F

from .common import *


def wrapped(fn, thr, **kw):
    def call(*s):
        return folx.wrap_forward_laplacian(fn, **kw)(tuple(s), {}, sparsity_threshold=thr)

    return call


R4 = (2, 1, 3, 2)
R5 = (2, 1, 2, 1, 2)


def c01():
    fns = [
        ('sin', jnp.sin, 1),
        ('x*y', lambda x, y: x * y, 2),
        ('x/y', lambda x, y: x / y, 2),
        ('x-y', lambda x, y: x - y, 2),
        ('x**3', lambda x: x**3, 1),
        ('logaddexp', jnp.logaddexp, 2),
    ]
    for name, f, k in fns:
        for shape, n in (((18,), 18), (R4, 12), (R5, 20)):
            for ms in (('own', 'rev'), ('part', 'own'), ('dense', 'own')):
                if 'dense' in ms and n > 18:
                    continue
                yield step(name, f, [(shape, m, dict(pos=True)) for m in ms[:k]], n, n if n < 20 else 3)


def c02():
    for shape, n in (((17,), 17), (R4, 13), (R5, 8)):
        for a, b in (('own', 'two'), ('part', 'rev'), ('dense', 'own')):
            yield step('g(x)', lambda x: opq('g', x), [(shape, a)], n, n,
                       call=wrapped(lambda x: opq('g', x), n, in_axes=()))
            g = lambda x, y: opq('g', x, y)
            yield step('g(x,y)', g, [(shape, a), (shape, b)], n, n, call=wrapped(g, n, in_axes=()))
    five = lambda *x: opq('g', *x)
    for ms in (('own', 'two', 'part', 'rev', 'dup'), ('dense', 'own', 'const', 'two', 'dense')):
        yield step('g of five', five, [((2,), m) for m in ms], 5, 5, call=wrapped(five, 5, in_axes=()))


def c03():
    def general(x):
        return opq('g', *[x.reshape(-1)[i] for i in range(5)]) * x

    for a, n, t in (('own', 11, 11), ('two', 11, 3), ('dense', 4, 0)):
        yield step('general of 11', general, [((11,), a)], n, t, call=wrapped(general, t))
    red = lambda x: (x * x).sum(-1) * x[..., 0]
    for shape in ((2, 1, 2, 3), (1, 2, 1, 2, 2), (6, 3)):
        for a, n in (('own', 12), ('part', 12), ('dense', 3)):
            yield step('last axis', red, [(shape, a)], n, n, call=wrapped(red, n, in_axes=(-1,)))
    two = lambda x: (x[..., 0] * x[..., 1]).sum((-1))
    for shape in ((2, 1, 2, 2), (2, 2, 1, 2, 2)):
        for a, n in (('own', 8), ('dense', 3)):
            yield step('last two axes', two, [(shape, a)], n, n, call=wrapped(two, n, in_axes=(-2, -1)))


def c04():
    ops = [
        ('transpose', lambda x: x.transpose(3, 0, 2, 1)),
        ('reshape', lambda x: x.reshape(3, 4)),
        ('sum (0, 2)', lambda x: x.sum((0, 2))),
        ('sum', lambda x: x.sum()),
        ('mean (1, 3)', lambda x: x.mean((1, 3), keepdims=True)),
        ('slice', lambda x: x[:, :, ::-2, 1:]),
        ('gather', lambda x: x[:, 0, np.array([2, 0, 2])]),
        ('gather two', lambda x: x[np.array([1, 0, 1]), :, np.array([2, 2, 0])]),
        ('take', lambda x: jnp.take(x, np.array([1, 1, 0, 2, 0]), axis=2)),
        ('concatenate', lambda x: jnp.concatenate([x, x[:, :, :2] * 2.0, x], axis=2)),
        ('stack', lambda x: jnp.stack([x, -x, x[::-1]], axis=3)),
        ('pad', lambda x: jnp.pad(x, ((0, 1), (1, 0), (0, 0), (2, 1)))),
        ('flip', lambda x: jnp.flip(x, (0, 3))),
        ('roll', lambda x: jnp.roll(x, 2, axis=2)),
        ('cumsum', lambda x: jnp.cumsum(x, axis=2)),
        ('broadcast', lambda x: jnp.broadcast_to(x[:, :, None], (2, 1, 2, 3, 2))),
        ('expand', lambda x: x[:, None, :, :, None]),
        ('tile', lambda x: jnp.tile(x, (1, 2, 1, 2))),
        ('repeat', lambda x: jnp.repeat(x, 3, axis=1)),
        ('diagonal', lambda x: jnp.diagonal(x, axis1=0, axis2=3)),
        ('where', lambda x: jnp.where(np.arange(12).reshape(R4) % 5 == 0, x, 2.0 * x[::-1])),
    ]
    for name, f in ops:
        for a, n, t in (('own', 12, 12), ('part', 12, 4), ('two', 14, 14), ('dense', 3, 0)):
            yield step(name, probe(f) if a == 'own' else after(f), [(R4, a)], n, t)
    many = [
        ('sum of 20', lambda x: x.sum()),
        ('reversed', lambda x: x[::-1]),
        ('halves', lambda x: x[:10] + x[10:]),
        ('shuffled', lambda x: x[np.random.default_rng(3).permutation(20)]),
        ('repeated', lambda x: x[np.random.default_rng(4).integers(0, 20, 30)]),
        ('segments', lambda x: jax.ops.segment_sum(x, np.random.default_rng(5).integers(0, 6, 20), 6)),
        ('cumsum', lambda x: jnp.cumsum(x)),
        ('blocks', lambda x: x.reshape(4, 5).sum(1)),
        ('joined', lambda x: jnp.concatenate([x[3:9], x[:4], x[15:]])),
    ]
    for name, f in many:
        for a, t in (('own', 20), ('own', 4), ('part', 20), ('rev', 1)):
            yield step(name, after(f), [((20,), a)], 20, t)


def c05():
    cs = [
        ('abij,abjk->abik', (2, 1, 2, 2), (2, 1, 2, 2)),
        ('abij,bakj->ikab', (1, 2, 2, 2), (2, 1, 2, 2)),
        ('abcd,dcba->', (2, 1, 2, 2), (2, 2, 1, 2)),
        ('abcd,cd->ab', (2, 2, 2, 1), (2, 1)),
        ('abcd,ecb->ade', (1, 2, 2, 2), (2, 2, 2)),
        ('ij,jk->ik', (4, 4), (4, 3)),
        ('ij,j->i', (3, 8), (8,)),
        ('i,i->', (14,), (14,)),
        ('i,j->ij', (6,), (5,)),
        ('bi,bi->b', (7, 2), (7, 2)),
    ]
    for spec, sl, sr in cs:
        f = lambda x, y, spec=spec: jnp.einsum(spec, x, y)
        for a, b, n, t in (('own', 'rev', 14, 14), ('part', 'own', 14, 3), ('own', 'const', 14, 14),
                           ('const', 'two', 14, 14), ('dense', 'dense', 3, 0), ('own', 'dense', 3, 3)):
            yield step(spec, f, [(sl, a), (sr, b)], n, t)


def c08():
    def affine(k, sign):
        m = np.random.default_rng(k).integers(-3, 4, (k, k)) + 4.0 * np.eye(k)
        d = np.random.default_rng(k + 9).integers(-2, 3, (2, k, k)) * 1.0
        if k > 4:
            m = np.diag(np.arange(2.0, k + 2)) + np.diag(np.ones(k - 1), 1)
            d = np.zeros((2, k, k))
            d[0, k - 1, 0] = d[1, 1, 3] = d[0, 2, 1] = 1.0

        def f(x):
            a = m + x[0] * d[0] + jnp.sin(x[1]) * d[1]
            s, l = jnp.linalg.slogdet(a)
            return s * jnp.exp(l) if sign else l

        return f

    for k in (4, 5):
        for t in (0, 2):
            yield input_case(f'slogdet {k}x{k} thr={t}', affine(k, False), [Var((2,), lo=-0.2, hi=0.2)], t)
            yield input_case(f'det {k}x{k} thr={t}', affine(k, True), [Var((2,), lo=-0.2, hi=0.2)], t)

    def diagonal(x):
        s, l = jnp.linalg.slogdet(jnp.diag(x) + np.diag(np.ones(x.size - 1), 1))
        return s, l

    for k in (4, 6):
        yield input_case(f'triangular {k}x{k}', diagonal, [Var((k,), pos=True)], 0)

    def batch(x):
        s, l = jnp.linalg.slogdet(jnp.stack([x, x[::-1]], -1).reshape(-1, 2, 2) + 3.0 * np.eye(2))
        return l

    for t in (0, 2):
        yield input_case(f'seven matrices thr={t}', batch, [Var((14,), pos=True)], t, max_paths=200)


def c09():
    def f(x, y):
        return jnp.sin(x * x[::-1]).sum() * y.sum(), x[3:7] * y[0], (x[:, None] * y).sum(1)

    sizes = (9, 6)
    for t in (0, 2, 16):
        for each in (True, False):
            c = input_case(
                f'15 inputs, {"per element" if each else "per argument"} thr={t}', f, [Var((k,)) for k in sizes], t,
                weights=lambda a: (a['w0'], a['w1']),
                ref_weights=lambda S: [w for i, k in enumerate(sizes) for w in np.broadcast_to(S[f'w{i}'], (k,))],
            )
            c.vars.update({f'w{i}': Var((k,) if each else ()) for i, k in enumerate(sizes)})
            yield c


def c11():
    def f(x):
        y = x.reshape(2, 1, 2, 2, 2)
        return y.max((1, 3)), jnp.exp(y).sum(-1), y[..., ::-1].transpose(4, 0, 1, 3, 2), {'a': [x.sum(), x > 0.5]}

    for t in (0, 16):
        yield input_case(f'16 inputs thr={t}', lambda x: (f(x)[1], f(x)[2], f(x)[3]), [Var((16,))], t, check_dtype=True)


def c12():
    def f(x):
        y = jax.lax.stop_gradient(x[3:]) * x[:-3]
        z = jnp.where(np.arange(15) % 4 == 0, jax.lax.stop_gradient(x), x)
        return y, z * x, jnp.floor(x[:1]) * x

    for t in (0, 3, 15):
        yield input_case(f'15 inputs thr={t}', lambda x: f(x)[:2], [Var((15,))], t)


def c13():
    w = np.linspace(-1.0, 2.0, 10)

    def steps(x):
        return jax.lax.scan(lambda c, a: (jnp.sin(c) * a + x, c * x), x, w)

    def back(x):
        return jax.lax.scan(lambda c, a: (c * a + x * x, c), x, w[1:].reshape(3, 3), reverse=True)

    def fori(x):
        return jax.lax.fori_loop(0, 9, lambda i, c: jnp.sin(c) * x + i, x)

    def outer(x):
        def inner(c, a):
            return jax.lax.scan(lambda d, b: (d * b + x, d * x), c, a)

        return jax.lax.scan(inner, x, w[:6].reshape(2, 3))

    def deep(x):
        f = jnp.sin
        for _ in range(5):
            f = (lambda g: jax.jit(lambda v: g(v) * v[0]))(f)
        return f(x)

    def branches(x):
        return jax.lax.switch(np.int32(5), [lambda x, k=k: (x**k).sum() * x[k % 2] for k in range(1, 8)], x)

    for name, f, n in (('scan of 10', steps, 6), ('scan backwards', back, 3), ('loop of 9', fori, 3),
                       ('scans in a scan', outer, 7), ('deep jits', deep, 4), ('seven branches', branches, 5)):
        for t in (0, 3, 20):
            yield input_case(f'{name} thr={t}', f, [Var((n,))], t)


def c19():
    idx = np.random.default_rng(0).integers(0, 17, 12)
    ops = [
        ('set', lambda a, u: a.at[np.unique(idx)].set(u[:np.unique(idx).size])),
        ('add', lambda a, u: a.at[idx].add(u)),
        ('slice set', lambda a, u: a.at[2:14].set(u)),
        ('strided add', lambda a, u: a.at[::2].add(u[:9])),
        ('segments', lambda a, u: jax.ops.segment_sum(u, idx % 5, 5) + a[:5]),
        ('dynamic', lambda a, u: jax.lax.dynamic_update_slice(a, u, (4,))),
        ('rows', lambda a, u: a[:16].reshape(4, 4).at[np.array([3, 0, 3])].add(u.reshape(3, 4))),
        ('columns', lambda a, u: a[:16].reshape(4, 4).at[:, np.array([3, 0, 1])].set(u.reshape(4, 3))),
        ('block', lambda a, u: a[:16].reshape(2, 2, 2, 2).at[:, 1, :, 0].add(u[:4].reshape(2, 2))),
    ]
    for name, f in ops:
        for a, b, t in (('own', 'rev', 17), ('part', 'own', 4), ('own', 'const', 17), ('const', 'two', 17)):
            yield step(name, after(f), [((17,), a), ((12,), b)], 17, t)


def c20():
    ops = [
        ('prod of 7', lambda x: jnp.prod(x), (7,)),
        ('cumprod of 6', lambda x: jnp.cumprod(x), (6,)),
        ('variance of 9', lambda x: jnp.var(x), (9,)),
        ('norm of 10', lambda x: jnp.linalg.norm(x), (10,)),
        ('softmax of 6', lambda x: jax.nn.softmax(x), (6,)),
        ('prod of axes', lambda x: jnp.prod(x, (1, 3)), (2, 2, 1, 2)),
        ('norm of axes', lambda x: jnp.linalg.norm(x, axis=(0, 2)), (2, 2, 2)),
    ]
    for name, f, shape in ops:
        n = int(np.prod(shape))
        for t in (0, n):
            yield step(name, f, [(shape, 'own', dict(pos=True))], n, t)
    for t in (0, 7):
        yield step('max of 7', jnp.max, [((7,), 'own')], 7, t, max_paths=200)


def c06():
    from . import programs as P

    for f, shapes in ((P.chain, [(4, 2)]), (P.mlp_rows, [(5, 2)]), (P.shuffles, [(3, 4)]), (P.gathers, [(9,)]),
                      (P.residual, [(3, 4)]), (P.recurrent, [(9,)]), (P.outer_product, [(9,)]),
                      (P.broadcasts, [(5, 2)]), (P.polynomial, [(9,)]), (P.tril, [(3, 4)])):
        n = sum(int(np.prod(s)) for s in shapes)
        try:
            jax.eval_shape(f, *[jax.ShapeDtypeStruct(s, np.float64) for s in shapes])
        except Exception:  # the program is for one shape only
            continue
        for t in (0, 1, 4, n - 1, n, 3 * n):
            yield input_case(f'{f.__name__} n={n} thr={t}', f, [Var(s) for s in shapes], t)

    def branches(x):
        a = jnp.sin(x[:6]) * x[6:]
        b = jnp.concatenate([a, x[::-1]])[np.array([1, 4, 9, 16, 11, 2, 0])]
        return (b[:, None] * a[None]).sum(0) * x[3], b.reshape(7, 1) * a

    yield input_case('branches every threshold', branches, [Var((12,))], 'symbolic', max_paths=100)


def c07():
    import random

    from . import c07 as m

    rng = random.Random(7)
    for shape, n in (((20,), 20), ((2, 2, 1, 3), 17), ((3, 1, 2, 2, 1), 30)):
        ms = m.sparse_masks(shape, n, rng, 2)
        size = int(np.prod(shape))
        ms['ten'] = np.array([rng.randrange(-1, n) for _ in range(10 * size)], np.int32).reshape(10, *shape)
        for a in ms:
            def dense(st, j, n=n):
                return [m.pad_rows(j.dense_array, n), m.pad_rows(j.as_dense.data, n)]

            yield m.jac_case(f'dense {a} {shape}', [ms[a]], shape, n, dense, lambda d: [d, d])
            if ms[a] is not None:
                per = np.array([rng.sample(range(n), 7) for _ in range(size)]).T.reshape(7, *shape)

                def ref(d, per=per):
                    o = np.empty(per.shape, dtype=object)
                    for i in np.ndindex(per.shape):
                        o[i] = d[(int(per[i]), *i[1:])]
                    return [o]

                yield m.jac_case(f'rows {a} {shape}', [ms[a]], shape, n,
                                 lambda st, j, per=per: [j.construct_jac_for(per)], ref)
        for a, b in (('own', 'rev'), ('ten', 'part'), ('rnd0', 'rnd1'), ('dense', 'ten'), ('two', 'dup')):
            yield m.jac_case(f'sum {a},{b} {shape}', [ms[a], ms[b]], shape, n,
                             lambda st, j, k, n=n: [m.pad_rows((j + k).dense_array, n)], lambda d, e: [m.vec_add(d, e)])


def c10():
    def many(*xs):
        return [x * xs[-1] for x in xs], {'s': sum(xs[1:], xs[0])}

    inputs = [Var((2,)) for _ in range(8)]
    for t in (0, 2, 16):
        yield input_case(f'eight arguments thr={t}', many, inputs, t)

        def deep(p):
            return {'r': (p['a'][1]['c'] * p['a'][0], [p['b'] + p['a'][1]['d'][::-1]])}

        yield input_case(f'deep tree thr={t}', deep, [Var((3,)), Var((3,)), Var((2, 3)), Var((3,))], t,
                         tree=lambda xs: ({'a': (xs[0], {'c': xs[1], 'd': xs[2]}), 'b': xs[3]},))


def c14():
    C = dict(complex=True)
    for sh, n in (((9,), 9), ((2, 1, 2, 2), 11)):
        for m in ('own', 'part', 'rev'):
            for name, f in (('square', lambda z: z * z.conj()), ('exp', lambda z: jnp.exp(1j * z.real) * z.imag),
                            ('sum', lambda z: z.sum(0) * z[0].conj()), ('turned', lambda z: (z[::-1].conj() * z).real)):
                yield state_case(f'{name} {sh} [{m}]', f, [In(sh, mask_of(m, sh, n), **C)], n, n, timeout=8)

    def phases(x):
        z = jnp.exp(1j * x)
        return jnp.vdot(z, z * x), (z[:, None] * z.conj()).sum(0).imag, jnp.abs(z.sum())

    for t in (0, 3, 10):
        yield input_case(f'ten phases thr={t}', phases, [Var((10,))], t, timeout=8)


def c15():
    from .c15 import OPS, op_case

    fs = [
        ('polynomial of 12', lambda x: (x**3).sum() * x[0] + x[1:].prod(), (12,)),
        ('any of nine', lambda x: opq('q', *[x[i] for i in range(9)]), (9,)),
        ('any of rank four', lambda x: opq('q', *[x.reshape(-1)[i] for i in range(8)]), (2, 1, 2, 2)),
        ('chain of 15', lambda x: (jnp.sin(x[1:]) * x[:-1]).sum(), (15,)),
        ('pairs', lambda x: (x[:, None] * x).sum() ** 2, (5, 2)),
    ]
    for name, f, shape in fs:
        if name == 'pairs':
            f = lambda x: ((x[:, None] - x) ** 2).sum(-1).prod(0).sum()
        for k, make in (OPS | {f'forward thr={t}': lambda t=t: folx.ForwardLaplacianOperator(t) for t in (0, 4, 40)}).items():
            yield op_case(f'{name} {k}', f, shape, make)


def c16():
    from .c16 import batch_case, q

    one = lambda xs: tuple(xs)
    for B in (17, 24, 31):
        for b in (1, 5, 8, 16, 30):
            yield batch_case(f'batch of {B}', lambda x, y, s: (x * y + s, q(x, y)), [(B, 2), (1, B), ()], (0, 1, None), 0,
                             one, {}, b)
    for b in (2, 3):
        yield batch_case('rank four', lambda x: (x.sum(0), x.transpose(2, 0, 1)), [(2, 2, 5, 2)], 2, (1, 2), one, {}, b)
        yield batch_case('rank four last', lambda x, y: x @ y, [(2, 3, 2, 5), (2, 2, 5, 3)], (-1, 2), -1, one, {}, b)
        yield batch_case('many arguments', lambda *x: [q(*x), x[::-1]], [(4,)] * 7, (0, 0, 0, None, 0, 0, 0), 0, one, {}, b)


def c18():
    from .c18 import ad_case, vjp_case, mixv

    def poly(x):
        y = x.reshape(-1)
        return jnp.stack([y[0] * y[-1], (y * y).sum(), opq('q', y[1], y[2])]).reshape(1, 3, 1)

    for shape in ((7,), (2, 1, 2, 2), (11,), (4, 3)):
        for kind in ('jacfwd', 'jacrev', 'hessian'):
            yield ad_case(kind, f'many {shape}', poly, {'x': Var(shape)})

    def several(a, b, c, d, e):
        return a * b.sum() + c[0] * d, (opq('q', e[0], e[1]) * a).reshape(2, 1)

    vars = {'a': Var((2,)), 'b': Var((3,)), 'c': Var((1,)), 'd': Var((2,)), 'e': Var((2,))}
    for kind in ('jacfwd', 'jacrev'):
        yield ad_case(kind, 'five arguments', several, vars)


def c21():
    from .c21 import jit_case, reuse_case, vmap_case

    def f(x):
        return (jnp.sin(x[:-1]) * x[1:]).sum() * x[0], x[::-1] * x

    for t in (0, 3, 20):
        yield vmap_case('batch of five', f, (4,), t, True, 0, B=5)
        yield vmap_case('batch of five, jitted', f, (4,), t, False, 0, B=5)


def c23():
    from folx import tree_utils as T

    from . import c23 as m

    shapes = [(9,), (2, 1, 2, 2), (5, 2)]
    tree = lambda xs: {'a': [xs[0], (xs[1],)], 'b': {'c': xs[2]}}
    for name, impl, f in (('add', T.tree_add, m.ADD), ('sub', T.tree_sub, m.SUB), ('mul', T.tree_mul, m.MUL)):
        yield m.tree_case(name, shapes, tree, impl, lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)])
    yield m.tree_case('dot', shapes, tree, T.tree_dot, lambda a, b: [m.total([m.MUL(x, y) for x, y in zip(a, b)])],
                      out_tree=True)


ALL = {k.upper(): f for k, f in list(globals().items()) if k[:1] == 'c' and k[1:].isdigit()}


def large(prop):
    out = list(ALL[prop]()) if prop in ALL else []
    for c in out:
        c.name = 'large: ' + c.name
    return out
