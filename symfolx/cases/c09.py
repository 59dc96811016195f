"""C09: weights scale the directions of the Laplacian."""
from .common import *


def f1(x):
    return opq('f', *[x.ravel()[i] for i in range(x.size)])


def f2(x, y):
    return opq('f', x[0], y[-1]) * x[-1] + (y * y).sum(), jnp.concatenate([x, y])


def f3(d, z):
    return d['a'] @ d['b'] * z, opq('g', z, d['a'][0])


def cases(tier, rng):
    out = []
    ts = (0, 1, 3, 100)

    def add(name, fn, inputs, weights, ref, t, **kw):
        wv = kw.pop('wvars', {'w': Var(())})
        c = input_case(f'{name} thr={t}', fn, inputs, threshold=t, weights=weights, ref_weights=ref, **kw)
        c.vars.update(wv)
        out.append(c)

    progs = [
        ('one', f1, [Var((2,))]),
        ('matrix', f1, [Var((2, 1))]),
        ('quadratic', lambda x: jnp.outer(x, x) @ x, [Var((2,))]),
        ('mlp', lambda x: jnp.tanh(np.array([[1.0, -2.0], [0.5, 3.0]]) @ x).sum(), [Var((2,))]),
        ('two args', f2, [Var((2,)), Var((1,))]),
        ('pairs', lambda x, y: (x[:, None] * y) ** 3, [Var((2,)), Var((2,))]),
        ('scalar and vector', lambda s, v: jnp.sin(s) * v**2, [Var(()), Var((2,))]),
        ('slogdet', lambda x: jnp.linalg.slogdet(x)[1], [Var((1, 1))]),
        ('linear', lambda x: x[::-1].cumsum(), [Var((2,))]),
    ]
    for name, fn, inputs in progs:
        sizes = [int(np.prod(v.shape)) for v in inputs]
        n = sum(sizes)
        k = len(inputs)
        for t in ts:
            # one number for all inputs
            add(f'{name}, scalar', fn, inputs, lambda a: a['w'], lambda S, n=n: [S['w'][()]] * n, t)
            add(f'{name}, constant', fn, inputs, lambda a: 2.0, lambda S, n=n: [X.const(2)] * n, t, wvars={})
            add(f'{name}, integer', fn, inputs, lambda a: -3, lambda S, n=n: [X.const(-3)] * n, t, wvars={})
            # one number per argument
            wv = {f'w{i}': Var(()) for i in range(k)}
            add(f'{name}, per argument', fn, inputs, lambda a, k=k: tuple(a[f'w{i}'] for i in range(k)),
                lambda S, sizes=sizes: [S[f'w{i}'][()] for i, s in enumerate(sizes) for _ in range(s)],
                t, wvars=wv)
            # one number per element
            wv = {f'w{i}': Var(v.shape) for i, v in enumerate(inputs)}
            add(f'{name}, per element', fn, inputs, lambda a, k=k: tuple(a[f'w{i}'] for i in range(k)),
                lambda S, sizes=sizes: [w for i in range(len(sizes)) for w in S[f'w{i}'].ravel()],
                t, wvars=wv)
    # trees of arguments and of weights
    inputs = [Var((2,)), Var((2,)), Var(())]
    tree = lambda xs: ({'a': xs[0], 'b': xs[1]}, xs[2])
    wv = {f'w{i}': Var(()) for i in range(3)}
    for t in ts:
        add('tree, full', f3, inputs, lambda a: ({'a': a['w0'], 'b': a['w1']}, a['w2']),
            lambda S: [S['w0'][()]] * 2 + [S['w1'][()]] * 2 + [S['w2'][()]], t, tree=tree, wvars=wv)
        add('tree, prefix', f3, inputs, lambda a: (a['w0'], a['w2']),
            lambda S: [S['w0'][()]] * 4 + [S['w2'][()]], t, tree=tree, wvars=wv)
        add('tree, scalar', f3, inputs, lambda a: a['w0'],
            lambda S: [S['w0'][()]] * 5, t, tree=tree, wvars=wv)
        add('tree, one per leaf', f3, inputs, lambda a: (a['w0'], a['w1'], a['w2']),
            lambda S: [S['w0'][()]] * 2 + [S['w1'][()]] * 2 + [S['w2'][()]], t, tree=tree, wvars=wv)
        add('tree, none', f3, inputs, lambda a: None, lambda S: [X.const(1)] * 5, t, tree=tree, wvars={})
        add('none', f1, [Var((2,))], lambda a: None, lambda S: [X.const(1)] * 2, t, wvars={})
        add('list', f2, [Var((2,)), Var((1,))], lambda a: (a['w0'], a['w1']),
            lambda S: [S['w0'][()]] * 2 + [S['w1'][()]], t, wvars={k: wv[k] for k in ('w0', 'w1')})
    # the weights of a jitted forward Laplacian are arguments, too
    for t in (0, 3):
        add('jitted', f1, [Var((2,))], lambda a: a['w'], lambda S: [S['w'][()]] * 2, t, disable_jit=t > 0)
    return out


from .. import expr as X  # noqa: E402
