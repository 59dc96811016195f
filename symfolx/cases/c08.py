"""C08: determinants (slogdet, det) and inverses built from them."""
from .common import *


def logdet(x):
    return jnp.linalg.slogdet(x)[1]


def signed(x):
    s, l = jnp.linalg.slogdet(x)
    return s * l


def both(x):
    s, l = jnp.linalg.slogdet(x)
    return s, l


def sum_of_dets(x):
    s, l = jnp.linalg.slogdet(x)
    m = l.max()
    return jnp.log(jnp.abs((s * jnp.exp(l - m)).sum())) + m


def det(x):
    return jnp.linalg.det(x)


def product(x, y):
    return jnp.linalg.slogdet(x)[1] * jnp.linalg.slogdet(y)[1]


def cases(tier, rng):
    out = []
    kinds = ('dense', 'own', 'two', 'part', 'dup', 'rev', 'shared')
    for m in kinds:
        sp = m != 'dense'
        for n in (1, 4):
            t = n if sp else 0
            out.append(step('log', logdet, [((2, 2), m)], n, t, max_paths=12))
            out.append(step('both', both, [((1, 1), m)], n, t))
            out.append(step('signed', signed, [((2, 2), m)], n, t, max_paths=12))
        for t in (1, 2, 3):
            if sp:
                out.append(step('both', both, [((2, 2), m)], 4, t, max_paths=12))
        out.append(step('batch', both, [((2, 1, 1), m)], 3, 3 if sp else 0))
        out.append(step('batches', both, [((2, 1, 1, 1), m)], 3, 3 if sp else 0))
        out.append(step('single batch', both, [((1, 2, 2), m)], 3, 3 if sp else 0, max_paths=12))
        out.append(step('sum of dets', lambda x: sum_of_dets(jnp.stack([x[:1, :1], x[1:, 1:]])),
                        [((2, 2), m)], 4, 4 if sp else 0))
        out.append(step('det', det, [((2, 2), m)], 4, 4 if sp else 0, max_paths=12))
        out.append(step('det 1', det, [((1, 1), m)], 2, 2 if sp else 0))
        out.append(step('part of a matrix', lambda x: logdet(jnp.stack([x, np.array([1.0, -2.0])])),
                        [((2,), m)], 3, 3 if sp else 0, max_paths=12))
        out.append(step('orbitals', lambda x: logdet(jnp.stack([opq('f', x), opq('g', x)], -1)),
                        [((2,), m)], 3, 3 if sp else 0, max_paths=12))
        out.append(step('two', product, [((1, 1), m), ((1, 1), 'own')], 3, 3))
        out.append(step('scaled', lambda x: logdet(2.0 * x), [((2, 2), m)], 4, 4 if sp else 0, max_paths=12))
        out.append(step('under jit', lambda x: jax.jit(logdet)(x), [((2, 2), m)], 4, 4 if sp else 0, max_paths=12))
    for k, t in ((2, 0), (2, 4), (2, 2)):
        out.append(input_case(f'from inputs {k} thr={t}', both, [Var((k, k))], threshold=t, max_paths=12))
    # batches of two matrices of size two: an LU pivot for each
    for m in ('dense', 'own'):
        out.append(step('batch of two', logdet, [((2, 2, 2), m)], 4, 4 if m == 'own' else 0, max_paths=6))
    # complex matrices: the phase has a Jacobian as well
    for m in ('dense', 'own', 'two'):
        t = 0 if m == 'dense' else 2
        for n in (1, 2):
            a = [In((1, 1), mask_of(m, (1, 1), n), complex=True)]
            out.append(state_case(f'complex 1 {m} n={n}', both, a, n, min(t, n)))
            out.append(state_case(f'complex 1 log {m} n={n}', logdet, a, n, min(t, n)))
            out.append(state_case(f'complex 1 phase {m} n={n}', lambda x: jnp.linalg.slogdet(x)[0], a, n, min(t, n)))
            a = [In((2, 1, 1), mask_of(m, (2, 1, 1), n), complex=True)]
            out.append(state_case(f'complex batch {m} n={n}', both, a, n, min(t, n)))
        a = [In((2, 2), mask_of(m, (2, 2), 2), complex=True)]
        out.append(state_case(f'complex 2 {m}', logdet, a, 2, t, max_paths=4))
        out.append(state_case(f'complex 2 phase {m}', lambda x: jnp.linalg.slogdet(x)[0], a, 2, t, max_paths=4))
        out.append(state_case(f'complex det {m}', lambda x: jnp.linalg.det(x), [In((1, 1), mask_of(m, (1, 1), 2), complex=True)], 2, t))
        out.append(step('complex of real', lambda x: both((x + 1j * x[::-1]).reshape(1, 1, 2)[..., :1]),
                        [((2,), m)], 2, t))
    # inverses and linear systems; matrices vectorised along any axis
    inv, slv = jnp.linalg.inv, jnp.linalg.solve
    C = np.array([[2.0, 1.0], [-1.0, 3.0]])
    for m in ('dense', 'own', 'two', 'dup'):
        for t in (0,) if m == 'dense' else (1, 4):
            mats = [((2, 2), m)]
            out.append(step('inverse', inv, mats, 4, t, max_paths=6))
            out.append(step('inverse 1', inv, [((1, 1), m)], 2, min(t, 2)))
            out.append(step('inverses 1', inv, [((2, 1, 1), m)], 2, min(t, 2)))
            out.append(step('solve constants', lambda x: slv(x, C), mats, 4, t, max_paths=6))
            out.append(step('solve vector', lambda x: slv(x, C[0]), mats, 4, t, max_paths=6))
            out.append(step('constant matrix', lambda x: slv(C, x), mats, 4, t))
            out.append(step('solve itself', lambda x: slv(x[:1, :1], x[:1]), mats, 4, t))
            out.append(step('solve products', lambda x: slv((x * x)[:1, :1], x.sum(0, keepdims=True)), mats, 4, t))
            for ax in (0, 1, 2):
                shape = tuple(np.insert((1, 1), ax, 2))
                out.append(step(f'vectorised axis {ax}', lambda x, ax=ax: jax.vmap(both, in_axes=ax)(x), [(shape, m)], 2, min(t, 2)))
                out.append(step(f'vectorised inverse axis {ax}', lambda x, ax=ax: jax.vmap(inv, in_axes=ax, out_axes=ax)(x), [(shape, m)], 2, min(t, 2)))
            for ax in (1, 2):
                out.append(step(f'vectorised 2 axis {ax}', lambda x, ax=ax: jax.vmap(logdet, in_axes=ax)(x), [((2, 2, 2), m)], 2, min(t, 2), max_paths=3))
            out.append(step('two arguments', slv, [((1, 1), m), ((1, 2), 'own')], 3, t))
            out.append(step('gradient of the logarithm', lambda x: jax.grad(logdet)(x), [((1, 1), m)], 2, min(t, 2)))
            out.append(step('gradient of the logarithm 2', lambda x: jax.grad(logdet)(x), mats, 2, min(t, 2), max_paths=3))
    if tier == 'thorough':
        for m in kinds:
            t = 0 if m == 'dense' else 9
            out.append(step('three', logdet, [((3, 3), m)], 9, t, max_paths=3, timeout=60))
            out.append(step('three n', logdet, [((3, 3), m)], 2, min(t, 2), max_paths=3, timeout=60))
    return out
