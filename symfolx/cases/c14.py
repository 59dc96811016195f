"""C14: complex numbers between the inputs and the result."""
from folx.api import FunctionFlags as F

from .c02 import wrapped
from .common import *

lax = jax.lax
I2 = np.array([[1.0 + 2.0j, 0.5], [-1.0j, 2.0]])


def unary():
    """name, function of one complex array"""
    return [
        ('exp', jnp.exp), ('sin', jnp.sin), ('cos', jnp.cos), ('sinh', jnp.sinh), ('cosh', jnp.cosh),
        ('square', lambda z: z * z), ('cube', lambda z: z**3), ('reciprocal', lambda z: 1.0 / z),
        ('inverse square', lambda z: z**-2), ('affine', lambda z: (1.0 + 2.0j) * z - 1j), ('neg', lambda z: -z),
        ('conj', jnp.conj), ('real', jnp.real), ('imag', jnp.imag), ('abs', jnp.abs), ('abs2', lambda z: jnp.abs(z) ** 2),
        ('norm2', lambda z: (z * z.conj()).real), ('parts', lambda z: z.real * z.imag),
        ('conj product', lambda z: z.conj() * z**2), ('exp real', lambda z: jnp.exp(z).real),
        ('swap parts', lambda z: lax.complex(z.imag, z.real)), ('angle', jnp.angle), ('log', jnp.log), ('sqrt', jnp.sqrt),
        ('expm1', jnp.expm1), ('log1p', lambda z: jnp.log1p(z)), ('tanh', jnp.tanh), ('tan', jnp.tan),
        ('logistic', lambda z: jax.nn.sigmoid(z)), ('power', lambda z: z ** (2.0 + 0.0j)),
        ('rsqrt', lambda z: lax.rsqrt(z)),
        ('unit', lambda z: z / jnp.abs(z)), ('add real', lambda z: z + z.real), ('times real', lambda z: z * z.real),
    ]


def shape():
    return [
        ('sum', lambda z: z.sum()), ('sum0', lambda z: z.sum(0)), ('mean', lambda z: z.mean(0, keepdims=True)),
        ('prod', lambda z: z.prod()), ('cumsum', lambda z: jnp.cumsum(z)), ('cumprod', lambda z: jnp.cumprod(z)),
        ('flip', lambda z: z[::-1]), ('index', lambda z: z[np.array([1, 1, 0])] * z[0]), ('concatenate', lambda z: jnp.concatenate([z, z.conj()])),
        ('stack', lambda z: jnp.stack([z, z * z], -1)), ('pad', lambda z: jnp.pad(z, (1, 0))),
        ('where', lambda z: jnp.where(np.array([True, False]), z, 1j)), ('where conj', lambda z: jnp.where(z.real > 0, z, z.conj())),
        ('set', lambda z: z.at[0].set(z[1] * z[0])), ('add', lambda z: z.at[1].add(1j)), ('segment', lambda z: jax.ops.segment_sum(z, np.array([0, 0]), 2)),
        ('reshape', lambda z: z.reshape(2, 1) * z), ('vdot self', lambda z: jnp.vdot(z, z)), ('dot self', lambda z: z @ z),
        ('matvec', lambda z: I2 @ z), ('real matvec', lambda z: I2.real @ z), ('quadratic', lambda z: z.conj() @ I2 @ z),
        ('outer', lambda z: jnp.outer(z, z.conj())), ('norm', lambda z: jnp.linalg.norm(z)),
        ('einsum', lambda z: jnp.einsum('i,ij,j->', z, I2, z)), ('broadcast', lambda z: z[:, None] + z[None]),
        ('astype', lambda z: z.astype(np.complex128) * 1.0), ('dynamic', lambda z: lax.dynamic_slice(z, (1,), (1,)) * z),
        ('fori', lambda z: lax.fori_loop(0, 2, lambda i, c: c * z, z)), ('cond', lambda z: lax.cond(z[0].real > 0, lambda z: z * z, jnp.conj, z)),
        ('custom', lambda z: custom(z) * z), ('jit', lambda z: jax.jit(lambda a: a * a.conj())(z)), ('vmap', lambda z: jax.vmap(lambda a: a * z)(z)),
    ]


@jax.custom_jvp
def custom(z):
    return z * z


@custom.defjvp
def _(p, t):
    return custom(p[0]), 2.0 * p[0] * t[0]


def binary():
    return [
        ('mul', lambda a, b: a * b), ('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('div', lambda a, b: a / b),
        ('dot', lambda a, b: a @ b), ('vdot', lambda a, b: jnp.vdot(a, b)), ('outer', lambda a, b: jnp.outer(a, b)),
        ('concatenate', lambda a, b: jnp.concatenate([a, b])), ('set', lambda a, b: a.at[0].set(b[1])),
        ('conj mul', lambda a, b: a.conj() * b), ('select', lambda a, b: jnp.where(np.array([True, False]), a, b)),
        ('matmul', lambda a, b: jnp.outer(a, b) @ b), ('real of product', lambda a, b: (a * b).real),
        ('power', lambda a, b: jnp.power(a, 2) * b),
    ]


def programs():
    """Real inputs; complex intermediates; real or complex results."""
    r = np.array([[1.0, 2.0], [0.5, -1.0]])
    return [
        ('plane wave', lambda x: jnp.exp(1j * (r @ x)), (2,)),
        ('plane wave real', lambda x: jnp.exp(1j * (r @ x)).real, (2,)),
        ('plane waves', lambda x: jnp.abs(jnp.exp(1j * (r @ x)).sum()) ** 2, (2,)),
        ('structure factor', lambda x: (lambda s: (s * s.conj()).real)(jnp.exp(1j * r @ x).sum(0)), (2, 2)),
        ('backflow', lambda x: jnp.exp(1j * x + opq('b', x[::-1])), (2,)),
        ('gauge', lambda x: jnp.exp(1j * opq('p', x)) * opq('a', x), (2,)),
        ('log psi', lambda x: jnp.log((1.0 + 2.0j) + opq('p', x) * 1j), (1,)),
        ('log abs', lambda x: jnp.log(jnp.abs(opq('p', x) + 1j * opq('r', x))), (1,)),
        ('product', lambda x: (x + 1j * x[::-1]).prod(), (2,)),
        ('complex numbers', lambda x: lax.complex(opq('a', x), opq('b', x)) * lax.complex(x, x), (2,)),
        ('mobius', lambda x: (x - 1j) / (x + 1j), (2,)),
        ('norm', lambda x: jnp.linalg.norm(x * (1.0 + 2.0j)), (2,)),
        ('quadratic form', lambda x: (lambda z: (z.conj() @ (I2 + I2.conj().T) @ z).real)(x + 1j * x**2), (2,)),
        ('weights', lambda x: jnp.sin(I2 @ x).sum(), (2,)),
        ('mixed', lambda x: (jnp.exp(1j * x), x * x, (x * 1j).imag), (2,)),
        ('cast back', lambda x: (x * (1.0 + 0.0j)).real ** 2 * x, (2,)),
        ('conj cancels', lambda x: (lambda z: z + z.conj())(jnp.exp(1j * x)), (2,)),
        ('slater', lambda x: jnp.linalg.det(jnp.stack([jnp.exp(1j * x), x], -1)), (2,)),
        ('phase', lambda x: jnp.angle(jnp.exp(1j * x).sum() + 3.0), (2,)),
        ('soft', lambda x: jax.nn.softmax(x) @ jnp.exp(1j * x), (2,)),
        ('unit vector', lambda x: (lambda z: z / jnp.linalg.norm(z))(x + 1j), (2,)),
        ('stop', lambda x: lax.stop_gradient(jnp.exp(1j * x)) * x, (2,)),
        ('integer power', lambda x: (x + 1j) ** 3, (2,)),
        ('real constant', lambda x: (x * 1j) * np.array([2.0, 3.0]) + 1.0, (2,)),
    ]


def parts(*z):
    out = []
    for a in z:
        out += [a.real, a.imag] if jnp.iscomplexobj(a) else [a]
    return out


def c1(*z):
    """Any differentiable function of complex numbers (not necessarily holomorphic), elementwise."""
    return lax.complex(opq('a', *parts(*z)), opq('b', *parts(*z)))


def r1(*z):
    return opq('a', *parts(*z))


def call_all(name, *z, cplx=True):
    e = [p[i] for a in z for p in parts(a.ravel()) for i in range(a.size)]
    return lax.complex(opq(name, *e), opq(name + 'i', *e)) if cplx else opq(name, *e)


def with_jvp(fn):
    g = jax.custom_jvp(fn)
    g.defjvp(lambda p, t: jax.jvp(fn, p, t))
    return g


def declared():
    """name, function, arguments, declaration"""
    C, R = 'complex', 'real'
    el = dict(in_axes=())
    return [
        ('any', c1, [C], el), ('any to real', r1, [C], el), ('any of real', c1, [R], el),
        ('any of two', c1, [C, C], el), ('any of both', c1, [C, R], el), ('any of two to real', r1, [C, C], el),
        ('z conj z', lambda z: z * z.conj(), [C], el),
        ('general', lambda z: call_all('g', z) * z[::-1], [C], {}),
        ('general to real', lambda z: call_all('g', z, cplx=False) * jnp.ones(1), [C], {}),
        ('general of real', lambda z: call_all('g', z) * z, [R], {}),
        ('general of both', lambda z, w: call_all('g', z, w), [C, R], {}),
        ('two results', lambda z: (call_all('g', z), call_all('h', z, cplx=False)), [C], {}),
        ('linear', lambda z, w: 2j * z.conj() - w, [C, C], dict(in_axes=(), flags=F.LINEAR)),
        ('product', lambda z, w: z * w, [C, C], dict(in_axes=(), flags=F.MULTIPLICATION)),
        ('last axis', lambda z: lax.complex(opq('g', *parts(z[..., 0], z[..., 1])), opq('h', *parts(z[..., 1]))), [C],
         dict(in_axes=-1)),
        ('last axis to real', lambda z: opq('g', *parts(z[..., 0], z[..., 1])), [C], dict(in_axes=-1)),
    ]


def undeclared():
    return [
        ('own derivative', with_jvp(lambda z: call_all('g', z) * z)),
        ('own derivative to real', with_jvp(lambda z: call_all('g', z, cplx=False))),
        ('own derivative conj', with_jvp(lambda z: z * z.conj() * z[::-1])),
        ('condition', lambda z: lax.cond(z[0].real > 0, lambda z: z * z.conj(), lambda z: z * z[::-1].conj(), z)),
        ('condition to real', lambda z: lax.cond(z[0].real > 0, lambda z: (z * z.conj()).real, lambda z: z.imag**2, z)),
        ('cumulated', lambda z: jnp.cumprod(z * z.conj())), ('reduced', lambda z: (z * z.conj()[::-1]).prod()),
    ]


def cases(tier, rng):
    out = []
    for name, fn, args, decl in declared():
        for m in ('dense', 'own', 'two', 'dup', 'part'):
            for n in (1, 3, 5) if tier == 'thorough' or m in ('dense', 'two') else (5,):
                sh = (2, 2) if 'axis' in name else (2,)
                if tier == 'quick' and sh == (2, 2) and n == 5:
                    continue
                ins = [In(sh, mask_of(m if i == 0 else 'two', sh, n), complex=a == 'complex') for i, a in enumerate(args)]
                out.append(state_case(f'declared {name} [{m}] n={n}', fn, ins, n, n,
                                      call=wrapped(fn, n, **decl), timeout=8))
    for name, fn in undeclared():
        for m in ('dense', 'own', 'two', 'part'):
            for n in (1, 3, 5) if tier == 'thorough' or m == 'dense' else (5,):
                out.append(state_case(f'undeclared {name} [{m}] n={n}', fn, [In((2,), mask_of(m, (2,), n), complex=True)],
                                      n, n, timeout=8))
    for name, fn, sh in programs():
        n = int(np.prod(sh))
        for t in (0, 1, n):
            for jit in ((False,) if t == 1 else (False, True)):
                out.append(input_case(f'{name} thr={t}{" jitted" if jit else ""}', fn, [Var(sh)], threshold=t,
                                      disable_jit=not jit, timeout=8))
    hard = ('tanh', 'tan', 'logistic', 'sqrt', 'rsqrt', 'log1p', 'log', 'power')
    kinds = ('dense', 'own', 'two', 'part', 'dup') + (('shared', 'rev') if tier == 'thorough' else ())

    def cin(shape, m, n, **kw):
        return 'c' if m == 'const' else In(shape, mask_of(m, shape, n), complex=True, **kw)

    for name, fn in unary():
        for m in kinds:
            sh = (1,) if name in hard else (2,)
            if name in hard and tier == 'quick' and m in ('own', 'part'):
                continue
            n = 2
            out.append(state_case(f'{name} [{m}]', after(fn) if name not in hard else fn, [cin(sh, m, n)], n,
                                  0 if m == 'dense' else n, timeout=8))
            # a real state, made complex
            out.append(step(f'{name} of real', lambda x, fn=fn: fn(x + 0.5j), [(sh, m)], n, 0 if m == 'dense' else n,
                            timeout=8))
    for name, fn in shape():
        for m in kinds:
            n = 3
            out.append(state_case(f'{name} [{m}]', after(fn), [cin((2,), m, n)], n, 0 if m == 'dense' else n,
                                  may_reject=name == 'fori' and m != 'own', timeout=8))
    pairs = [('dense', 'dense'), ('own', 'own'), ('own', 'dense'), ('part', 'two'), ('dup', 'own'), ('dense', 'part')]
    for name, fn in binary():
        for a, b in pairs:
            n = 3
            t = 0 if (a, b) == ('dense', 'dense') else n
            ca, cb = In((2,), mask_of(a, (2,), n), complex=True), In((2,), mask_of(b, (2,), n), complex=True)
            ra, rb = In((2,), mask_of(a, (2,), n)), In((2,), mask_of(b, (2,), n))
            out.append(state_case(f'{name} complex,complex [{a},{b}]', after(fn), [ca, cb], n, t, timeout=8))
            if name not in ('set', 'select', 'concatenate'):
                out.append(state_case(f'{name} complex,real [{a},{b}]', after(fn), [ca, rb], n, t, timeout=8))
                out.append(state_case(f'{name} real,complex [{a},{b}]', after(fn), [ra, cb], n, t, timeout=8))
        for m in ('dense', 'own', 'part'):
            out.append(state_case(f'{name} complex,constant [{m}]', after(fn),
                                  [In((2,), mask_of(m, (2,), 3), complex=True), In((2,), 'const', complex=True)], 3,
                                  0 if m == 'dense' else 3, timeout=8))
            out.append(state_case(f'{name} constant,complex [{m}]', after(fn),
                                  [In((2,), 'const', complex=True), In((2,), mask_of(m, (2,), 3), complex=True)], 3,
                                  0 if m == 'dense' else 3, timeout=8))
            if name not in ('set', 'concatenate', 'select'):
                out.append(state_case(f'{name} real,complex constant [{m}]', after(fn),
                                      [In((2,), mask_of(m, (2,), 3)), In((2,), 'const', complex=True)], 3,
                                      0 if m == 'dense' else 3, timeout=8))
    # the arrays themselves have parts
    for name, fn, get in (('real', jnp.real, lambda z: z.real), ('imag', jnp.imag, lambda z: z.imag),
                          ('conj', jnp.conj, lambda z: z.conj())):
        for sh in ((), (2,), (2, 1)):
            for m in kinds:
                out.append(state_case(f'attribute {name} {sh} [{m}]', fn, [cin(sh, m, 3)], 3, 3, call=get))
                out.append(state_case(f'attribute {name} of real {sh} [{m}]', fn, [In(sh, mask_of(m, sh, 3))], 3, 3,
                                      call=get))
    return out
