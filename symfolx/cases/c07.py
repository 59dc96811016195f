"""C07: a sparse Jacobian stands for the dense one it stores, under every operation."""
from folx.api import FwdJacobian, FwdLaplArray

from ..alg import Cx
from ..build import pad_rows
from .common import *


def sparse_masks(shape, n, rng, count):
    """Named masks: the usual ones and random ones with repeats and unused slots."""
    out = dict(masks(shape, n))
    size = int(np.prod(shape, dtype=int))
    for c in range(count):
        k = rng.choice([1, 2, 3])
        m = np.array([rng.randrange(-1, n) for _ in range(k * size)], dtype=np.int32)
        out[f'rnd{c}'] = m.reshape(k, *shape)
    out['unused'] = np.full((2, *shape), -1, dtype=np.int32)
    return out


def zero_unused(data, mask):
    if mask is None or not (mask < 0).any():
        return data
    return jnp.where(jnp.asarray(mask < 0), 0.0, data)


def dense_ref(data, mask, n):
    shape = data.shape[1:]
    out = np.empty((n, *shape), dtype=object)
    for k in range(n):
        for i in np.ndindex(shape):
            out[(k, *i)] = X.ZERO
    for r in range(data.shape[0]):
        for i in np.ndindex(shape):
            k = r if mask is None else int(mask[(r, *i)])
            if k >= 0:
                out[(k, *i)] = alg.add(out[(k, *i)], data[(r, *i)])
    return out


from .. import alg  # noqa: E402
from .. import expr as X  # noqa: E402


def jac_case(name, mask_list, shape, n, impl, ref, struct=None, cplx=False):
    """impl gets FwdJacobians, ref gets their dense arrays."""
    vars = {}
    for i, m in enumerate(mask_list):
        vars[f'd{i}'] = Var(((n if m is None else m.shape[0]), *shape), complex=cplx)
    st = Structure()

    def run(**a):
        st.bad.clear()
        jacs = [FwdJacobian(zero_unused(a[f'd{i}'], m), m) for i, m in enumerate(mask_list)]
        return impl(st, *jacs)

    def spec(S):
        return ref(*[dense_ref(S[f'd{i}'], m, n) for i, m in enumerate(mask_list)])

    return Case(name, vars, run, spec, st)


def part(arr, which):
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape):
        e = arr[i] if isinstance(arr[i], Cx) else Cx(arr[i], X.ZERO)
        out[i] = {'real': e.re, 'imag': e.im, 'conj': Cx(e.re, alg.neg(e.im))}[which]
    return out


def parts_ref(mask, n):
    def ref(S):
        rows = S['d0'] if mask is None else used(S['d0'], mask)
        d, kinds = dense_ref(rows, mask, n), ('real', 'imag', 'conj')
        return [part(d, w) for w in kinds] * 2 + [d] + [part(np.asarray(rows[0], dtype=object), w) for w in kinds]

    return ref


def cases(tier, rng):
    out = []
    shapes = [(), (2,), (1,), (2, 2), (1, 3), (2, 1, 2)]
    for shape in shapes:
        for n in (1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 6):
            ms = sparse_masks(shape, n, rng, 3 if tier == 'quick' else 12)
            tag = 'x'.join(map(str, shape)) or 's'

            def add(nm, names, impl, ref, **kw):
                out.append(jac_case(f'{nm} {",".join(names)} {tag} n={n}', [ms[k] for k in names],
                                    shape, n, impl, ref, **kw))

            for k, m in ms.items():
                def dense(st, j, m=m, n=n, shape=shape):
                    d = j.as_dense
                    st.expect(not d.weak, 'as_dense is sparse')
                    st.expect(j.weak == (m is not None), 'weak')
                    want = np.unique(m) if m is not None else np.arange(n)
                    st.expect(list(np.unique(j.unique_idx)) == list(want), 'unique_idx')
                    st.expect(tuple(j.data_shape) == tuple(shape), 'data_shape')
                    if m is not None:
                        st.expect(np.array_equal(j.mask, m), 'mask')
                    else:
                        st.expect(np.array_equal(np.broadcast_to(j.mask, j.data.shape),
                                                 dense_mask(n, shape)), 'mask of dense')
                    a = FwdLaplArray(j.data[0], j, j.data[0])
                    return [pad_rows(j.dense_array, n), pad_rows(d.data, n), pad_rows(d.dense_array, n),
                            pad_rows(a.dense_jacobian, n), pad_rows(a.dense.jacobian.data, n)]

                add('dense', [k], dense, lambda d: [d] * 5)

                # the rows a caller asks for, the same for all elements or not
                idx = np.array(rng.sample(range(n), rng.randrange(1, n + 1)))
                ext = (..., *[None] * len(shape))

                def rows(st, j, idx=idx, ext=ext):
                    return [j.construct_jac_for(idx[ext] if j.weak else idx)]

                add('rows', [k], rows, lambda d, idx=idx: [d[idx]])
                add('no index', [k], lambda st, j, n=n: [pad_rows(j.construct_jac_for(None), n)], lambda d: [d])
                if m is not None:
                    per = np.stack([np.roll(np.arange(n), s)[: idx.size] for s in
                                    [rng.randrange(n) for _ in range(int(np.prod(shape, dtype=int)))]], -1)
                    per = per.reshape(-1, *shape)

                    def per_element(st, j, per=per):
                        return [j.construct_jac_for(per)]

                    def per_ref(d, per=per):
                        o = np.empty(per.shape, dtype=object)
                        for i in np.ndindex(per.shape):
                            o[i] = d[(int(per[i]), *i[1:])]
                        return [o]

                    add('rows by element', [k], per_element, per_ref)

            names = list(ms)
            pairs = [(a, b) for a in names for b in names]
            if tier == 'quick':
                pairs = rng.sample(pairs, 9) + [('own', 'own'), ('dup', 'two'), ('part', 'own'), ('dense', 'two')]
                pairs = list(dict.fromkeys(pairs))
            for a, b in pairs:
                add('sum', [a, b], lambda st, j, k, n=n: [pad_rows((j + k).dense_array, n)],
                    lambda d, e: [vec_add(d, e)])
            for k in ('dense', 'own', 'dup', 'part', 'rnd0'):
                def cplx(st, j, n=n):
                    a = FwdLaplArray(j.data[0], j, j.data[0])
                    return [pad_rows(q.dense_array, n) for q in
                            (j.real, j.imag, j.conj(), a.real.jacobian, a.imag.jacobian, a.conj().jacobian,
                             j.astype(jnp.complex128))] + [a.real.laplacian, a.imag.laplacian, a.conj().laplacian]

                add('parts', [k], cplx,
                    None, cplx=True)
                out[-1].ref = parts_ref(ms[k], n)

                def cast(st, j, n=n, m=ms[k]):
                    x = FwdLaplArray(j.data[0], j, j.data[0])
                    f = x.astype(jnp.float32)
                    st.expect(f.x.dtype == f.jacobian.data.dtype == f.laplacian.dtype == jnp.float32, 'float32')
                    st.expect(f.jacobian.weak == (m is not None), 'astype keeps the mask')
                    st.expect(not isinstance(x.astype(jnp.int32), FwdLaplArray), 'integers have no derivatives')
                    st.expect(not isinstance(x.astype(bool), FwdLaplArray), 'booleans have no derivatives')
                    c = x.astype(jnp.complex128)
                    st.expect(c.dtype == jnp.complex128, 'dtype')
                    return [pad_rows(c.jacobian.dense_array, n), c.laplacian]

                add('astype', [k], cast, None)
                out[-1].ref = (lambda S, m=ms[k], n=n: [dense_ref(S['d0'] if m is None else used(S['d0'], m), m, n),
                                                        (S['d0'] if m is None else used(S['d0'], m))[0]])
    # dense Jacobians may have fewer rows than there are inputs
    from ..build import In, state_case

    fns = [
        ('add', lambda x, y: x + y), ('mul', lambda x, y: x * y), ('div', lambda x, y: x / (y * y + 1.0)),
        ('dot', lambda x, y: jnp.vdot(x, y)), ('concat', lambda x, y: jnp.concatenate([x, y]) ** 2),
        ('opq', lambda x, y: opq('g', x, y)), ('where', lambda x, y: jnp.where(np.array([True, False]), x, y)),
        ('scatter', lambda x, y: x.at[1].set(y[0])), ('outer', lambda x, y: jnp.outer(x, y)),
    ]
    for nm, f in fns:
        for ra, rb in [(2, 4), (4, 2), (1, 3), ('own', 2), (2, 'own'), ('dup', 3), (1, 'two'), (3, 'rev')]:
            for t in (0, 4):
                spec = []
                for r in (ra, rb):
                    if isinstance(r, str):
                        spec.append(In((2,), masks((2,), 4)[r]))
                    else:
                        spec.append(In((2,), None, rows=r))
                out.append(state_case(f'heights {nm} {ra},{rb} thr={t}', f, spec, 4, t))
    # a single input, and masks of different heights
    for nm, f in fns:
        for ka, kb in (('own', 'dup'), ('dup', 'own'), ('two', 'own'), ('own', 'part'), ('shared', 'dup')):
            for n in (1, 2):
                for t in (n, 2 * n + 1):
                    out.append(step(f'heights {nm}', f, [((2,), ka), ((2,), kb)], n, t))
    return out


def used(data, mask):
    out = data.copy()
    out[mask < 0] = X.ZERO
    return out


def dense_mask(n, shape):
    return np.broadcast_to(np.arange(n).reshape(-1, *[1] * len(shape)), (n, *shape))


def vec_add(d, e):
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(d.shape):
        out[i] = alg.add(d[i], e[i])
    return out
