"""Symbolic execution of jaxprs.

The jaxpr is the intermediate representation JAX produces by running the real
Python code of folx on abstract values.  Arrays that depend on a symbolic input
are numpy object arrays of scalars (`alg.py`); all others are plain numpy
arrays, computed by the real primitives.  The same interpreter executes the
implementation (scalars E) and the reference (scalars Jet).
"""
from __future__ import annotations

import functools
import itertools
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import core

from . import alg
from . import expr as X
from .expr import Unsupported

CALLS = {}  # primitive name -> number of executions, reported as evidence


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def obj(shape):
    return np.empty(shape, dtype=object)


def lift_array(a):
    """Object array of a numeric array."""
    if is_sym(a):
        return a
    a = np.asarray(a)
    out = obj(a.shape)
    for i in np.ndindex(a.shape):
        out[i] = alg.lift(a[i])
    return out


def pick(ids, table):
    """Object array table[ids]."""
    out = obj(ids.shape)
    for i in np.ndindex(ids.shape):
        out[i] = table[ids[i]]
    return out


def concrete(a):
    """Try to turn an array of constants into a numeric array."""
    out = np.empty(a.shape, dtype=np.float64)
    for i in np.ndindex(a.shape):
        e = a[i]
        if isinstance(e, alg.Jet) or isinstance(e, alg.Cx) or e.op != 'c':
            return None
        out[i] = float(e.args[0])
    return out


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def elementwise(f):
    def run(eqn, *args):
        shape = eqn.outvars[0].aval.shape
        args = [np.broadcast_to(lift_array(a), shape) for a in args]
        out = obj(shape)
        for i in np.ndindex(shape):
            out[i] = f(*(a[i] for a in args))
        return out

    return run


def compare_rule(op):
    def run(eqn, a, b):
        shape = eqn.outvars[0].aval.shape
        a, b = (np.broadcast_to(lift_array(v), shape) for v in (a, b))
        out = np.empty(shape, dtype=bool)
        for i in np.ndindex(shape):
            out[i] = alg.compare(op, a[i], b[i])
        return out

    return run


for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    RULES[_n] = compare_rule(_n)
RULES['lt_to'], RULES['le_to'], RULES['eq_to'] = RULES['lt'], RULES['le'], RULES['eq']

for _n, _f in dict(
    neg=alg.neg,
    add=alg.add,
    add_any=alg.add,
    sub=alg.sub,
    mul=alg.mul,
    div=alg.div,
    max=alg.max_,
    min=alg.min_,
    sign=alg.sign,
    abs=alg.abs_,
    pow=alg.pow_,
    atan2=alg.atan2,
    square=lambda a: alg.mul(a, a),
    real=lambda a: alg.cx(a).re,
    imag=lambda a: alg.cx(a).im,
    conj=lambda a: alg.Cx(a.re, alg.neg(a.im)) if isinstance(a, alg.Cx) else alg.cx(a),
    complex=alg.Cx,
    copy=lambda a: a,
    copy_p=lambda a: a,
    stop_gradient=alg.strip,
).items():
    RULES[_n] = elementwise(_f)

for _n in X.UNARY:
    RULES[_n] = elementwise(functools.partial(alg.unary, _n))


@rule('integer_pow')
def _(eqn, a):
    return elementwise(lambda x: alg.ipow(x, eqn.params['y']))(eqn, a)


@rule('square')
def _(eqn, a):
    return elementwise(lambda x: alg.mul(x, x))(eqn, a)


@rule('is_finite')
def _(eqn, a):
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        e = alg.value(a[i].re if isinstance(a[i], alg.Cx) else a[i])
        out[i] = e.op not in ('inf', 'nan')
    return out


@rule('clamp')
def _(eqn, lo, x, hi):
    return elementwise(lambda l, v, h: alg.min_(alg.max_(v, l), h))(eqn, lo, x, hi)


@rule('reduce_precision', 'device_put', 'copy', 'optimization_barrier')
def _(eqn, *a):
    return a[0] if len(a) == 1 and not eqn.primitive.multiple_results else list(a)


@rule('convert_element_type')
def _(eqn, a):
    dt = np.dtype(eqn.params['new_dtype'])
    if dt == bool:
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            out[i] = alg.compare('ne', a[i], X.ZERO)
        return out
    if np.issubdtype(dt, np.integer):
        return elementwise(lambda e: alg.unary('trunc', alg.strip(e)))(eqn, a)
    if np.issubdtype(dt, np.complexfloating):
        return elementwise(alg.cx)(eqn, a)
    return elementwise(lambda e: e.re if isinstance(e, alg.Cx) else e)(eqn, a)


@rule('select_n')
def _(eqn, which, *cases):
    if is_sym(which):
        raise Unsupported('symbolic select')
    shape = eqn.outvars[0].aval.shape
    cases = [np.broadcast_to(lift_array(c), shape) for c in cases]
    which = np.broadcast_to(which, shape)
    out = obj(shape)
    for i in np.ndindex(shape):
        out[i] = cases[int(which[i])][i]
    return out


# ------------------------------------------------------------- data movement


def by_ids(fn, n_data=1):
    """Executes an operation that only moves elements, on the elements' ids."""

    def run(eqn, *args):
        data, rest = args[:n_data], args[n_data:]
        if any(is_sym(a) for a in rest):
            raise Unsupported(f'{eqn.primitive.name} with symbolic indices')
        table = [X.ZERO]
        ids = []
        for a in data:
            a = lift_array(a)
            ids.append(np.arange(len(table), len(table) + a.size).reshape(a.shape))
            table.extend(a.ravel())
        out = fn(eqn, *ids, *rest)
        if isinstance(out, (list, tuple)):
            return [pick(np.asarray(o), table) for o in out]
        return pick(np.asarray(out), table)

    return run


def real_bind(eqn, *args):
    """Runs the real primitive on (int32 ids, concrete operands)."""
    args = [
        np.asarray(a, dtype=np.int32 if i == 0 or np.asarray(a).dtype == np.int64 and
                   v.aval.dtype != np.int64 else v.aval.dtype)
        for i, (a, v) in enumerate(zip(args, eqn.invars))
    ]
    return eqn.primitive.bind(*map(jnp.asarray, args), **eqn.params)


@rule('broadcast_in_dim')
def _(eqn, a, *_):
    def go(eqn, ids):
        shape, dims = eqn.params['shape'], eqn.params['broadcast_dimensions']
        new = [1] * len(shape)
        for d, s in zip(dims, ids.shape):
            new[d] = s
        return np.broadcast_to(ids.reshape(new), shape)

    return by_ids(go)(eqn, a)


RULES['reshape'] = by_ids(
    lambda eqn, a: (
        a if eqn.params.get('dimensions') is None else a.transpose(eqn.params['dimensions'])
    ).reshape(eqn.params['new_sizes'])
)
RULES['squeeze'] = by_ids(lambda eqn, a: a.reshape(eqn.outvars[0].aval.shape))
RULES['expand_dims'] = RULES['squeeze']
RULES['transpose'] = by_ids(lambda eqn, a: a.transpose(eqn.params['permutation']))
RULES['rev'] = by_ids(lambda eqn, a: np.flip(a, eqn.params['dimensions']))
RULES['slice'] = by_ids(
    lambda eqn, a: a[
        tuple(
            slice(s, l, st)
            for s, l, st in zip(
                eqn.params['start_indices'],
                eqn.params['limit_indices'],
                eqn.params['strides'] or [1] * a.ndim,
            )
        )
    ]
)


@rule('dynamic_slice')
def _(eqn, a, *starts):
    def go(eqn, ids, *starts):
        sizes = eqn.params['slice_sizes']
        idx = []
        for s, n, d in zip(starts, sizes, ids.shape):
            s = int(np.asarray(s))
            s = s + d if s < 0 else s
            s = max(0, min(s, d - n))
            idx.append(slice(s, s + n))
        return ids[tuple(idx)]

    # negative starts are already normalised by jnp; lax clamps
    def go2(eqn, ids, *starts):
        sizes = eqn.params['slice_sizes']
        idx = []
        for s, n, d in zip(starts, sizes, ids.shape):
            s = max(0, min(int(np.asarray(s)), d - n))
            idx.append(slice(s, s + n))
        return ids[tuple(idx)]

    return by_ids(go2)(eqn, a, *starts)


@rule('dynamic_update_slice')
def _(eqn, a, upd, *starts):
    def go(eqn, ids, upd, *starts):
        out = ids.copy()
        idx = []
        for s, n, d in zip(starts, upd.shape, ids.shape):
            s = max(0, min(int(np.asarray(s)), d - n))
            idx.append(slice(s, s + n))
        out[tuple(idx)] = upd
        return out

    return by_ids(go, 2)(eqn, a, upd, *starts)


@rule('concatenate')
def _(eqn, *args):
    return np.concatenate([lift_array(a) for a in args], axis=eqn.params['dimension'])


@rule('split')
def _(eqn, a):
    return list(
        np.split(a, np.cumsum(eqn.params['sizes'])[:-1], axis=eqn.params['axis'])
    )


@rule('pad')
def _(eqn, a, val):
    def go(eqn, ids, v):
        out = jax.lax.pad(
            jnp.asarray(ids, np.int32), jnp.asarray(v, np.int32), eqn.params['padding_config']
        )
        return np.asarray(out)

    return by_ids(go, 2)(eqn, a, val)


@rule('gather')
def _(eqn, a, idx):
    if is_sym(idx):
        raise Unsupported('gather with symbolic indices')

    def go(eqn, ids, idx):
        out = np.asarray(
            eqn.primitive.bind(jnp.asarray(ids, np.int32), jnp.asarray(idx), **eqn.params)
        )
        return out

    ids_out = None
    table = [X.ZERO] + list(lift_array(a).ravel())
    ids = np.arange(1, a.size + 1, dtype=np.int32).reshape(a.shape)
    ids_out = go(eqn, ids, idx)
    out = obj(ids_out.shape)
    for i in np.ndindex(ids_out.shape):
        k = int(ids_out[i])
        out[i] = table[k] if 0 <= k < len(table) else X.NAN  # fill of out-of-bounds
    return out


# ------------------------------------------------------------- scatters


def landing(eqn, op_shape, idx, upd_shape):
    """For each update element, the flat position it is scattered to, or -1."""
    p = eqn.params
    d = p['dimension_numbers']
    idx = np.asarray(idx)
    mode = p['mode']
    clip = mode == jax.lax.GatherScatterMode.CLIP
    drop = mode == jax.lax.GatherScatterMode.FILL_OR_DROP
    obatch = tuple(getattr(d, 'operand_batching_dims', ()))
    ibatch = tuple(getattr(d, 'scatter_indices_batching_dims', ()))
    window = tuple(d.update_window_dims)
    scatter = [i for i in range(len(upd_shape)) if i not in window]
    free = [
        i
        for i in range(len(op_shape))
        if i not in d.inserted_window_dims and i not in obatch
    ]
    # the extent of a window along each operand dimension
    extent = [1] * len(op_shape)
    for w, o in zip(window, free):
        extent[o] = upd_shape[w]
    pos = np.full(int(np.prod(upd_shape, dtype=int)), -1)
    for k, u in enumerate(np.ndindex(*upd_shape)):
        at = tuple(u[i] for i in scatter)
        start = [0] * len(op_shape)
        for j, o in enumerate(d.scatter_dims_to_operand_dims):
            start[o] = int(idx[(*at, j)])
        ok = True
        for o in d.scatter_dims_to_operand_dims:
            last = op_shape[o] - extent[o]
            if clip:
                start[o] = min(max(start[o], 0), last)
            elif not 0 <= start[o] <= last:
                if not drop:
                    raise Unsupported('scatter outside the promised bounds')
                ok = False
        if not ok:
            continue
        for o, i in zip(obatch, ibatch):
            start[o] = at[i]
        for w, o in zip(window, free):
            start[o] += u[w]
        pos[k] = np.ravel_multi_index(tuple(start), op_shape)
    return pos


def scatter_rule(combine):
    def run(eqn, operand, idx, upd):
        if is_sym(idx):
            raise Unsupported('scatter with symbolic indices')
        pos = landing(eqn, operand.shape, idx, upd.shape)
        out = lift_array(operand).copy()
        flat = out.reshape(-1)
        if flat.base is None and flat is not out:
            flat = out.ravel()
        u = lift_array(upd).ravel()
        for k, q in enumerate(pos):
            if q >= 0:
                flat[q] = combine(flat[q], u[k])
        return flat.reshape(out.shape)

    return run


RULES['scatter-add'] = RULES['scatter_add'] = scatter_rule(alg.add)
RULES['scatter-mul'] = RULES['scatter_mul'] = scatter_rule(alg.mul)
RULES['scatter-max'] = RULES['scatter_max'] = scatter_rule(alg.max_)
RULES['scatter-min'] = RULES['scatter_min'] = scatter_rule(alg.min_)
RULES['scatter'] = scatter_rule(lambda a, b: b)


# ------------------------------------------------------------- reductions


def reduce_rule(op, unit):
    def run(eqn, a):
        axes = tuple(eqn.params['axes'])
        keep = [i for i in range(a.ndim) if i not in axes]
        t = a.transpose(*keep, *axes).reshape([a.shape[i] for i in keep] + [-1])
        out = obj(t.shape[:-1])
        for i in np.ndindex(out.shape):
            s = unit()
            for e in t[i]:
                s = e if s is None else op(s, e)
            out[i] = s
        return out

    return run


RULES['reduce_sum'] = reduce_rule(alg.add, lambda: X.ZERO)
RULES['reduce_prod'] = reduce_rule(alg.mul, lambda: X.ONE)
RULES['reduce_max'] = reduce_rule(alg.max_, lambda: None)
RULES['reduce_min'] = reduce_rule(alg.min_, lambda: None)


def cumulative(op):
    def run(eqn, a):
        ax = eqn.params['axis']
        t = np.moveaxis(a, ax, -1)
        if eqn.params['reverse']:
            t = t[..., ::-1]
        out = obj(t.shape)
        for i in np.ndindex(t.shape[:-1]):
            s = None
            for k in range(t.shape[-1]):
                s = t[i][k] if s is None else op(s, t[i][k])
                out[(*i, k)] = s
        if eqn.params['reverse']:
            out = out[..., ::-1]
        return np.moveaxis(out, -1, ax)

    return run


RULES['cumsum'] = cumulative(alg.add)
RULES['cumprod'] = cumulative(alg.mul)
RULES['cummax'] = cumulative(alg.max_)
RULES['cummin'] = cumulative(alg.min_)
RULES['cumlogsumexp'] = cumulative(
    lambda a, b: alg.unary('log', alg.add(alg.unary('exp', a), alg.unary('exp', b)))
)


def window_rule(op, unit):
    def run(eqn, a):
        q = eqn.params
        if any(d != 1 for d in q['base_dilation']):
            raise Unsupported('base dilation')
        shape = eqn.outvars[0].aval.shape
        a = lift_array(a)
        out = obj(shape)
        for i in np.ndindex(shape):
            acc = None
            for w in np.ndindex(*q['window_dimensions']):
                j = tuple(
                    k * s + d * wd - lo
                    for k, s, d, wd, (lo, _) in zip(
                        i, q['window_strides'], w, q['window_dilation'], q['padding']
                    )
                )
                if all(0 <= k < n for k, n in zip(j, a.shape)):
                    acc = a[j] if acc is None else op(acc, a[j])
            out[i] = unit() if acc is None else acc
            if out[i] is None:
                raise Unsupported('empty window')
        return out

    return run


RULES['reduce_window_max'] = window_rule(alg.max_, lambda: None)
RULES['reduce_window_min'] = window_rule(alg.min_, lambda: None)
RULES['reduce_window_sum'] = window_rule(alg.add, lambda: X.ZERO)


def arg_rule(better):
    def run(eqn, a):
        (ax,) = eqn.params['axes']
        t = np.moveaxis(a, ax, -1)
        out = np.zeros(t.shape[:-1], dtype=eqn.params['index_dtype'])
        for i in np.ndindex(out.shape):
            best = 0
            for k in range(1, t.shape[-1]):
                if better(t[i][k], t[i][best]):
                    best = k
            out[i] = best
        return out

    return run


RULES['argmax'] = arg_rule(lambda a, b: alg.cmp(a, b) > 0)
RULES['argmin'] = arg_rule(lambda a, b: alg.cmp(a, b) < 0)


@rule('dot_general')
def _(eqn, a, b):
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    a, b = lift_array(a), lift_array(b)
    lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
    nb = [a.shape[i] for i in lb]
    nl = int(np.prod([a.shape[i] for i in lf], dtype=int))
    nr = int(np.prod([b.shape[i] for i in rf], dtype=int))
    k = int(np.prod([a.shape[i] for i in lc], dtype=int))
    B = b.transpose(*rb, *rf, *rc).reshape(nb + [nr, k])
    A = a.transpose(*lb, *lf, *lc).reshape(nb + [nl, k])
    out = obj(nb + [nl, nr])
    for i in np.ndindex(*nb):
        for p in range(nl):
            for q in range(nr):
                s = X.ZERO
                for t in range(k):
                    u, v = A[(*i, p, t)], B[(*i, q, t)]
                    if u is X.ZERO or v is X.ZERO:
                        continue
                    s = alg.add(s, alg.mul(u, v))
                out[(*i, p, q)] = s
    return out.reshape(eqn.outvars[0].aval.shape)


@rule('conv_general_dilated')
def _(eqn, a, b):
    """Bilinear: the coefficients come from running the real primitive on units."""
    a, b = lift_array(a), lift_array(b)
    if a.size * b.size > 4000:
        raise Unsupported('large convolution')
    ea = np.eye(a.size).reshape(a.size, *a.shape)
    eb = np.eye(b.size).reshape(b.size, *b.shape)

    def one(u, v):
        return eqn.primitive.bind(u, v, **eqn.params)

    coef = np.asarray(
        jax.vmap(lambda u: jax.vmap(lambda v: one(u, v))(jnp.asarray(eb)))(jnp.asarray(ea))
    )
    out = obj(eqn.outvars[0].aval.shape)
    for i in np.ndindex(out.shape):
        s = X.ZERO
        for p, q in zip(*np.nonzero(coef[(..., *i)])):
            c = X.from_number(float(coef[(p, q, *i)]))
            s = alg.add(s, alg.scale(c, alg.mul(a.ravel()[p], b.ravel()[q])))
        out[i] = s
    return out


@rule('sort')
def _(eqn, *args):
    dim, nk = eqn.params['dimension'], eqn.params['num_keys']
    arrs = [np.moveaxis(np.asarray(a), dim, -1) for a in args]
    outs = [np.empty_like(a) for a in arrs]

    def less(i, p, q):
        for a in arrs[:nk]:
            s = alg.cmp(alg.lift(a[i][p]), alg.lift(a[i][q]))
            if s:
                return s
        return 0

    for i in np.ndindex(arrs[0].shape[:-1]):
        order = sorted(
            range(arrs[0].shape[-1]), key=functools.cmp_to_key(lambda p, q: less(i, p, q))
        )
        for a, o in zip(arrs, outs):
            for k, p in enumerate(order):
                o[(*i, k)] = a[i][p]
    return [np.moveaxis(o, -1, dim) for o in outs]


@rule('top_k')
def _(eqn, a):
    k = eqn.params['k']
    out = obj((*a.shape[:-1], k))
    idx = np.zeros((*a.shape[:-1], k), np.int32)
    for i in np.ndindex(a.shape[:-1]):
        order = sorted(
            range(a.shape[-1]),
            key=functools.cmp_to_key(lambda p, q: -alg.cmp(a[i][p], a[i][q])),
        )
        for j in range(k):
            out[(*i, j)], idx[(*i, j)] = a[i][order[j]], order[j]
    return [out, idx]


# ------------------------------------------------------------- linear algebra


@rule('lu')
def _(eqn, a):
    a = lift_array(a)
    n, m = a.shape[-2:]
    out = a.copy()
    piv = np.zeros((*a.shape[:-2], min(n, m)), np.int32)
    perm = np.zeros((*a.shape[:-2], n), np.int32)
    for i in np.ndindex(a.shape[:-2]):
        M = [list(r) for r in a[i]]
        p = list(range(n))
        for k in range(min(n, m)):
            best = k
            for r in range(k + 1, n):
                if bigger(M[r][k], M[best][k]):
                    best = r
            piv[(*i, k)] = best
            M[k], M[best] = M[best], M[k]
            p[k], p[best] = p[best], p[k]
            for r in range(k + 1, n):
                f = alg.div(M[r][k], M[k][k])
                M[r][k] = f
                for c in range(k + 1, m):
                    M[r][c] = alg.sub(M[r][c], alg.mul(f, M[k][c]))
        for r in range(n):
            for c in range(m):
                out[(*i, r, c)] = M[r][c]
        perm[i] = p
    return [out, piv, perm]


def bigger(a, b):
    if isinstance(a, alg.Cx) or isinstance(b, alg.Cx):
        # LAPACK's pivot choice for complex: |re| + |im|; any choice gives the
        # same inverse and determinant, so compare squared moduli
        a, b = alg.cx(alg.strip(a)), alg.cx(alg.strip(b))
        return alg.cmp(_norm2(a), _norm2(b)) > 0
    # |a| > |b|: compare squares, no signs needed
    a, b = alg.value(a), alg.value(b)
    return alg.cmp(X.mul(a, a), X.mul(b, b)) > 0


def _norm2(a):
    return X.add(X.mul(a.re, a.re), X.mul(a.im, a.im))


@rule('triangular_solve')
def _(eqn, a, b):
    p = eqn.params
    a, b = lift_array(a), lift_array(b)
    out = obj(b.shape)
    for i in np.ndindex(a.shape[:-2]):
        A, B = a[i], b[i]
        lower = p['lower']
        if p['conjugate_a']:
            A = conj(A)
        if p['transpose_a']:
            A, lower = A.T, not lower
        if not p['left_side']:  # X A = B  <=>  A^T X^T = B^T
            A, B, lower = A.T, B.T, not lower
        n = A.shape[0]
        S = obj(B.shape)
        order = range(n) if lower else range(n - 1, -1, -1)
        for c in range(B.shape[1]):
            for r in order:
                s = B[r, c]
                for k in range(r) if lower else range(r + 1, n):
                    if A[r, k] is X.ZERO or S[k, c] is X.ZERO:
                        continue
                    s = alg.sub(s, alg.mul(A[r, k], S[k, c]))
                S[r, c] = s if p['unit_diagonal'] else alg.div(s, A[r, r])
        out[i] = S if p['left_side'] else S.T
    return out


def conj(a):
    out = obj(a.shape)
    for i in np.ndindex(a.shape):
        e = a[i]
        out[i] = alg.Cx(e.re, alg.neg(e.im)) if isinstance(e, alg.Cx) else e
    return out


@rule('cholesky')
def _(eqn, a):
    out = obj(a.shape)
    for i in np.ndindex(a.shape[:-2]):
        A = a[i]
        n = A.shape[0]
        Lm = obj(A.shape)
        Lm[...] = X.ZERO
        for c in range(n):
            s = A[c, c]
            for k in range(c):
                s = alg.sub(s, alg.mul(Lm[c, k], Lm[c, k]))
            Lm[c, c] = alg.sqrt(s)
            for r in range(c + 1, n):
                s = A[r, c]
                for k in range(c):
                    s = alg.sub(s, alg.mul(Lm[r, k], Lm[c, k]))
                Lm[r, c] = alg.div(s, Lm[c, c])
        out[i] = Lm
    return out


# ------------------------------------------------------------- control flow


def sub_jaxpr(j):
    return (j.jaxpr, j.consts) if isinstance(j, core.ClosedJaxpr) else (j, ())


def call_rule(key):
    def run(eqn, *args):
        j, consts = sub_jaxpr(eqn.params[key])
        return evaluate(j, consts, args)

    return run


for _n, _k in dict(
    pjit='jaxpr',
    closed_call='call_jaxpr',
    core_call='call_jaxpr',
    custom_jvp_call='call_jaxpr',
    custom_vjp_call='call_jaxpr',
    custom_vjp_call_jaxpr='fun_jaxpr',
    checkpoint='jaxpr',
    remat='jaxpr',
    remat2='jaxpr',
    custom_lin='call_jaxpr',
).items():
    RULES[_n] = call_rule(_k)


def _jets(args):
    return any(isinstance(e, alg.Jet) or (isinstance(e, alg.Cx) and isinstance(e.re, alg.Jet))
               for a in args if is_sym(a) for e in np.asarray(a, dtype=object).ravel())


def _each(f, *args):
    args = [lift_array(a) for a in args]
    out = obj(args[0].shape)
    for i in np.ndindex(out.shape):
        out[i] = f(*(a[i] for a in args))
    return out


def _strip(a):
    return _each(alg.strip, a) if is_sym(a) else a


def _without_value(e):
    if isinstance(e, alg.Cx):
        return alg.Cx(_without_value(e.re), _without_value(e.im))
    return alg.Jet(X.ZERO, e.J, e.L) if isinstance(e, alg.Jet) else X.ZERO


@rule('custom_linear_solve', 'linear_solve')
def _(eqn, *args):
    lens = eqn.params['const_lengths']
    jx = eqn.params['jaxprs']
    n_mv, n_vm, n_s = lens.matvec, lens.vecmat, lens.solve
    matvec_consts, solve_consts = args[:n_mv], args[n_mv + n_vm : n_mv + n_vm + n_s]
    b = args[n_mv + n_vm + n_s + lens.transpose_solve :]
    j, consts = sub_jaxpr(jx.solve)
    if not _jets(args):
        return evaluate(j, consts, [*solve_consts, *b])
    # The derivatives are those of the x with A x = b: the residual of a solution has no value,
    # and the solution of the residual corrects the Jacobian and then the Laplacian.
    solve_consts = [_strip(c) for c in solve_consts]
    mv, mv_consts = sub_jaxpr(jx.matvec)
    x = list(evaluate(j, consts, [*solve_consts, *b]))
    if len(x) != len(b):
        raise Unsupported('solvers with additional results')
    for _ in range(2):
        Ax = evaluate(mv, mv_consts, [*matvec_consts, *x])
        r = [_each(lambda p, q: _without_value(alg.sub(p, q)), u, v) for u, v in zip(b, Ax)]
        dx = evaluate(j, consts, [*solve_consts, *r])
        x = [_each(alg.add, u, v) for u, v in zip(x, dx)]
    return x


@rule('cond')
def _(eqn, idx, *args):
    if is_sym(idx):
        raise Unsupported('symbolic branch index')
    br = eqn.params['branches']
    k = max(0, min(int(idx), len(br) - 1))
    return evaluate(br[k].jaxpr, br[k].consts, args)


@rule('scan')
def _(eqn, *args):
    p = eqn.params
    nc, nk, n = p['num_consts'], p['num_carry'], p['length']
    consts, carry, xs = args[:nc], list(args[nc : nc + nk]), args[nc + nk :]
    ys = [None] * n
    order = range(n - 1, -1, -1) if p['reverse'] else range(n)
    for t in order:
        out = evaluate(
            p['jaxpr'].jaxpr, p['jaxpr'].consts, [*consts, *carry, *(x[t] for x in map(arr, xs))]
        )
        carry, ys[t] = list(out[:nk]), out[nk:]
    n_y = len(eqn.outvars) - nk
    stacked = []
    for k in range(n_y):
        col = [arr(y[k]) for y in ys]
        if not col:
            a = eqn.outvars[nk + k].aval
            stacked.append(np.zeros(a.shape, a.dtype))
        elif any(is_sym(c) for c in col):
            stacked.append(np.stack([lift_array(c) for c in col]))
        else:
            stacked.append(np.stack(col))
    return carry + stacked


@rule('while')
def _(eqn, *args):
    p = eqn.params
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    cc, bc, carry = args[:nc], args[nc : nc + nb], list(args[nc + nb :])
    for _ in range(200):
        (go,) = evaluate(p['cond_jaxpr'].jaxpr, p['cond_jaxpr'].consts, [*cc, *carry])
        if is_sym(go):
            raise Unsupported('symbolic loop condition')
        if not bool(go):
            return carry
        carry = evaluate(p['body_jaxpr'].jaxpr, p['body_jaxpr'].consts, [*bc, *carry])
    raise Unsupported('loop bound exceeded')


def arr(a):
    return a if isinstance(a, np.ndarray) else np.asarray(a)


# numpy equivalents of primitives on concrete values, to avoid compilations
NP = {
    'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'neg': np.negative,
    'max': np.maximum, 'min': np.minimum, 'eq': np.equal, 'ne': np.not_equal,
    'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal,
    'not': np.logical_not, 'add_any': np.add,
}


def run_concrete(eqn, args):
    name = eqn.primitive.name
    av = [v.aval for v in eqn.outvars]
    if name in NP and (name != 'not' or args[0].dtype == bool):
        return np.asarray(NP[name](*args), dtype=av[0].dtype)
    if name in ('and', 'or', 'xor') and args[0].dtype == bool:
        return {'and': np.logical_and, 'or': np.logical_or, 'xor': np.logical_xor}[name](*args)
    if name == 'broadcast_in_dim' and len(args) == 1:
        shape, dims = eqn.params['shape'], eqn.params['broadcast_dimensions']
        new = [1] * len(shape)
        for d, s in zip(dims, args[0].shape):
            new[d] = s
        return np.broadcast_to(args[0].reshape(new), shape)
    if name == 'convert_element_type' and not (
        np.iscomplexobj(args[0]) or np.issubdtype(av[0].dtype, np.integer) and args[0].dtype.kind == 'f'
    ):
        return args[0].astype(av[0].dtype)
    if name in ('reshape', 'squeeze', 'expand_dims') and eqn.params.get('dimensions') is None or name in ('squeeze', 'expand_dims'):
        return args[0].reshape(av[0].shape)
    if name == 'transpose':
        return args[0].transpose(eqn.params['permutation'])
    if name == 'iota':
        return np.asarray(eqn.primitive.bind(**eqn.params))
    if name == 'select_n':
        shape = av[0].shape
        w = np.broadcast_to(args[0].astype(int), shape)
        if not shape:
            return np.asarray(args[1 + int(w)])
        out = np.array(np.broadcast_to(args[1], shape))
        for k in range(1, len(args) - 1):
            out = np.where(w == k, args[1 + k], out)
        return out.astype(av[0].dtype)
    if name == 'concatenate':
        return np.concatenate(args, axis=eqn.params['dimension'])
    subfuns, params = eqn.primitive.get_bind_params(eqn.params)
    out = eqn.primitive.bind(*subfuns, *map(jnp.asarray, args), **params)
    if eqn.primitive.multiple_results:
        return [np.asarray(o) for o in out]
    return np.asarray(out)


CONTROL = {
    'pjit', 'closed_call', 'core_call', 'custom_jvp_call', 'custom_vjp_call',
    'custom_vjp_call_jaxpr', 'checkpoint', 'remat', 'remat2', 'scan', 'cond', 'while',
}

OVERRIDE = []  # [(predicate(eqn), rule)] installed by the reference semantics


def evaluate(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return np.asarray(v.val, dtype=v.aval.dtype)
        return env[v]

    def np_(a):
        return a if isinstance(a, np.ndarray) else np.asarray(a)

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = np_(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = np_(a)
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        CALLS[name] = CALLS.get(name, 0) + 1
        f = None
        for pred, g in OVERRIDE:
            if pred(eqn):
                f = g
                break
        if f is None:
            if any(is_sym(a) for a in ins):
                f = RULES.get(name)
                if f is None:
                    raise Unsupported(f'primitive {name}')
            elif name in CONTROL:
                f = RULES[name]
        out = run_concrete(eqn, ins) if f is None else f(eqn, *ins)
        if not eqn.primitive.multiple_results:
            out = [out]
        elif not isinstance(out, (list, tuple)):
            out = [out]
        for v, o in zip(eqn.outvars, out):
            o = np_(o)
            if o.shape != tuple(v.aval.shape):
                raise AssertionError(f'{name}: shape {o.shape}, expected {v.aval.shape}')
            if is_sym(o) and np.issubdtype(v.aval.dtype, np.complexfloating):
                o = elementwise(alg.cx)(eqn, o) if eqn.outvars[0] is v else _cx(o)
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _cx(a):
    out = obj(a.shape)
    for i in np.ndindex(a.shape):
        out[i] = alg.cx(a[i])
    return out
