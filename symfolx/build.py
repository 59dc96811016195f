"""Builders for cases: forward Laplacians of a program against the textbook rule."""
from __future__ import annotations

import functools
import logging
from dataclasses import dataclass
from typing import Any

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from . import alg, interp
from . import expr as X
from .alg import Jet
from .case import Case, Var

import folx
from folx.api import IS_LPL_ARR, FwdJacobian, FwdLaplArray

logging.disable(logging.CRITICAL)


# ------------------------------------------------------------------ reference


def trace_fn(fn, *args):
    return jax.make_jaxpr(fn)(*args)


def run_ref(fn, avals, sym_args):
    """Executes fn's own jaxpr (traced without folx) on symbolic arguments.

    avals and sym_args are pytrees of the same structure."""
    closed, shape = jax.make_jaxpr(fn, return_shape=True)(*avals)
    flat = jtu.tree_leaves(sym_args, is_leaf=lambda x: isinstance(x, np.ndarray))
    return interp.evaluate(closed.jaxpr, closed.consts, flat)


def to_aval(x):
    return jax.ShapeDtypeStruct(x.shape, x.dtype)


def jets_of_inputs(arrays, weights=None):
    """Jets of plain inputs: identity Jacobian (scaled by weights), zero Laplacian."""
    n = sum(a.size for a in arrays)
    out, k = [], 0
    for a in arrays:
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            J = [X.ZERO] * n
            J[k] = X.ONE if weights is None else weights[k]
            b[i] = Jet(a[i], J, X.ZERO)
            k += 1
        out.append(b)
    return out


def jets_from_state(x, data, mask, lapl, n):
    """Jets of an incoming (value, Jacobian, Laplacian) with optional index mask."""
    b = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        J = [X.ZERO] * n
        for r in range(data.shape[0]):
            k = r if mask is None else int(mask[(r, *i)])
            if k >= 0:
                J[k] = X.add(J[k], data[(r, *i)])
        b[i] = Jet(x[i], J, lapl[i])
    return b


def split_jets(arr, n):
    """(value, dense Jacobian, Laplacian) arrays of an array of scalars."""
    arr = interp.lift_array(arr)
    v = np.empty(arr.shape, dtype=object)
    J = np.empty((n, *arr.shape), dtype=object)
    L = np.empty(arr.shape, dtype=object)

    def parts(e):
        if isinstance(e, Jet):
            return e.v, e.J, e.L
        return e, [X.ZERO] * n, X.ZERO

    for i in np.ndindex(arr.shape):
        e = arr[i]
        if isinstance(e, alg.Cx):
            a, b = parts(e.re), parts(e.im)
            v[i] = alg.Cx(a[0], b[0])
            L[i] = alg.Cx(a[2], b[2])
            for k in range(n):
                J[(k, *i)] = alg.Cx(a[1][k], b[1][k])
        else:
            a = parts(e)
            v[i], L[i] = a[0], a[2]
            for k in range(n):
                J[(k, *i)] = a[1][k]
    return v, J, L


def ref_triples(outs, n):
    flat = []
    for o in outs:
        flat += split_jets(o, n)
    return flat


# ------------------------------------------------------------------ implementation


def pad_rows(J, n):
    if J.shape[0] < n:
        J = jnp.concatenate([J, jnp.zeros((n - J.shape[0], *J.shape[1:]), J.dtype)], 0)
    return J


def triples(out, n):
    """Flat [x, dense Jacobian, Laplacian]*; constants have zero derivatives."""
    flat = []
    for leaf in jtu.tree_leaves(out, is_leaf=IS_LPL_ARR):
        if isinstance(leaf, FwdLaplArray):
            flat += [leaf.x, dense_jacobian(leaf.jacobian, n), leaf.laplacian]
        else:
            leaf = jnp.asarray(leaf)
            z = jnp.zeros(leaf.shape)
            flat += [leaf, jnp.zeros((n, *leaf.shape)), z]
    return flat


def dense_jacobian(jac, n):
    if isinstance(jac.x0_idx, jax.core.Tracer):
        # the result of a jitted function inside this trace: the mask is a constant
        # of that function, but JAX hides it
        k, *shape = jac.data.shape
        rows = jac.x0_idx.reshape(k, -1)
        cols = jnp.broadcast_to(jnp.arange(rows.shape[1]), rows.shape)
        flat = jnp.zeros((n, rows.shape[1]), jac.data.dtype)
        rows = jnp.where(rows < 0, n, rows)
        flat = flat.at[rows, cols].add(jac.data.reshape(k, -1), mode='drop')
        return flat.reshape(n, *shape)
    return pad_rows(jac.dense_array, n)


class Structure:
    """Static facts observed while the implementation is traced."""

    def __init__(self):
        self.bad = []
        self.info = {}

    def __call__(self):
        return self.bad

    def expect(self, cond, msg):
        if not cond and msg not in self.bad:
            self.bad.append(msg)

    def output(self, out, expected, check_dtype=True):
        """Output pytree against jax.eval_shape of the function itself."""
        leaves, tree = jtu.tree_flatten(out, is_leaf=IS_LPL_ARR)
        eleaves, etree = jtu.tree_flatten(expected)
        self.expect(tree == etree, f'output structure {tree}, expected {etree}')
        for a, e in zip(leaves, eleaves):
            parts = {'value': a}
            if isinstance(a, FwdLaplArray):
                parts = {'value': a.x, 'laplacian': a.laplacian, 'jacobian': a.jacobian.data}
            for k, p in parts.items():
                shape = p.shape[1:] if k == 'jacobian' else p.shape
                self.expect(
                    tuple(shape) == tuple(e.shape),
                    f'{k} of shape {shape}, expected {e.shape}',
                )
                if check_dtype:
                    self.expect(p.dtype == e.dtype, f'{k} of type {p.dtype}, expected {e.dtype}')


def input_case(
    name,
    fn,
    inputs,
    threshold=0,
    params=None,
    weights=None,
    kwargs=None,
    disable_jit=True,
    check_dtype=True,
    tree=None,
    fn_kwargs=None,
    ref_fn=None,
    **kw,
):
    """forward_laplacian(fn)(inputs) from plain arrays.

    inputs: list of Var; params: {name: Var} symbolic constants, passed to fn as
    a leading dict when given; tree: function from the list of input arrays to
    the positional arguments (a tuple of pytrees)."""
    tree = tree or (lambda xs: tuple(xs))
    vars = {f'x{i}': v for i, v in enumerate(inputs)}
    params = params or {}
    vars.update(params)
    n = sum(int(np.prod(v.shape, dtype=int)) for v in inputs)
    st = Structure()
    wname = None
    if weights == 'symbolic':
        vars['w'] = Var((n,))
    fk = fn_kwargs or {}

    def call(p):
        return functools.partial(fn, p) if params else fn

    symbolic = isinstance(threshold, str)
    if symbolic:
        # every threshold, fractions of the input included
        kw['choices'] = {'threshold': ('Real', 0, n + 2)}
        kw.setdefault('max_paths', 4 * n + 40)

    def impl(*, threshold=threshold, **arrs):
        p = {k: arrs[k] for k in params}
        args = tree([arrs[f'x{i}'] for i in range(len(inputs))])
        f = call(p)
        st.bad.clear()
        fwd = folx.forward_laplacian(f, threshold, disable_jit=disable_jit)
        extra = {}
        if weights is not None:
            extra['weights'] = (
                weights(arrs) if callable(weights) else arrs['w']
            )
        out = fwd(*args, **fk, **extra)
        st.output(out, jax.eval_shape(functools.partial(f, **fk), *args), check_dtype)
        return triples(out, n)

    def ref(S):
        xs = [S[f'x{i}'] for i in range(len(inputs))]
        w = None
        if weights is not None:
            w = kw_weights(S)
        jets = jets_of_inputs(xs, w)
        p = {k: S[k] for k in params}
        pav = {k: jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for k, v in params.items()}
        xav = tree([jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for v in inputs])
        f = functools.partial(ref_fn or fn, **fk)
        if params:
            outs = run_ref(lambda p, a: f(p, *a), (pav, xav), (p, tree(jets)))
        else:
            outs = run_ref(lambda *a: f(*a), xav, tree(jets))
        return ref_triples(outs, n)

    kw_weights = kw.pop('ref_weights', lambda S: list(S['w'].ravel()))
    return Case(name, vars, impl, ref, st, **kw)


@dataclass
class In:
    """An argument with an incoming Jacobian and Laplacian.

    mask: None (dense, n rows), an int array of shape (k, *shape), or 'const' for
    a symbolic constant without derivatives."""

    shape: tuple
    mask: Any = None
    complex: bool = False
    pos: bool = False
    lo: Any = None
    hi: Any = None
    rows: int | None = None

    def var(self):
        return Var(self.shape, self.complex, self.pos, self.lo, self.hi)


def state_case(name, fn, args, n, threshold=0, call=None, check_dtype=True, ref_fn=None, **kw):
    """One application of folx to arbitrary incoming states (an induction step)."""
    vars = {}
    for i, a in enumerate(args):
        vars[f'x{i}'] = a.var()
        if isinstance(a.mask, str):
            continue
        k = (a.rows or n) if a.mask is None else a.mask.shape[0]
        vars[f'J{i}'] = Var((k, *a.shape), a.complex)
        vars[f'L{i}'] = Var(a.shape, a.complex)
    st = Structure()

    def states(arrs):
        out = []
        for i, a in enumerate(args):
            if isinstance(a.mask, str):
                out.append(arrs[f'x{i}'])
                continue
            data = arrs[f'J{i}']
            if a.mask is not None and (a.mask < 0).any():
                # unused slots carry no derivative
                data = jnp.where(jnp.asarray(a.mask < 0), 0.0, data)
            out.append(
                FwdLaplArray(arrs[f'x{i}'], FwdJacobian(data, a.mask), arrs[f'L{i}'])
            )
        return out

    def impl(**arrs):
        st.bad.clear()
        s = states(arrs)
        if call is not None:
            out = call(*s)
        else:
            out = folx.forward_laplacian(fn, threshold, disable_jit=True)(*s)
        st.output(
            out,
            jax.eval_shape(fn, *[arrs[f'x{i}'] for i in range(len(args))]),
            check_dtype,
        )
        return triples(out, n)

    def ref(S):
        jets = []
        for i, a in enumerate(args):
            x = S[f'x{i}']
            if isinstance(a.mask, str):
                jets.append(x)
            elif a.complex:
                jets.append(complex_state(x, S[f'J{i}'], a.mask, S[f'L{i}'], n))
            else:
                jets.append(jets_from_state(x, S[f'J{i}'], a.mask, S[f'L{i}'], n))
        av = [jax.ShapeDtypeStruct(a.shape, a.var().np_dtype()) for a in args]
        outs = run_ref(ref_fn or fn, av, jets)
        return ref_triples(outs, n)

    return Case(name, vars, impl, ref, st, **kw)


def complex_state(x, data, mask, lapl, n):
    def part(a, k):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = getattr(a[i], k)
        return out

    re = jets_from_state(part(x, 're'), part(data, 're'), mask, part(lapl, 're'), n)
    im = jets_from_state(part(x, 'im'), part(data, 'im'), mask, part(lapl, 'im'), n)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        out[i] = alg.Cx(re[i], im[i])
    return out


# ------------------------------------------------------------------ masks


def masks(shape, n, rng=None, kinds=None):
    """Named sparsity patterns for an array of the given shape with n inputs."""
    size = int(np.prod(shape, dtype=int))
    ar = np.arange(size).reshape(shape)
    out = {
        'dense': None,
        'own': (ar % n)[None],
        'shared': np.broadcast_to(np.arange(min(2, n)).reshape(-1, *[1] * len(shape)),
                                  (min(2, n), *shape)).copy(),
        'two': np.stack([ar % n, (ar + 1) % n]),
        'dup': np.stack([ar % n, ar % n]),
        'part': np.stack([ar % n, np.where(ar % 2 == 0, (ar + 2) % n, -1)]),
        'rev': ((size - 1 - ar) % n)[None],
    }
    out = {k: (v if v is None else v.astype(np.int32)) for k, v in out.items()}
    return out if kinds is None else {k: out[k] for k in kinds}
