"""Shared pieces of the case lists."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from ..build import *  # noqa: F401,F403
from ..build import In, input_case, masks, state_case
from ..case import Case, Var
from ..opq import opq

SPARSE = ('own', 'two', 'dup', 'part', 'rev', 'shared')


def probe(fn):
    """The function, and what a following product and sum make of its result."""

    def g(*a):
        y = fn(*a)
        return y, y * y, y.sum()

    g.__name__ = 'probe'
    return g


def after(fn):
    """Only what follows, for expensive functions."""

    def g(*a):
        y = fn(*a)
        return y, (y * y).sum()

    return g


def mask_of(kind, shape, n):
    if kind == 'const':
        return 'const'
    return masks(shape, n)[kind]


def step(name, fn, specs, n, threshold, dom=None, **kw):
    """specs: list of (shape, mask kind) or (shape, mask kind, domain dict)."""
    args = []
    for s in specs:
        d = dict(dom or {})
        if len(s) > 2:
            d.update(s[2])
        args.append(In(s[0], mask_of(s[1], s[0], n), **d))
    tag = ','.join(f'{"x".join(map(str, s[0])) or "s"}:{s[1]}' for s in specs)
    return state_case(f'{name} [{tag}] n={n} thr={threshold}', fn, args, n, threshold, **kw)
