"""Scalars of the symbolic executions.

* `E` (expr.py): a real value of the traced implementation.
* `Jet`: a real value together with its Jacobian row and its Laplacian; the
  textbook forward-Laplacian rule, applied to scalars only.  This is the
  reference semantics, and it shares no code with folx.
* `Cx`: a complex number, a pair of real scalars (E or Jet).
"""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from . import expr as X
from .expr import E, Unsupported


class Jet:
    __slots__ = ('v', 'J', 'L')

    def __init__(self, v, J, L):
        self.v, self.J, self.L = v, J, L

    def __repr__(self):
        return f'Jet({self.v})'


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f'Cx({self.re},{self.im})'


def lift(v):
    if isinstance(v, (E, Jet, Cx)):
        return v
    if isinstance(v, (complex, np.complexfloating)):
        return Cx(X.from_number(v.real), X.from_number(v.imag))
    if hasattr(v, 'item') and not isinstance(v, np.float32):
        v = v.item()
    return X.from_number(v)


def value(a):
    """The E value of a real scalar."""
    return a.v if isinstance(a, Jet) else a


def _acc(*pairs):
    s = X.ZERO
    for a, b in pairs:
        if a is X.ZERO or b is X.ZERO:
            continue
        s = X.add(s, X.mul(a, b))
    return s


def dot(J1, J2):
    return _acc(*zip(J1, J2))


def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if isinstance(a, Jet) or isinstance(b, Jet):
        if not isinstance(a, Jet):
            return Jet(X.add(a, b.v), b.J, b.L)
        if not isinstance(b, Jet):
            return Jet(X.add(a.v, b), a.J, a.L)
        return Jet(
            X.add(a.v, b.v), [X.add(p, q) for p, q in zip(a.J, b.J)], X.add(a.L, b.L)
        )
    return X.add(a, b)


def scale(c: E, a):
    if isinstance(a, Cx):
        return Cx(scale(c, a.re), scale(c, a.im))
    if isinstance(a, Jet):
        return Jet(X.mul(c, a.v), [X.mul(c, p) for p in a.J], X.mul(c, a.L))
    return X.mul(c, a)


def neg(a):
    return scale(X.MONE, a)


def sub(a, b):
    if isinstance(a, E) and isinstance(b, E):
        return X.sub(a, b)
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if not isinstance(a, Cx):
            return Cx(mul(a, b.re), mul(a, b.im))
        if not isinstance(b, Cx):
            return Cx(mul(a.re, b), mul(a.im, b))
        return Cx(
            sub(mul(a.re, b.re), mul(a.im, b.im)),
            add(mul(a.re, b.im), mul(a.im, b.re)),
        )
    if isinstance(a, Jet) or isinstance(b, Jet):
        if not isinstance(a, Jet):
            return scale(a, b)
        if not isinstance(b, Jet):
            return scale(b, a)
        return Jet(
            X.mul(a.v, b.v),
            [_acc((p, b.v), (q, a.v)) for p, q in zip(a.J, b.J)],
            X.add(_acc((a.L, b.v), (b.L, a.v)), X.mul(X.const(2), dot(a.J, b.J))),
        )
    return X.mul(a, b)


def apply_smooth(args, v, grad, hess):
    """g(args): value, first derivatives and symmetric second derivatives as E."""
    jets = [(i, a) for i, a in enumerate(args) if isinstance(a, Jet)]
    n = len(jets[0][1].J)
    J = [_acc(*[(grad(i), a.J[k]) for i, a in jets]) for k in range(n)]
    L = _acc(*[(grad(i), a.L) for i, a in jets])
    for i, a in jets:
        for j, b in jets:
            d = dot(a.J, b.J)
            if d is not X.ZERO:
                L = X.add(L, X.mul(hess(i, j), d))
    return Jet(v, J, L)


def inv(b):
    if isinstance(b, Jet):
        r = X.div(X.ONE, b.v)
        return apply_smooth(
            [b],
            r,
            lambda i: X.neg(X.mul(r, r)),
            lambda i, j: X.mul(X.const(2), X.mul(r, X.mul(r, r))),
        )
    return X.div(X.ONE, b)


def div(a, b):
    if isinstance(b, Cx):
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = mul(a, Cx(b.re, neg(b.im)))
        return Cx(div(n.re, d), div(n.im, d))
    if isinstance(a, Cx):
        return Cx(div(a.re, b), div(a.im, b))
    if isinstance(b, Jet):
        return mul(a, inv(b))
    if isinstance(a, Jet):
        return scale(X.div(X.ONE, b), a)
    return X.div(a, b)


def cx(a):
    return a if isinstance(a, Cx) else Cx(a, X.ZERO)


def unary(name, a):
    if isinstance(a, Cx):
        return complex_unary(name, a)
    if isinstance(a, Jet):
        v = X.UNARY[name](a.v)
        d1, d2 = X.DERIV[name](a.v)
        return apply_smooth([a], v, lambda i: d1, lambda i, j: d2)
    if X.special(a):
        if a is X.NAN:
            return X.NAN
        if name not in ('exp', 'tanh', 'log', 'sqrt'):
            raise Unsupported(f'{name} of infinity')
    return X.UNARY[name](a)


def sqrt(a):
    return unary('sqrt', a)


def complex_abs(a: Cx):
    return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)))


def atan2(y, x):
    vy, vx = value(y), value(x)
    v = X.atom(('atan2',), (vy, vx))
    if not (isinstance(y, Jet) or isinstance(x, Jet)):
        return v
    r2 = X.add(X.mul(vx, vx), X.mul(vy, vy))
    g = [X.div(vx, r2), X.neg(X.div(vy, r2))]
    r4 = X.mul(r2, r2)
    xy = X.mul(X.const(2), X.mul(vx, vy))
    m = X.div(X.sub(X.mul(vy, vy), X.mul(vx, vx)), r4)
    h = [[X.neg(X.div(xy, r4)), m], [m, X.div(xy, r4)]]
    return apply_smooth([y, x], v, lambda i: g[i], lambda i, j: h[i][j])


def complex_unary(name, a: Cx):
    u = unary
    if name == 'exp':
        e = u('exp', a.re)
        return Cx(mul(e, u('cos', a.im)), mul(e, u('sin', a.im)))
    if name == 'log':
        return Cx(
            scale(X.const(Fraction(1, 2)), u('log', add(mul(a.re, a.re), mul(a.im, a.im)))),
            atan2(a.im, a.re),
        )
    if name == 'sin':
        return Cx(
            mul(u('sin', a.re), u('cosh', a.im)), mul(u('cos', a.re), u('sinh', a.im))
        )
    if name == 'cos':
        return Cx(
            mul(u('cos', a.re), u('cosh', a.im)),
            neg(mul(u('sin', a.re), u('sinh', a.im))),
        )
    if name == 'sinh':
        return Cx(
            mul(u('sinh', a.re), u('cos', a.im)), mul(u('cosh', a.re), u('sin', a.im))
        )
    if name == 'cosh':
        return Cx(
            mul(u('cosh', a.re), u('cos', a.im)), mul(u('sinh', a.re), u('sin', a.im))
        )
    if name == 'tanh':
        # tanh(a + ib) = (e - 1)/(e + 1), e = exp(2a) (cos 2b + i sin 2b)
        e = complex_unary('exp', a)
        e2 = mul(e, e)
        return div(add(e2, X.MONE), add(e2, X.ONE))
    if name == 'tan':
        return div(complex_unary('sin', a), complex_unary('cos', a))
    if name == 'logistic':
        e = complex_unary('exp', a)
        return div(e, add(X.ONE, e))
    if name == 'sqrt':
        # principal root: r = |a|, re = sqrt((r + a.re)/2), im = a.im/(2 re)
        r = complex_abs(a)
        re = sqrt(scale(X.const(Fraction(1, 2)), add(r, a.re)))
        return Cx(re, div(a.im, scale(X.const(2), re)))
    if name == 'rsqrt':
        return div(X.ONE, complex_unary('sqrt', a))
    if name == 'log1p':
        return complex_unary('log', add(a, X.ONE))
    if name == 'expm1':
        return add(complex_unary('exp', a), X.MONE)
    raise Unsupported(f'complex {name}')


def ipow(a, n: int):
    if n == 0:
        return X.ONE
    if n < 0:
        return div(X.ONE, ipow(a, -n))
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def pow_(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if isinstance(b, E) and b.op == 'c' and b.args[0].denominator == 1:
            return ipow(a, int(b.args[0]))
        return unary('exp', mul(b, unary('log', cx(a))))
    if isinstance(b, E) and b.op == 'c' and b.args[0].denominator == 1:
        return ipow(a, int(b.args[0]))
    if isinstance(a, E) and isinstance(b, E):
        return X.pow_(a, b)
    return unary('exp', mul(b, unary('log', a)))


def strip(a):
    """The value without derivatives."""
    if isinstance(a, Cx):
        return Cx(strip(a.re), strip(a.im))
    return value(a)


# ------------------------------------------------------------- decisions


def cmp(a, b) -> int:
    """Sign of a - b on the current path (0: equal)."""
    a, b = value(a), value(b)
    if a is X.NAN or b is X.NAN:
        return None
    if a is b:
        return 0
    if a.op == 'inf' or b.op == 'inf':
        ka = a.args[0] if a.op == 'inf' else 0
        kb = b.args[0] if b.op == 'inf' else 0
        return (ka > kb) - (ka < kb)
    d = X.sub(a, b)
    if d.op == 'c':
        return (d.args[0] > 0) - (d.args[0] < 0)
    if d.sgn in (1, -1):
        return d.sgn
    if a.fp == b.fp and X.same(a, b):
        return 0
    return X.CTX.decide(d)


def compare(op, a, b) -> bool:
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        if op == 'eq':
            return compare('eq', a.re, b.re) and compare('eq', a.im, b.im)
        if op == 'ne':
            return not compare('eq', a, b)
        raise Unsupported('ordering of complex numbers')
    a, b = value(a), value(b)
    if op in ('eq', 'ne') and a is not X.NAN and b is not X.NAN:
        # no order needed: distinct expressions are taken to differ, the engine
        # adds this as a path condition
        if a is b:
            eq = True
        elif 'inf' in (a.op, b.op):
            eq = False
        else:
            d = X.sub(a, b)
            if d.op == 'c':
                eq = d.args[0] == 0
            elif d.sgn in (1, -1):
                eq = False
            elif a.fp == b.fp and X.same(a, b):
                eq = True
            else:
                X.CTX.decide(d, order=False)
                eq = False
        return eq if op == 'eq' else not eq
    s = cmp(a, b)
    if s is None:
        return op == 'ne'
    return {
        'lt': s < 0,
        'le': s <= 0,
        'gt': s > 0,
        'ge': s >= 0,
        'eq': s == 0,
        'ne': s != 0,
    }[op]


def sign(a):
    if isinstance(a, Cx):
        return div(strip(a), complex_abs(strip(a)))
    s = cmp(value(a), X.ZERO)
    return X.NAN if s is None else X.const(s)


def abs_(a):
    if isinstance(a, Cx):
        return complex_abs(a)
    s = cmp(value(a), X.ZERO)
    if s is None:
        return X.NAN
    return a if s >= 0 else neg(a)


def max_(a, b):
    s = cmp(a, b)
    if s is None:
        return X.NAN
    return a if s >= 0 else b


def min_(a, b):
    s = cmp(a, b)
    if s is None:
        return X.NAN
    return a if s <= 0 else b
