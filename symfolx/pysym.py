"""Symbolic numbers for plain Python code: comparisons fork the execution, and
int() forks over the possible values.  Used where a choice in Python (not in a
traced program) depends on a number given from outside."""
from __future__ import annotations

import numbers
import warnings

from . import solve

z3 = solve.z3


class Branch(BaseException):
    """The path is infeasible or beyond the bound."""


class Engine:
    def __init__(self, assume, max_paths=64):
        self.assume = list(assume)
        self.max_paths = max_paths
        self.truncated = False

    def explore(self, run):
        """Calls run() once per path; yields (constraints, result)."""
        global ENGINE
        stack = [[]]
        n = 0
        while stack:
            if n >= self.max_paths:
                self.truncated = True
                return
            self.prefix = stack.pop()
            self.taken, self.conds, self.new = [], [], []
            ENGINE = self
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    out = run()
            except Branch:
                stack.extend(self.new)
                continue
            finally:
                ENGINE = None
            stack.extend(self.new)
            n += 1
            yield list(self.assume) + list(self.conds), out

    def feasible(self, c):
        r, m = solve.check(self.assume + self.conds + c, 5000, kinds=('smt',))
        return r != 'unsat', m

    def choose(self, options):
        """options: constraints; takes the first feasible one, remembers the others."""
        k = len(self.taken)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            ok = [i for i, c in enumerate(options) if self.feasible([c])[0]]
            if not ok:
                raise Branch()
            i = ok[0]
            for j in ok[1:]:
                self.new.append(self.taken + [j])
        self.taken.append(i)
        self.conds.append(options[i])
        return i

    def value(self, z):
        """A concrete integer; other values are explored on other paths."""
        for _ in range(self.max_paths + 1):
            # the candidates are found in the same order on every execution
            v = self.smallest(z)
            if self.choose([z == v, z > v]) == 0:
                return v
        self.truncated = True
        raise Branch()

    def smallest(self, z):
        k = len(self.taken)
        key = (k, tuple(self.prefix[:k]))
        opt = z3.Optimize()
        opt.set('timeout', 5000)
        opt.add(*self.assume, *self.conds)
        opt.minimize(z)
        if str(opt.check()) != 'sat':
            raise Branch()
        solve.STATS.add('sat', 0.0)
        return opt.model().eval(z, model_completion=True).as_long()


ENGINE = None


def lift(x):
    if isinstance(x, Num):
        return x.z
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    return z3.RealVal(repr(float(x)))


def real(z):
    return z3.ToReal(z) if z.is_int() else z


def _bin(f, swap=False):
    def op(self, o):
        try:
            o = lift(o)
        except (TypeError, ValueError):
            return NotImplemented
        a, b = (o, self.z) if swap else (self.z, o)
        return Num(f(a, b))

    return op


def _cmp(f):
    def op(self, o):
        try:
            o = lift(o)
        except (TypeError, ValueError):
            return NotImplemented
        c = f(self.z, o)
        return ENGINE.choose([c, z3.Not(c)]) == 0

    return op


def _floordiv(a, b):
    if a.is_int() and b.is_int():
        # Python rounds to minus infinity; z3's Int division does for b > 0
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(real(a) / real(b)))


class Num:
    """A symbolic int or float."""

    def __init__(self, z):
        self.z = z

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: a - b, True)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _bin(lambda a, b: a * b)
    __truediv__ = _bin(lambda a, b: real(a) / real(b))
    __rtruediv__ = _bin(lambda a, b: real(a) / real(b), True)
    __floordiv__ = _bin(_floordiv)
    __rfloordiv__ = _bin(_floordiv, True)
    __mod__ = _bin(lambda a, b: a - b * _floordiv(a, b))
    __rmod__ = _bin(lambda a, b: a - b * _floordiv(a, b), True)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)
    __hash__ = object.__hash__

    def __neg__(self):
        return Num(-self.z)

    def __abs__(self):
        return Num(z3.If(self.z >= 0, self.z, -self.z))

    def __bool__(self):
        c = self.z != 0
        return ENGINE.choose([c, z3.Not(c)]) == 0

    def __trunc__(self):
        z = self.z
        if not z.is_int():
            z = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
        return ENGINE.value(z)

    __int__ = __trunc__

    def __index__(self):
        if not self.z.is_int():
            raise TypeError('a float is no index')
        return ENGINE.value(self.z)

    def __floor__(self):
        return ENGINE.value(self.z if self.z.is_int() else z3.ToInt(self.z))

    def __ceil__(self):
        return ENGINE.value(self.z if self.z.is_int() else -z3.ToInt(-self.z))

    def __round__(self, n=None):
        return ENGINE.value(self.z if self.z.is_int() else z3.ToInt(self.z + z3.RealVal('1/2')))

    def __float__(self):
        raise TypeError('float() of a symbolic number')
