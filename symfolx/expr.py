"""Hash-consed real expressions, with uninterpreted atoms for transcendental functions.

An expression is a node of a DAG over +, *, / with rational constants, real
variables and *atoms*: applications of a named real function to expressions.
Nothing here decides a property: `rat` only brings an expression to the form
numerator/denominator so that an equality of two expressions becomes a
polynomial equation, which `solve.py` hands to the SMT solver.

Every node carries a fingerprint: its value at one random point modulo a prime.
Fingerprints only propose which arguments of atoms may be equal; the proposal
is used after the solver has confirmed it.
"""
from __future__ import annotations

import hashlib
import math
from fractions import Fraction

import numpy as np

P = (1 << 61) - 1


class Unsupported(Exception):
    """The engine has no encoding for something the traced program does."""


def prf(*items) -> int:
    h = hashlib.blake2b(repr(items).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') % P


class E:
    __slots__ = ('op', 'args', 'id', 'fp', 'sgn', 'rat', 'z')

    def __repr__(self):
        return f'E{self.id}:{show(self, 3)}'

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


class Ctx:
    def __init__(self):
        self.table = {}
        self.n = 0
        self.atoms = {}
        self.vars = {}
        self.prove_equal = None  # set by solve.py: (E, E) -> bool
        self.merges = 0
        self.decide = None  # set by case.py: path exploration


CTX = Ctx()


def reset():
    global ZERO, ONE, MONE, INF, NINF, NAN
    CTX.__init__()
    ZERO = const(0)
    ONE = const(1)
    MONE = const(-1)
    INF = _mk('inf', (1,), prf('inf'), 1)
    NINF = _mk('inf', (-1,), prf('-inf'), -1)
    NAN = _mk('nan', (), prf('nan'), 0)


def _mk(op, args, fp, sgn) -> E:
    key = (op, tuple(a.id if isinstance(a, E) else a for a in args))
    e = CTX.table.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.fp, e.sgn = op, args, fp % P, sgn
        e.id = CTX.n
        e.rat = None
        e.z = None
        CTX.n += 1
        CTX.table[key] = e
    return e


def const(c) -> E:
    c = c if isinstance(c, Fraction) else Fraction(c)
    fp = c.numerator % P * pow(c.denominator % P, P - 2, P)
    return _mk('c', (c,), fp, (c > 0) - (c < 0) if c != 0 else 2)


def snap(v: float) -> Fraction:
    """The rational a float stands for: the nearest simple one, if it rounds to it."""
    fr = Fraction(v)
    if fr.denominator == 1:
        return fr
    s = fr.limit_denominator(10**6)
    if float(s) == v or abs(s - fr) <= abs(fr) * Fraction(1, 1 << 50):
        return s
    return fr


def snap32(v: float) -> Fraction:
    """The same for a single precision number."""
    s = Fraction(v).limit_denominator(1000)
    return s if np.float32(float(s)) == np.float32(v) else Fraction(v)


def from_number(v) -> E:
    if isinstance(v, (bool, int)):
        return const(int(v))
    if isinstance(v, Fraction):
        return const(v)
    single = isinstance(v, np.float32)
    v = float(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else NINF
    return const(snap32(v) if single else snap(v))


def var(name: str, pos: bool = False, lo=None, hi=None) -> E:
    e = _mk('v', (name,), prf('var', name), 1 if pos or (lo is not None and lo >= 0) else 0)
    CTX.vars[name] = dict(node=e, pos=pos, lo=lo, hi=hi)
    return e


def is_const(a: E):
    return a.op == 'c'


def cval(a: E) -> Fraction:
    return a.args[0]


def special(*xs):
    return any(x.op in ('inf', 'nan') for x in xs)


def neg(a: E) -> E:
    return mul(MONE, a)


def _special_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == 'inf' and b.op == 'inf':
        return a if a is b else NAN
    return a if a.op == 'inf' else b


def add(a: E, b: E) -> E:
    if special(a, b):
        return _special_add(a, b)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] + b.args[0])
    if a.id > b.id:
        a, b = b, a
    # b == -a, syntactically
    if b.op == 'mul' and b.args[0] is MONE and b.args[1] is a:
        return ZERO
    if a.op == 'mul' and a.args[0] is MONE and a.args[1] is b:
        return ZERO
    sa, sb = a.sgn, b.sgn
    if sa == 1 and sb in (1, 2) or sb == 1 and sa in (1, 2):
        s = 1
    elif sa == 2 and sb == 2:
        s = 2
    elif sa == -1 and sb == -1:
        s = -1
    else:
        s = 0
    return _mk('add', (a, b), a.fp + b.fp, s)


def sub(a: E, b: E) -> E:
    if a is b and not special(a):
        return ZERO
    return add(a, neg(b))


def _smul(a, b):
    if a == 2 or b == 2:
        o = b if a == 2 else a
        return 2 if o in (1, 2) else 0
    return a * b


def mul(a: E, b: E) -> E:
    if special(a, b):
        if a is NAN or b is NAN or a is ZERO or b is ZERO:
            return NAN
        sa, sb = a.sgn, b.sgn
        if sa in (1, -1) and sb in (1, -1):
            return INF if sa * sb > 0 else NINF
        raise Unsupported('infinity times an expression of unknown sign')
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] * b.args[0])
        if b.op == 'mul' and b.args[0].op == 'c':
            return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
        return _mk('mul', (a, b), a.fp * b.fp, _smul(a.sgn, b.sgn))
    # pull constants out
    ca = cb = None
    if a.op == 'mul' and a.args[0].op == 'c':
        ca, a = a.args
    if b.op == 'mul' and b.args[0].op == 'c':
        cb, b = b.args
    if ca is not None or cb is not None:
        c = (ca.args[0] if ca else 1) * (cb.args[0] if cb else 1)
        return mul(const(c), mul(a, b))
    if a.id > b.id:
        a, b = b, a
    s = 2 if a is b and a.sgn not in (1, -1) else _smul(a.sgn, b.sgn)
    return _mk('mul', (a, b), a.fp * b.fp, s)


def div(a: E, b: E) -> E:
    if special(a, b):
        if a is NAN or b is NAN:
            return NAN
        if b.op == 'inf' and a.op != 'inf':
            return ZERO
        raise Unsupported('division involving infinity')
    if b is ZERO:
        if a is ZERO:
            return NAN
        if a.sgn in (1, -1):
            return INF if a.sgn > 0 else NINF
        raise Unsupported('division by zero')
    if a is ZERO:
        return ZERO
    if b.op == 'c':
        return mul(const(1 / b.args[0]), a)
    if a is b:
        return ONE
    if a.op == 'mul' and a.args[0].op == 'c':
        return mul(a.args[0], div(a.args[1], b))
    if b.op == 'mul' and b.args[0].op == 'c':
        return mul(const(1 / b.args[0].args[0]), div(a, b.args[1]))
    fp = a.fp * pow(b.fp, P - 2, P) if b.fp else prf('div0', a.fp)
    sb = b.sgn
    s = 0 if sb in (0, 2) else _smul(a.sgn, sb)
    return _mk('div', (a, b), fp, s)


def ipow(a: E, n: int) -> E:
    if n < 0:
        return div(ONE, ipow(a, -n))
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return ONE if r is None else r


def same(a: E, b: E) -> bool:
    """Whether the solver confirms that two expressions with one fingerprint are equal."""
    if a is b:
        return True
    if a.fp != b.fp or CTX.prove_equal is None:
        return False
    try:
        ta, tb, _ = difference(rat(a), rat(b))
    except Unsupported:
        return False
    return same_poly(ta, tb)


def same_poly(a: E, b: E) -> bool:
    """As `same`, for two polynomials."""
    if a is b:
        return True
    if CTX.prove_equal is None:
        return False
    key = (min(a.id, b.id), max(a.id, b.id))
    hit = CTX.table.get(('same', key))
    if hit is None:
        hit = CTX.prove_equal(a, b)
        CTX.merges += hit
        CTX.table[('same', key)] = hit
    return hit


def atom(fn, args, sgn=0) -> E:
    """The application of an uninterpreted real function `fn` (any hashable name)."""
    key = (fn, tuple(a.fp for a in args))
    for other in CTX.atoms.setdefault(key, []):
        if all(same(a, b) for a, b in zip(args, other.args[1])):
            return other
    e = E()
    e.op, e.args = 'a', (fn, tuple(args))
    e.fp, e.sgn = prf('atom', fn, key[1]), sgn
    e.id = CTX.n
    e.rat = None
    e.z = None
    CTX.n += 1
    CTX.atoms[key].append(e)
    return e


# ---------------------------------------------------------------- factored rationals


class R:
    """c * prod(f**p): p may be negative. Factors are nodes that are no mul/div/const."""

    __slots__ = ('c', 'f')

    def __init__(self, c, f):
        self.c = c
        self.f = f


def _merge(f1, f2, sign=1):
    out = dict(f1)
    for k, p in f2.items():
        q = out.get(k, 0) + sign * p
        if q:
            out[k] = q
        else:
            out.pop(k, None)
    return out


def _reduce_roots(r: R) -> R:
    """r**q = u for a root atom."""
    todo = [
        (k, p)
        for k, p in r.f.items()
        if k.op == 'a' and k.args[0][0] == 'root' and abs(p) >= k.args[0][1]
    ]
    if not todo:
        return r
    out = R(r.c, dict(r.f))
    for k, p in todo:
        q = k.args[0][1]
        m, rem = divmod(p, q)
        if m < 0 and rem:
            m, rem = m + 1, rem - q
        out.f.pop(k)
        if rem:
            out.f[k] = rem
        u = rat(k.args[1][0])
        out = R(out.c * u.c**m, _merge(out.f, {a: b * m for a, b in u.f.items()}))
    return _reduce_roots(out)


def rmul(a: R, b: R, sign=1) -> R:
    if not b.c and sign < 0:
        raise Unsupported('division by zero')
    if not a.c or not b.c:
        return R(Fraction(0), {})
    return _reduce_roots(R(a.c * (b.c if sign > 0 else 1 / b.c), _merge(a.f, b.f, sign)))


def monomial(c, f) -> E:
    e = None
    for k in sorted(f, key=lambda k: k.id):
        t = ipow(k, f[k])
        e = t if e is None else mul(e, t)
    if e is None:
        return const(c)
    return mul(const(c), e)


def _terms(e: E, c=Fraction(1), out=None):
    out = [] if out is None else out
    stack = [(e, c)]
    while stack:
        e, c = stack.pop()
        if e.op == 'add':
            stack.append((e.args[1], c))
            stack.append((e.args[0], c))
        elif e.op == 'mul' and e.args[0].op == 'c' and e.args[1].op == 'add':
            stack.append((e.args[1], c * e.args[0].args[0]))
        else:
            out.append((e, c))
    return out




def _canon_factor(s: E):
    """One node per factor up to sign."""
    key = ('factor', min(s.fp, P - s.fp))
    for other in CTX.table.setdefault(key, []):
        if other is s:
            return 1, s
        if other.fp == s.fp and same_poly(other, s):
            return 1, other
        if other.fp == (P - s.fp) % P and same_poly(other, neg(s)):
            return -1, other
    CTX.table[key].append(s)
    return 1, s


def radd(terms) -> R:
    terms = [t for t in terms if t.c != 0]
    if not terms:
        return R(Fraction(0), {})
    if len(terms) == 1:
        return terms[0]
    keys = set().union(*(t.f for t in terms))
    g = {}
    for k in keys:
        m = min(t.f.get(k, 0) for t in terms)
        if m:
            g[k] = m
    c0 = terms[0].c
    s = ZERO
    for t in terms:
        s = add(s, monomial(t.c / c0, _merge(t.f, g, -1)))
    if s is ZERO:
        return R(Fraction(0), {})
    return _reduce_roots(_times_poly(R(c0, g), s))


def _times_poly(r: R, s: E) -> R:
    """r * s for a polynomial s (a node without divisions)."""
    c = Fraction(1)
    if s.op == 'c':
        return R(r.c * s.args[0], r.f)
    if s.op == 'mul':
        if s.args[0].op == 'c':
            c, s = s.args[0].args[0], s.args[1]
        if s.op == 'mul':
            return _times_poly(_times_poly(R(r.c * c, r.f), s.args[0]), s.args[1])
    if s.op == 'add':
        if s.fp == 0 and same_poly(s, ZERO):
            return R(Fraction(0), {})
        sign, s = _canon_factor(s)
        c *= sign
    return R(r.c * c, _merge(r.f, {s: 1}))


def rat(e: E) -> R:
    if e.rat is not None:
        return e.rat
    # children first, without recursion
    for n in topo(e, lambda n: n.rat is None):
        if n.rat is None:
            n.rat = _rat(n)
    return e.rat


def _rat(e: E) -> R:
    if e.op == 'c':
        return R(e.args[0], {})
    if e.op in ('v', 'a'):
        return _reduce_roots(R(Fraction(1), {e: 1}))
    if e.op == 'mul':
        return rmul(rat(e.args[0]), rat(e.args[1]))
    if e.op == 'div':
        return rmul(rat(e.args[0]), rat(e.args[1]), -1)
    if e.op == 'add':
        return radd([_scale(rat(t), c) for t, c in _terms(e)])
    raise Unsupported(f'{e.op} in an expression to be decided')


def _scale(r: R, c):
    return R(r.c * c, r.f) if c != 1 else r


def topo(e, need=lambda n: True):
    """Nodes below e (through arguments of +,*,/ and atoms), children first."""
    out, seen, stack = [], set(), [(e, False)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen or not need(n):
            continue
        seen.add(n.id)
        stack.append((n, True))
        kids = n.args[1] if n.op == 'a' else n.args
        for k in kids:
            if isinstance(k, E) and k.id not in seen:
                stack.append((k, False))
    return out


def numer(e: E):
    """(numerator polynomial, factored denominators) of an expression."""
    r = rat(e)
    if r.c == 0:
        return ZERO, []
    num = monomial(r.c, {k: p for k, p in r.f.items() if p > 0})
    return num, [k for k, p in r.f.items() if p < 0]


def difference(ra: R, rb: R):
    """Polynomials ta, tb with ra - rb = common factor * (ta - tb), and denominators."""
    if not ra.c and not rb.c:
        return ZERO, ZERO, []
    g = {}
    for k in set(ra.f) | set(rb.f):
        m = min(ra.f.get(k, 0), rb.f.get(k, 0))
        if not ra.c:
            m = min(rb.f.get(k, 0), 0)
        elif not rb.c:
            m = min(ra.f.get(k, 0), 0)
        if m:
            g[k] = m
    den = [k for k, p in list(ra.f.items()) + list(rb.f.items()) if p < 0]
    ta = monomial(ra.c, _merge(ra.f, g, -1)) if ra.c else ZERO
    tb = monomial(rb.c, _merge(rb.f, g, -1)) if rb.c else ZERO
    return ta, tb, den


def expand(e: E, limit=80):
    """Monomials {((node, power), ...): coefficient} of a polynomial node, or None."""
    memo = {}
    for n in topo(e):
        if n.op == 'c':
            memo[n.id] = {(): n.args[0]} if n.args[0] else {}
        elif n.op in ('v', 'a'):
            memo[n.id] = {((n.id, 1),): Fraction(1)}
            CTX.table[('node', n.id)] = n
        elif n.op == 'add':
            a, b = (memo.get(k.id) for k in n.args)
            if a is None or b is None:
                return None
            s = dict(a)
            for k, v in b.items():
                t = s.get(k, 0) + v
                if t:
                    s[k] = t
                else:
                    s.pop(k, None)
            memo[n.id] = s
        elif n.op == 'mul':
            a, b = (memo.get(k.id) for k in n.args)
            if a is None or b is None or len(a) * len(b) > 4 * limit:
                return None
            s = {}
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    m = dict(k1)
                    for i, p in k2:
                        m[i] = m.get(i, 0) + p
                    key = tuple(sorted(m.items()))
                    t = s.get(key, 0) + v1 * v2
                    if t:
                        s[key] = t
                    else:
                        s.pop(key, None)
            memo[n.id] = s
        else:
            return None
        if len(memo[n.id]) > limit:
            return None
    return memo[e.id]


# ---------------------------------------------------------------- real functions


def linear_terms(u: E):
    """u as [(rational coefficient, expression)], canonical when u is small."""
    r = rat(u)
    if r.c == 0:
        return []
    num = monomial(r.c, {k: p for k, p in r.f.items() if p > 0})
    den = monomial(Fraction(1), {k: -p for k, p in r.f.items() if p < 0})
    m = expand(num)
    if m is None:
        return [(Fraction(1), u)]
    out = []
    for key, c in sorted(m.items()):
        t = ONE
        for i, p in key:
            t = mul(t, ipow(CTX.table[('node', i)], p))
        out.append((c, div(t, den)))
    return out


def exp(u: E) -> E:
    if u is NINF:
        return ZERO
    if u is INF:
        return INF
    if u is NAN:
        return NAN
    if u is ZERO:
        return ONE
    out = ONE
    for c, t in linear_terms(u):
        out = mul(out, _exp1(c, t))
    return out


def _exp1(c: Fraction, t: E) -> E:
    """exp(c * t)"""
    if t.op == 'a' and t.args[0] == ('log',):
        a = t.args[1][0]
        return ipow(root(a, c.denominator), c.numerator)
    q = c.denominator
    base = atom(('exp', q), (t,), 1)
    return ipow(base, c.numerator)


def root(u: E, q: int) -> E:
    if q == 1 or u is ZERO or u is ONE or u is INF:
        return u
    if u.op == 'c':
        c = u.args[0]
        if c > 0:
            n, d = round(c.numerator ** (1 / q)), round(c.denominator ** (1 / q))
            if n**q == c.numerator and d**q == c.denominator:
                return const(Fraction(n, d))
    return atom(('root', q), (u,), 1)


def sqrt(u: E) -> E:
    return root(u, 2)


def log(u: E) -> E:
    if u is ONE:
        return ZERO
    if u is ZERO:
        return NINF
    if u is INF:
        return INF
    r = rat(u)
    # log(prod exp(t)**p) is linear
    out = ZERO
    rest = {}
    for k, p in r.f.items():
        if k.op == 'a' and k.args[0][0] == 'exp':
            out = add(out, mul(const(Fraction(p, k.args[0][1])), k.args[1][0]))
        else:
            rest[k] = p
    if len(rest) < len(r.f):
        rest_e = monomial(r.c, {k: p for k, p in rest.items() if p > 0})
        rest_e = div(rest_e, monomial(Fraction(1), {k: -p for k, p in rest.items() if p < 0}))
        return out if rest_e is ONE else add(out, atom(('log',), (rest_e,)))
    return atom(('log',), (u,))


def _odd(u: E):
    """Canonical (sign, |u|-like) representative for odd/even functions."""
    return (1, u) if u.fp <= P - u.fp else (-1, neg(u))


def _angle(u: E):
    """(cos u, sin u) of a small multiple of an atan2."""
    k = 1
    if u.op == 'mul' and u.args[0].op == 'c':
        k, u = u.args[0].args[0], u.args[1]
    if u.op != 'a' or u.args[0] != ('atan2',) or Fraction(k).denominator != 1 or abs(k) > 4:
        return None
    y, x = u.args[1]
    r = sqrt(add(mul(x, x), mul(y, y)))
    c1, s1 = div(x, r), div(y, r)
    if k < 0:
        k, s1 = -k, neg(s1)
    c, s = ONE, ZERO
    for _ in range(int(k)):
        c, s = sub(mul(c, c1), mul(s, s1)), add(mul(c, s1), mul(s, c1))
    return c, s


def sin(u: E) -> E:
    if u is ZERO:
        return ZERO
    if (cs := _angle(u)) is not None:
        return cs[1]
    s, v = _odd(u)
    return mul(const(s), atom(('sin',), (v,)))


def cos(u: E) -> E:
    if u is ZERO:
        return ONE
    if (cs := _angle(u)) is not None:
        return cs[0]
    return atom(('cos',), (_odd(u)[1],))


def odd_atom(name):
    def fn(u):
        if u is ZERO:
            return ZERO
        s, v = _odd(u)
        return mul(const(s), atom((name,), (v,)))

    return fn


def tanh(u):
    if u is INF:
        return ONE
    if u is NINF:
        return MONE
    return odd_atom('tanh')(u)


def logistic(u: E) -> E:
    e = exp(u)
    return div(e, add(ONE, e))


def pow_(x: E, y: E) -> E:
    if y.op == 'c' and y.args[0].denominator == 1:
        return ipow(x, int(y.args[0]))
    if x is ONE:
        return ONE
    return exp(mul(y, log(x)))


HALF = Fraction(1, 2)

UNARY = {
    'exp': exp,
    'exp2': lambda u: exp(mul(from_number(math.log(2)), u)),
    'expm1': lambda u: sub(exp(u), ONE),
    'log': log,
    'log1p': lambda u: log(add(ONE, u)),
    'sqrt': sqrt,
    'rsqrt': lambda u: div(ONE, sqrt(u)),
    'cbrt': lambda u: root(u, 3),
    'sin': sin,
    'cos': cos,
    'tan': lambda u: div(sin(u), cos(u)),
    'tanh': tanh,
    'logistic': logistic,
    'sinh': lambda u: mul(const(HALF), sub(exp(u), exp(neg(u)))),
    'cosh': lambda u: mul(const(HALF), add(exp(u), exp(neg(u)))),
    'asin': odd_atom('asin'),
    'acos': lambda u: atom(('acos',), (u,)),
    'atan': odd_atom('atan'),
    'asinh': odd_atom('asinh'),
    'acosh': lambda u: atom(('acosh',), (u,)),
    'atanh': odd_atom('atanh'),
    'erf': odd_atom('erf'),
    'erfc': lambda u: sub(ONE, odd_atom('erf')(u)),
    'erf_inv': odd_atom('erf_inv'),
    'lgamma': lambda u: atom(('lgamma',), (u,)),
    'digamma': lambda u: atom(('polygamma', 0), (u,)),
    'floor': lambda u: atom(('floor',), (u,)),
    'ceil': lambda u: neg(atom(('floor',), (neg(u),))),
    'round': lambda u: atom(('round',), (u,)),
    'trunc': lambda u: atom(('trunc',), (u,)),
}



def _d_tanh(u):
    t = tanh(u)
    d1 = sub(ONE, mul(t, t))
    return d1, mul(const(-2), mul(t, d1))


def _d_logistic(u):
    s = logistic(u)
    d1 = mul(s, sub(ONE, s))
    return d1, mul(d1, sub(ONE, mul(const(2), s)))


def _d_root(q):
    def d(u):
        r = root(u, q)
        d1 = div(mul(const(Fraction(1, q)), r), u)
        return d1, div(mul(const(Fraction(1, q) - 1), d1), u)

    return d


def _d_rsqrt(u):
    r = div(ONE, sqrt(u))
    return div(mul(const(-HALF), r), u), div(mul(const(Fraction(3, 4)), r), mul(u, u))


def _d_tan(u):
    t = div(sin(u), cos(u))
    d1 = add(ONE, mul(t, t))
    return d1, mul(const(2), mul(t, d1))


def _invsqrt(poly, dpoly, c=1):
    # f' = c * poly^{-1/2}; f'' = -c/2 poly' poly^{-3/2}
    def d(u):
        p, dp = poly(u), dpoly(u)
        r = div(const(c), sqrt(p))
        return r, mul(const(-HALF), div(mul(dp, r), p))

    return d


def _d_erf(u, c=1):
    d1 = mul(from_number(c * 2 / math.sqrt(math.pi)), exp(neg(mul(u, u))))
    return d1, mul(const(-2), mul(u, d1))


def _d_erfinv(u):
    y = UNARY['erf_inv'](u)
    d1 = mul(from_number(math.sqrt(math.pi) / 2), exp(mul(y, y)))
    return d1, mul(const(2), mul(y, mul(d1, d1)))


def _inv(u):
    return div(ONE, u)


def _d_exp2(u):
    c = from_number(math.log(2))
    e = UNARY['exp2'](u)
    return mul(c, e), mul(mul(c, c), e)


# first and second derivatives, textbook
DERIV = {
    'exp': lambda u: (exp(u), exp(u)),
    'exp2': _d_exp2,
    'expm1': lambda u: (exp(u), exp(u)),
    'log': lambda u: (_inv(u), neg(_inv(mul(u, u)))),
    'log1p': lambda u: (_inv(add(ONE, u)), neg(_inv(ipow(add(ONE, u), 2)))),
    'sqrt': _d_root(2),
    'cbrt': _d_root(3),
    'rsqrt': _d_rsqrt,
    'sin': lambda u: (cos(u), neg(sin(u))),
    'cos': lambda u: (neg(sin(u)), neg(cos(u))),
    'tan': _d_tan,
    'tanh': _d_tanh,
    'logistic': _d_logistic,
    'sinh': lambda u: (UNARY['cosh'](u), UNARY['sinh'](u)),
    'cosh': lambda u: (UNARY['sinh'](u), UNARY['cosh'](u)),
    'asin': _invsqrt(lambda u: sub(ONE, mul(u, u)), lambda u: mul(const(-2), u)),
    'acos': _invsqrt(lambda u: sub(ONE, mul(u, u)), lambda u: mul(const(-2), u), -1),
    'atan': lambda u: (
        _inv(add(ONE, mul(u, u))),
        div(mul(const(-2), u), ipow(add(ONE, mul(u, u)), 2)),
    ),
    'asinh': _invsqrt(lambda u: add(ONE, mul(u, u)), lambda u: mul(const(2), u)),
    'acosh': _invsqrt(lambda u: sub(mul(u, u), ONE), lambda u: mul(const(2), u)),
    'atanh': lambda u: (
        _inv(sub(ONE, mul(u, u))),
        div(mul(const(2), u), ipow(sub(ONE, mul(u, u)), 2)),
    ),
    'erf': _d_erf,
    'erfc': lambda u: _d_erf(u, -1),
    'erf_inv': _d_erfinv,
    'lgamma': lambda u: (
        atom(('polygamma', 0), (u,)),
        atom(('polygamma', 1), (u,)),
    ),
    'digamma': lambda u: (
        atom(('polygamma', 1), (u,)),
        atom(('polygamma', 2), (u,)),
    ),
    'floor': lambda u: (ZERO, ZERO),
    'ceil': lambda u: (ZERO, ZERO),
    'round': lambda u: (ZERO, ZERO),
    'trunc': lambda u: (ZERO, ZERO),
}


# ---------------------------------------------------------------- numeric evaluation

NUM_ATOMS = {
    'log': lambda fn, u: math.log(u),
    'exp': lambda fn, u: math.exp(u / fn[1]),
    'root': lambda fn, u: (abs(u) ** (1 / fn[1])) * (-1 if u < 0 and fn[1] % 2 else 1)
    if u >= 0 or fn[1] % 2
    else float('nan'),
    'sin': lambda fn, u: math.sin(u),
    'cos': lambda fn, u: math.cos(u),
    'tanh': lambda fn, u: math.tanh(u),
    'asin': lambda fn, u: math.asin(u),
    'acos': lambda fn, u: math.acos(u),
    'atan': lambda fn, u: math.atan(u),
    'atan2': lambda fn, y, x: math.atan2(y, x),
    'asinh': lambda fn, u: math.asinh(u),
    'acosh': lambda fn, u: math.acosh(u),
    'atanh': lambda fn, u: math.atanh(u),
    'erf': lambda fn, u: math.erf(u),
    'lgamma': lambda fn, u: math.lgamma(u),
    'floor': lambda fn, u: math.floor(u),
    'round': lambda fn, u: round(u),
    'trunc': lambda fn, u: math.trunc(u),
}


def _num_erfinv(fn, u):
    import scipy.special

    return float(scipy.special.erfinv(u))


def _num_polygamma(fn, u):
    import scipy.special

    return float(scipy.special.polygamma(fn[1], u))


NUM_ATOMS['erf_inv'] = _num_erfinv
NUM_ATOMS['polygamma'] = _num_polygamma


def evaluate(es, point: dict):
    """Values of expressions at a point {variable name: float}."""
    memo = {}
    nan = float('nan')
    for e in es:
        for n in topo(e, lambda n: n.id not in memo):
            if n.id in memo:
                continue
            try:
                if n.op == 'c':
                    v = float(n.args[0])
                elif n.op == 'v':
                    v = point[n.args[0]]
                elif n.op == 'add':
                    v = memo[n.args[0].id] + memo[n.args[1].id]
                elif n.op == 'mul':
                    v = memo[n.args[0].id] * memo[n.args[1].id]
                elif n.op == 'div':
                    v = memo[n.args[0].id] / memo[n.args[1].id]
                elif n.op == 'inf':
                    v = n.args[0] * math.inf
                elif n.op == 'nan':
                    v = nan
                else:
                    fn, args = n.args
                    v = NUM_ATOMS[fn[0]](fn, *(memo[a.id] for a in args))
            except (ZeroDivisionError, ValueError, OverflowError):
                v = nan
            memo[n.id] = v
    return [memo[e.id] for e in es]


def show(e: E, depth=6) -> str:
    if e.op == 'c':
        return str(e.args[0])
    if e.op == 'v':
        return e.args[0]
    if e.op == 'inf':
        return 'inf' if e.args[0] > 0 else '-inf'
    if e.op == 'nan':
        return 'nan'
    if depth == 0:
        return '...'
    if e.op == 'a':
        return f'{e.args[0]}({", ".join(show(a, depth - 1) for a in e.args[1])})'
    o = {'add': '+', 'mul': '*', 'div': '/'}[e.op]
    return '(' + o.join(show(a, depth - 1) for a in e.args) + ')'


reset()
