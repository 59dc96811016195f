"""C02: user annotated elementwise functions (in_axes=()), for every smooth function."""
import folx
from folx.api import FunctionFlags as F

from .common import *


def wrapped(fn, thr, **kw):
    def call(*s):
        return folx.wrap_forward_laplacian(fn, **kw)(tuple(s), {}, sparsity_threshold=thr)

    return call


def ann(name, fn, specs, n, thr, wrap=None, dom=None, **kw):
    return step(name, fn, specs, n, thr, dom, call=wrapped(fn, thr, **(wrap or dict(in_axes=()))), **kw)


def g1(x):
    return opq('g', x)


def g2(x, y):
    return opq('g', x, y)


def g3(x, y, z):
    return opq('g', x, y, z)


def g4(x, y, z, w):
    return opq('g', x, y, z, w)


def two_out(x):
    return opq('g', x), opq('h', x) * x


def two_out2(x, y):
    return opq('g', x, y), x * y + opq('h', y)


def cases(tier, rng):
    out = []
    kinds = ('dense', 'own', 'two', 'dup', 'part', 'shared', 'rev')
    for m in kinds:
        thr = 0 if m == 'dense' else 3
        for shape in ((), (2,), (2, 2)) if m in ('dense', 'part', 'own') else ((2,),):
            out.append(ann('g(x)', g1, [(shape, m)], 3, thr))
        out.append(ann('g(x) n=1', g1, [((2,), m)], 1, 0 if m == 'dense' else 1))
        out.append(ann('(g,h)(x)', two_out, [((2,), m)], 3, thr))
    pairs = [(a, b) for a in kinds for b in kinds]
    if tier == 'quick':
        pairs = pairs[::2] + [('own', 'own'), ('two', 'two'), ('part', 'two'), ('own', 'rev'), ('dense', 'part')]
        pairs = list(dict.fromkeys(pairs))
    for a, b in pairs:
        thr = 0 if (a, b) == ('dense', 'dense') else 4
        out.append(ann('g(x,y)', g2, [((2,), a), ((2,), b)], 4, thr))
    for a, b in [('own', 'two'), ('dup', 'part'), ('dense', 'rev'), ('dense', 'dense')]:
        thr = 0 if (a, b) == ('dense', 'dense') else 4
        out.append(ann('(g,h)(x,y)', two_out2, [((2,), a), ((2,), b)], 4, thr))
        out.append(ann('g(x,y) column', g2, [((2, 1), a), ((1, 2), b)], 4, thr))
        out.append(ann('g(x,y) scalar', g2, [((), a), ((), b)], 3, min(thr, 3)))
        out.append(ann('g(x,y) one scalar', g2, [((2,), a), ((), b)], 4, thr))
        out.append(ann('g(x,y) ranks', g2, [((2,), a), ((1, 2), b)], 4, thr))
        out.append(ann('g(x,const)', g2, [((2,), a), ((2,), 'const')], 4, thr))
        out.append(ann('g(const,x)', g2, [((2,), 'const'), ((2,), b)], 4, thr))
        out.append(ann('g(x,const column)', g2, [((1, 2), a), ((2, 1), 'const')], 4, thr))
        for c in ('part', 'const', 'dense'):
            t = 0 if {a, b, c} <= {'dense', 'const'} else 4
            out.append(ann('g(x,y,z)', g3, [((2,), a), ((2,), b), ((2,), c)], 4, t))
        out.append(ann('g(x,const,y)', g3, [((2,), a), ((2,), 'const'), ((2,), b)], 4, thr))
        out.append(ann('g(const,x,y)', g3, [((1,), 'const'), ((2,), a), ((2, 1), b)], 4, thr))
        out.append(ann('g(const,x,const,y)', g4, [((2,), 'const'), ((2,), a), ((), 'const'), ((2,), b)], 4, thr))
        out.append(ann('g(x,y,z,w)', g4, [((2,), k) for k in (a, b, 'two', 'dense')], 4, 4))
        out.append(ann('g(x,y,x,y)', g4, [((2,), a), ((), b), ((1,), 'part'), ((2,), 'own')], 4, 4))
        out.append(ann('product', lambda x, y: 3.0 * x * y, [((2,), a), ((2,), b)], 4, thr,
                       dict(in_axes=(), flags=F.LINEAR_IN_ONE)))
        out.append(ann('multiplication', lambda x, y: x * y, [((2,), a), ((2,), b)], 4, thr,
                       dict(in_axes=(), flags=F.MULTIPLICATION)))
        out.append(ann('x*g(y)', lambda x, y: x * opq('g', y), [((2,), a), ((2,), b)], 4, thr,
                       dict(in_axes=(), flags=F.LINEAR_IN_FIRST)))
        out.append(ann('x*g(const)', lambda x, y: x * opq('g', y), [((2,), a), ((2,), 'const')], 4, thr,
                       dict(in_axes=(), flags=F.LINEAR_IN_FIRST)))
        out.append(ann('const*g(y)', lambda x, y: x * opq('g', y), [((2,), 'const'), ((2,), b)], 4, thr,
                       dict(in_axes=(), flags=F.LINEAR_IN_FIRST)))
        out.append(ann('linear', lambda x, y: 2.0 * x - 3.0 * y + 1.0, [((2,), a), ((2,), b)], 4, thr,
                       dict(in_axes=(), flags=F.LINEAR)))
        out.append(ann('x*const in one', lambda x, y: x * y, [((2,), a), ((2,), 'const')], 4, thr,
                       dict(in_axes=(), flags=F.LINEAR_IN_ONE)))
    # all arguments constant: the plain function
    out.append(ann('constant', g2, [((2,), 'const'), ((2,), 'const')], 2, 0))
    # the dimension of the inputs compared to the number of arguments decides the
    # way in which the Hessian is contracted
    for n in (1, 2, 3, 4):
        out.append(ann(f'g(x,y) contraction', g2, [((), 'dense'), ((), 'dense')], n, 0))
        out.append(ann(f'g(x,y,z) contraction', g3, [((2,), 'dense'), ((2,), 'dense'), ((2,), 'dense')], n, 0))
    return out
