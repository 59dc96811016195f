"""C23: arithmetic of trees of arrays acts leaf by leaf."""
import jax.tree_util as jtu

from folx import tree_utils as T

from .. import expr as X
from .common import *


def trees():
    """name, shapes of the leaves, function from the leaves to a tree"""
    return [
        ('array', [(2, 2)], lambda l: l[0]),
        ('number', [()], lambda l: l[0]),
        ('tuple', [(2,), ()], lambda l: (l[0], l[1])),
        ('dict', [(2,), (1, 2), ()], lambda l: {'a': l[0], 'b': [l[1], (l[2],)]}),
        ('nested', [(1,), (2,)], lambda l: [{'x': l[0]}, None, (l[1], ())]),
        ('empty leaf', [(0,), (2,)], lambda l: (l[0], l[1])),
    ]


def tree_case(name, shapes, tree, impl, ref, extra=None, cplx=False, out_tree=None):
    vars = {f'a{i}': Var(s, complex=cplx) for i, s in enumerate(shapes)}
    vars |= {f'b{i}': Var(s, complex=cplx) for i, s in enumerate(shapes)}
    vars |= extra or {}
    st = Structure()
    k = len(shapes)

    def run(**v):
        st.bad.clear()
        a, b = tree([v[f'a{i}'] for i in range(k)]), tree([v[f'b{i}'] for i in range(k)])
        out = impl(a, b, *[v[e] for e in extra or ()])
        if out_tree is None:
            st.expect(jtu.tree_structure(out) == jtu.tree_structure(a), 'structure of the result')
        return jtu.tree_leaves(out)

    def spec(S):
        return ref([S[f'a{i}'] for i in range(k)], [S[f'b{i}'] for i in range(k)], *[S[e] for e in extra or ()])

    return Case(name, vars, run, spec, st)


def el(f):
    def g(a, b):
        a, b = np.broadcast_arrays(a, b)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i], b[i])
        return out

    return g


def total(l):
    acc = X.ZERO
    for a in l:
        for i in np.ndindex(a.shape):
            acc = X.add(acc, a[i])
    return np.array(acc, dtype=object)


ADD, SUB, MUL = el(X.add), el(X.sub), el(X.mul)


def cases(tier, rng):
    out = []
    for n, shapes, tree in trees():
        def both(name, impl, f):
            out.append(tree_case(f'{name} {n}', shapes, tree, impl, lambda a, b: [f(x, y) for x, y in zip(a, b)]))

        def num(name, impl, f):
            out.append(tree_case(f'{name} {n}', shapes, tree, lambda a, b, s: impl(a, s),
                                 lambda a, b, s: [f(x, s) for x in a], {'s': Var(())}))
            out.append(tree_case(f'{name} constant {n}', shapes, tree, lambda a, b: impl(a, 3.0),
                                 lambda a, b: [f(x, np.array(X.const(3), dtype=object)) for x in a]))

        # an array is added to and multiplied with every leaf
        for k in ((2,), (1,), (1, 1), (2, 1)):
            if all(not s or s[-1] in (1, k[-1]) or k[-1] == 1 for s in shapes) and all(s != (0,) for s in shapes):
                for nm, impl, f in (('shift', T.tree_shift, ADD), ('scale', T.tree_scale, MUL),
                                    ('add', T.tree_add, ADD), ('mul', T.tree_mul, MUL)):
                    out.append(tree_case(f'{nm} array {k} {n}', shapes, tree, lambda a, b, s, impl=impl: impl(a, s),
                                         lambda a, b, s, f=f: [f(x, s) for x in a], {'s': Var(k)}))
        both('add', T.tree_add, ADD)
        both('sub', T.tree_sub, SUB)
        both('mul', T.tree_mul, MUL)
        num('scale', T.tree_scale, MUL)
        num('shift', T.tree_shift, ADD)
        num('mul by number', T.tree_mul, MUL)
        num('add number', T.tree_add, ADD)
        single = dict(out_tree=True)
        out.append(tree_case(f'dot {n}', shapes, tree, T.tree_dot,
                             lambda a, b: [total([MUL(x, y) for x, y in zip(a, b)])], **single))
        out.append(tree_case(f'sum {n}', shapes, tree, lambda a, b: T.tree_sum(a), lambda a, b: [total(a)], **single))
        out.append(tree_case(f'squared norm {n}', shapes, tree, lambda a, b: T.tree_squared_norm(a),
                             lambda a, b: [total([MUL(x, x) for x in a])], **single))
        if all(s for s in shapes):
            for ax in (0, -1):
                out.append(tree_case(f'concat {ax} {n}', shapes, tree, lambda a, b, ax=ax: T.tree_concat([a, b], axis=ax),
                                     lambda a, b, ax=ax: [np.concatenate([x, y], ax) for x, y in zip(a, b)]))
            if all(s[0] >= 1 for s in shapes):
                out.append(tree_case(f'idx {n}', shapes, tree, lambda a, b: T.tree_idx(a, 0),
                                     lambda a, b: [x[0:1].reshape(x.shape[1:]) for x in a]))
            out.append(tree_case(f'idx slice {n}', shapes, tree, lambda a, b: T.tree_idx(a, slice(1, None)),
                                 lambda a, b: [x[1:] for x in a]))
            for ax in (0, -1):
                out.append(tree_case(f'take slice {ax} {n}', shapes, tree,
                                     lambda a, b, ax=ax: T.tree_take(a, slice(None, -1), axis=ax),
                                     lambda a, b, ax=ax: [x[:-1] if ax == 0 else x[..., :-1] for x in a]))
                if all(s[ax] for s in shapes):
                    out.append(tree_case(f'take {ax} {n}', shapes, tree, lambda a, b, ax=ax: T.tree_take(a, -1, axis=ax),
                                         lambda a, b, ax=ax: [x.take([-1], ax).reshape(np.delete(x.shape, ax)) for x in a]))
                    out.append(tree_case(f'take many {ax} {n}', shapes, tree,
                                         lambda a, b, ax=ax: T.tree_take(a, np.array([0, 0]), axis=ax),
                                         lambda a, b, ax=ax: [x.take([0, 0], ax) for x in a]))
        for ax in (0, -1):
            out.append(tree_case(f'expand {ax} {n}', shapes, tree, lambda a, b, ax=ax: T.tree_expand(a, ax),
                                 lambda a, b, ax=ax: [np.expand_dims(x, ax) for x in a]))
    # splitting and joining
    for sizes in ((1,), (2, 1), (1, 1, 1), (0, 2), (4,), ()):
        def ref(a, b, sizes=sizes):
            res, k = [], 0
            for s in [*sizes, None]:
                res += [x[k:] if s is None else x[k : k + s] for x in a]
                k += s or 0
            return res

        shapes = [(4,), (4, 1)]
        tree = lambda l: {'u': l[0], 'v': l[1]}
        out.append(tree_case(f'split {sizes}', shapes, tree, lambda a, b, sizes=sizes: T.tree_split(a, sizes), ref, out_tree=True))
        out.append(tree_case(f'split and join {sizes}', shapes, tree,
                             lambda a, b, sizes=sizes: T.tree_concat(T.tree_split(a, sizes)), lambda a, b: a))
    return out
