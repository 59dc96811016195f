"""C17: registered rules are used where they apply, and only there."""
import contextlib

import jax.tree_util as jtu

import folx
from folx.api import FunctionFlags as F
from folx.api import FwdJacobian, FwdLaplArray
from folx.wrapped_functions import is_registered

from .. import expr as X
from ..alg import Jet
from .common import *


@contextlib.contextmanager
def registered(**rules):
    """Registers rules, and takes them back."""
    for k, v in rules.items():
        folx.register_function(k, v)
    try:
        yield
    finally:
        for k in rules:
            if is_registered(k):
                folx.deregister_function(k)


def q(*x):
    e = [a.ravel()[i] for a in x for i in range(a.size)]
    return opq('q', *e)


# ------------------------------------------------------- custom Hessian rules


def named(name, f):
    f = lambda *a, f=f: f(*a)
    f.__name__ = f.__qualname__ = name
    return jax.jit(f)


def rule_case(name, body, rule, spec, args, n, thr, **wrap):
    """A jitted function with a custom rule for the trace of J^T H J.

    spec(i, values): the number the rule stands for at element i of the result, or
    None where the true trace is expected."""
    fname = 'verif_rule'

    @contextlib.contextmanager
    def ctx():
        f = named(fname, body)
        w = folx.wrap_forward_laplacian(f, custom_jac_hessian_jac=rule, **wrap)
        with registered(**{fname: w}):
            yield f

    vars = {}
    for i, a in enumerate(args):
        vars[f'x{i}'] = a.var()
        if not isinstance(a.mask, str):
            k = (a.rows or n) if a.mask is None else a.mask.shape[0]
            vars[f'J{i}'] = Var((k, *a.shape))
            vars[f'L{i}'] = Var(a.shape)
    plain = state_case(name, body, args, n, thr)

    def impl(**arrs):
        with ctx() as f:
            s = []
            for i, a in enumerate(args):
                if isinstance(a.mask, str):
                    s.append(arrs[f'x{i}'])
                    continue
                data = arrs[f'J{i}']
                if a.mask is not None and (a.mask < 0).any():
                    data = jnp.where(jnp.asarray(a.mask < 0), 0.0, data)
                s.append(FwdLaplArray(arrs[f'x{i}'], FwdJacobian(data, a.mask), arrs[f'L{i}']))
            out = folx.forward_laplacian(lambda *x: f(*x), thr, disable_jit=True)(*s)
            return triples(out, n)

    def ref(S):
        out = plain.ref(S)
        if spec is None:
            return out
        # the Laplacian without the term of second derivatives: states whose own
        # second-order term is replaced
        lin = linear_ref(body, args, S, n)
        for k in range(0, len(out), 3):
            L = np.empty(out[k + 2].shape, dtype=object)
            for i in np.ndindex(L.shape):
                L[i] = X.add(lin[k // 3][i], spec(i, [S[f'x{j}'] for j in range(len(args))]))
            out[k + 2] = L
        return out

    return Case(f'{name} thr={thr}', vars, impl, ref)


def linear_ref(body, args, S, n):
    """f'(x) L of every result: the derivative in the direction of the Laplacians."""
    jets = []
    for i, a in enumerate(args):
        x = S[f'x{i}']
        if isinstance(a.mask, str):
            jets.append(x)
            continue
        b = np.empty(x.shape, dtype=object)
        for k in np.ndindex(x.shape):
            b[k] = Jet(x[k], [S[f'L{i}'][k]], X.ZERO)
        jets.append(b)
    av = [jax.ShapeDtypeStruct(a.shape, np.float64) for a in args]
    return [split_jets(o, 1)[1].reshape(np.shape(o)) for o in run_ref(body, av, jets)]


def ten(args, extra_args, merge, materialize_idx):
    """The rule of the README."""
    return jtu.tree_map(lambda x: jnp.full_like(x, 10), args.x[0])


def readme(args, extra_args, merge, materialize_idx):
    return jtu.tree_map(lambda x: jnp.full_like(x, 10), args.x)


def rules(out, tier):
    kinds = ('dense', 'own', 'two', 'dup', 'part')
    n = 3
    for m in kinds:
        for thr in (0,) if m == 'dense' else (3, 1):
            for shape in ((2,), (), (2, 1)):
                mk = lambda s=shape: In(s, masks(s, n)[m])
                # the number ten in place of the trace
                out.append(rule_case(f'readme {shape} {m}', lambda x: 2.0 * x, readme,
                                     lambda i, v: X.const(10), [mk()], n, thr))
                out.append(rule_case(f'ten, elementwise {shape} {m}', lambda x: opq('g', x), ten,
                                     lambda i, v: X.const(10), [mk()], n, thr, in_axes=()))
            mk = lambda s=(2,): In(s, masks(s, n)[m])

            # a rule that depends on the argument
            def cubic(args, extra_args, merge, materialize_idx):
                x = args.arrays[0].x
                return opq('c', x)

            def at(i, v):
                return X.atom(('opq', 'c', (0,)), (v[0][i],))

            out.append(rule_case(f'any rule, elementwise {m}', lambda x: opq('g', x), cubic, at, [mk()], n, thr, in_axes=()))
            out.append(rule_case(f'any rule {m}', lambda x: x * x[::-1], cubic, at, [mk()], n, thr))

            # a true rule from the dense Jacobian
            def true_rule(args, extra_args, merge, materialize_idx):
                a = args.arrays[0]
                J = a.jacobian.data
                return 6 * a.x * (J * J).sum(0)

            if m in ('dense', 'own', 'two', 'part'):
                out.append(rule_case(f'true rule, elementwise {m}', lambda x: x**3, true_rule, None, [mk()], n, thr, in_axes=()))

            # merge puts the arguments in their places
            def merged(args, extra_args, merge, materialize_idx):
                p = merge(args.x, extra_args)
                return p[0] * p[1] + 2 * p[1]

            def merged_at(i, v):
                a, b = v[0][i], v[1][i]
                return X.add(X.mul(a, b), X.mul(X.const(2), b))

            body = lambda x, y: opq('g', x, y)
            for pair in ((m, 'const'), ('const', m), (m, m)):
                ar = [In((2,), 'const' if p == 'const' else masks((2,), n)[p]) for p in pair]
                out.append(rule_case(f'merge {pair}', body, merged, merged_at, ar, n, thr, in_axes=()))
            ar = [In((2,), masks((2,), n)[m]), In((2,), 'const')]
            out.append(rule_case(f'extra arguments {m}', body,
                                 lambda a, extra, merge, idx: extra[0] * 3.0, lambda i, v: X.mul(X.const(3), v[1][i]),
                                 ar, n, thr, in_axes=()))
            # linear functions have no second derivatives, the rule is not asked
            out.append(rule_case(f'linear {m}', lambda x: 3.0 * x[::-1], readme, None, [mk()], n, thr, flags=F.LINEAR))


# ------------------------------------------------------------------ registry


def history_case(name, steps, shape=(2,), thr=0, max_len=6):
    """A history of registering, deregistering and evaluating.

    steps: list of ('reg', key, rule), ('del', key), ('eval', fn, reference fn),
    ('has', key, bool)."""
    n = int(np.prod(shape, dtype=int))
    st = Structure()
    keys = {s[1] for s in steps if s[0] in ('reg', 'del')}

    def impl(x):
        st.bad.clear()
        old = {k: folx.wrapped_functions.get_laplacian(k) for k in keys if is_registered(k)}
        out = []
        try:
            for s in steps:
                if s[0] == 'reg':
                    folx.register_function(s[1], s[2])
                elif s[0] == 'del':
                    folx.deregister_function(s[1])
                elif s[0] == 'has':
                    st.expect(is_registered(s[1]) == s[2], f'is_registered({s[1]}) is not {s[2]}')
                else:
                    out += triples(folx.forward_laplacian(s[1], thr, disable_jit=True)(x), n)
        finally:
            for k in keys:
                if k in old:
                    folx.register_function(k, old[k])
                elif is_registered(k):
                    folx.deregister_function(k)
        return out

    def ref(S):
        out = []
        av = (jax.ShapeDtypeStruct(shape, np.float64),)
        for s in steps:
            if s[0] == 'eval':
                out += ref_triples(run_ref(s[2], av, jets_of_inputs([S['x']])), n)
        return out

    return Case(f'{name} thr={thr}', {'x': Var(shape)}, impl, ref, st)


def as_rule(f, **kw):
    """A rule that computes f instead."""
    return folx.wrap_forward_laplacian(f, **kw)


def histories(out, tier):
    sg = jax.lax.stop_gradient
    u = named('verif_u', lambda x: opq('u', x))
    two = named('verif_two', lambda x, y: opq('u', x) * y)
    pair = named('verif_pair', lambda x: (opq('u', x), x.sum()))
    g, h = (lambda x: opq('g', x)), (lambda x: opq('h', x))
    body = lambda x: opq('u', x)
    use = lambda f: (lambda x: f(x) * x)
    R, D, E, H = 'reg', 'del', 'eval', 'has'
    el = dict(in_axes=())
    wo = folx.warp_without_fwd_laplacian
    prim = jax.lax.sin_p
    old = folx.wrapped_functions.get_laplacian(prim)

    seen = {}

    def spy(args, kwargs, sparsity_threshold):
        """A rule written by hand."""
        a = args[0]
        return FwdLaplArray(2.0 * a.x, FwdJacobian(2.0 * a.jacobian.data, a.jacobian.x0_idx), 2.0 * a.laplacian)

    def spy_list(args, kwargs, sparsity_threshold):
        return [spy(args, kwargs, sparsity_threshold), jnp.ones(())]

    hs = [
        ('not registered', [(H, 'verif_u', False), (E, use(u), use(body))]),
        ('register', [(R, 'verif_u', as_rule(g, **el)), (H, 'verif_u', True), (E, use(u), use(g))]),
        ('register and take back', [(R, 'verif_u', as_rule(g, **el)), (E, use(u), use(g)), (D, 'verif_u'),
                                    (H, 'verif_u', False), (E, use(u), use(body))]),
        ('replace', [(R, 'verif_u', as_rule(g, **el)), (E, use(u), use(g)), (R, 'verif_u', as_rule(h, **el)),
                     (E, use(u), use(h)), (D, 'verif_u'), (E, use(u), use(body))]),
        ('general rule', [(R, 'verif_u', as_rule(lambda x: x * g(x[::-1]))), (E, use(u), use(lambda x: x * g(x[::-1])))]),
        ('other name', [(R, 'verif_v', as_rule(g, **el)), (E, use(u), use(body)), (H, 'verif_u', False)]),
        ('without derivative', [(R, 'verif_u', wo(lambda x: opq('g', x))), (E, use(u), use(lambda x: sg(g(x))))]),
        ('two arguments', [(R, 'verif_two', as_rule(lambda x, y: g(x) * h(y), **el)),
                           (E, lambda x: two(x, x[::-1]), lambda x: g(x) * h(x[::-1]))]),
        ('constant argument', [(R, 'verif_two', as_rule(lambda x, y: g(x) * h(y), **el)),
                               (E, lambda x: two(x, jnp.arange(2.0)) + two(jnp.arange(2.0), x),
                                lambda x: g(x) * h(jnp.arange(2.0)) + g(jnp.arange(2.0)) * h(x))]),
        ('constants only', [(R, 'verif_u', as_rule(g, **el)), (E, lambda x: u(jnp.arange(2.0)) * x,
                                                                lambda x: body(jnp.arange(2.0)) * x)]),
        ('several results', [(R, 'verif_pair', as_rule(lambda x: (g(x), h(x).sum()))),
                             (E, lambda x: pair(x), lambda x: (g(x), h(x).sum()))]),
        ('several results, list', [(R, 'verif_pair', as_rule(lambda x: [g(x), h(x).sum()])),
                                   (E, lambda x: pair(x)[0] * pair(x)[1], lambda x: g(x) * h(x).sum())]),
        ('by hand', [(R, 'verif_u', spy), (E, use(u), use(lambda x: 2.0 * x))]),
        ('by hand, list', [(R, 'verif_pair', spy_list), (E, lambda x: pair(x)[0] * pair(x)[1], lambda x: 2.0 * x)]),
        ('in another jit', [(R, 'verif_u', as_rule(g, **el)), (E, lambda x: jax.jit(lambda y: u(y) * y)(x), use(g))]),
        ('in a scan', [(R, 'verif_u', as_rule(g, **el)),
                       (E, lambda x: jax.lax.scan(lambda c, w: (u(c) * w, None), x, np.array([1.0, 2.0]))[0],
                        lambda x: g(g(x) * 1.0) * 2.0)]),
        ('twice', [(R, 'verif_u', as_rule(g, **el)), (E, lambda x: u(u(x)), lambda x: g(g(x)))]),
        ('primitive', [(H, prim, True), (E, lambda x: jnp.sin(x) * x, lambda x: jnp.sin(x) * x),
                       (R, prim, as_rule(lambda x: g(x), name='g', **el)), (E, lambda x: jnp.sin(x) * x, use(g)),
                       (R, prim, old), (E, lambda x: jnp.sin(x) * x, lambda x: jnp.sin(x) * x)]),
        ('primitive taken away', [(D, prim), (H, prim, False), (E, lambda x: jnp.sin(x) * x, lambda x: jnp.sin(x) * x),
                                  (R, prim, old), (H, prim, True), (E, lambda x: jnp.sin(x), lambda x: jnp.sin(x))]),
        ('primitive rule and name rule', [(R, 'verif_s', as_rule(g, **el)), (R, prim, as_rule(lambda x: h(x), name='h', **el)),
                                          (E, lambda x: named('verif_s', jnp.sin)(x) + jnp.sin(x), lambda x: g(x) + h(x)),
                                          (D, 'verif_s'),
                                          (E, lambda x: named('verif_s', jnp.sin)(x), lambda x: h(x))]),
        ('readme primitive', [(R, jax.lax.cos_p, as_rule(jax.lax.cos, **el)), (E, lambda x: jnp.cos(x) * x, lambda x: jnp.cos(x) * x)]),
        ('registered names', [(E, lambda x: jax.nn.silu(x) * jax.nn.softplus(x), lambda x: jax.nn.silu(x) * jax.nn.softplus(x)),
                              (D, 'silu'), (E, lambda x: jax.nn.silu(x), lambda x: jax.nn.silu(x))]),
        ('sigmoid', [(E, lambda x: jax.nn.sigmoid(x), lambda x: jax.nn.sigmoid(x)), (D, 'sigmoid'),
                     (E, lambda x: jax.nn.sigmoid(x), lambda x: jax.nn.sigmoid(x))]),
        ('logaddexp', [(E, lambda x: jnp.logaddexp(x[0], x[1]), lambda x: jnp.logaddexp(x[0], x[1])), (D, 'logaddexp'),
                       (E, lambda x: jnp.logaddexp(x[0], x[1]), lambda x: jnp.logaddexp(x[0], x[1]))]),
        ('sign', [(E, lambda x: jnp.sign(x) * x, lambda x: jnp.abs(x)), (D, 'sign'), (E, lambda x: jnp.sign(x) * x, lambda x: jnp.abs(x))]),
    ]
    del seen
    for name, steps in hs:
        for thr in (0, 1, 2):
            out.append(history_case(name, steps, thr=thr))
    # every history of three operations on one name
    ops = ['g', 'h', 'del']
    import itertools

    for k in (2, 3) if tier == 'quick' else (2, 3, 4):
        for seq in itertools.product(ops, repeat=k):
            steps, now, bad = [], None, False
            for o in seq:
                if o == 'del':
                    if now is None:
                        bad = True
                        break
                    steps.append((D, 'verif_u'))
                    now = None
                else:
                    steps.append((R, 'verif_u', as_rule({'g': g, 'h': h}[o], **el)))
                    now = o
                steps += [(H, 'verif_u', now is not None), (E, use(u), use({'g': g, 'h': h, None: body}[now]))]
            if not bad:
                out.append(history_case('history ' + ' '.join(seq), steps, thr=2))


def transformed(out, tier):
    """Jitted functions with a rule of the user (for the function itself) under transformations
    of JAX, which keep the name but not the function."""
    wm = np.array([[1.0, 2.0], [-0.5, 3.0]])
    M = lambda x: x.reshape(2, 2)  # noqa: E731
    for name, f in (('sum of last', lambda A: (A * A).sum(-1)), ('product of last', lambda A: A.prod(-1)),
                    ('matrix', lambda A: jnp.tanh(A) @ wm), ('running', lambda A: jnp.cumsum(A, axis=-1) * A),
                    ('elements', lambda A: A * jnp.sin(A))):
        j = named('verif_t', f)
        rule = as_rule(f, in_axes=-1) if name != 'elements' else as_rule(f, in_axes=())

        def turn(g, a, b):
            return lambda x: jax.vmap(g, in_axes=a, out_axes=b)(M(x))

        fns = [('itself', lambda g: lambda x: g(M(x)))]
        fns += [(f'axes {a} {b}', lambda g, a=a, b=b: turn(g, a, b)) for a in (0, 1)
                for b in ((0,) if name[-4:] == 'last' else (0, 1))]
        fns += [
            ('gradient', lambda g: lambda x: jax.grad(lambda y: g(y).sum())(M(x))),
            ('tangent', lambda g: lambda x: jax.jvp(g, (M(x),), (M(x * x),))),
            ('gradients of columns', lambda g: lambda x: jax.vmap(jax.grad(lambda y: g(y).sum()), in_axes=1)(M(x))),
            ('linear part', lambda g: lambda x: jax.linearize(g, np.zeros((2, 2)))[1](M(x))),
            ('also itself', lambda g: lambda x: (g(M(x)), jax.vmap(g, in_axes=1)(M(x)), g(M(x * x)))),
        ]
        for k, fn in fns:
            for thr in (0, 2) if tier == 'quick' else (0, 1, 2, 3):
                out.append(history_case(f'{name} {k}', [('reg', 'verif_t', rule), ('eval', fn(j), fn(f)),
                                                        ('del', 'verif_t'), ('eval', fn(j), fn(f))], (4,), thr))


# --------------------------------------------- additions that keep sparsity


def replaced(case, key, rule):
    """The case with a rule of folx replaced by one the user declares."""
    from folx.wrapped_functions import get_laplacian

    plain = case.impl

    def impl(**arrs):
        old = get_laplacian(key)
        folx.register_function(key, rule)
        try:
            return plain(**arrs)
        finally:
            folx.register_function(key, old)

    case.impl = impl
    return case


def scatters(out, tier):
    at = np.array
    add = jax.lax.scatter_add_p
    one = [
        ('segment_sum', lambda x: jax.ops.segment_sum(x, at([1, 0, 1]), 2), (3,)),
        ('segment_sum gaps', lambda x: jax.ops.segment_sum(x, at([3, 0, 3]), 5), (3,)),
        ('segment_sum drop', lambda x: jax.ops.segment_sum(x, at([0, 5, 1]), 2), (3,)),
        ('segment_sum negative', lambda x: jax.ops.segment_sum(x, at([0, -1, 0]), 2), (3,)),
        ('segment_sum nothing', lambda x: jax.ops.segment_sum(x, at([7, 8, 9]), 2), (3,)),
        ('segment_sum rows', lambda x: jax.ops.segment_sum(x, at([1, 0, 1]), 2), (3, 2)),
        ('segment_sum of products', lambda x: jax.ops.segment_sum(x * x[::-1], at([1, 1, 0]), 2), (3,)),
        ('segment_sum of pairs', lambda x: jax.ops.segment_sum(x.sum(1) * x[:, 0], at([1, 1, 0]), 2), (3, 2)),
        ('onto ones', lambda x: jnp.ones(3).at[at([2, 2])].add(x), (2,)),
        ('onto ones backwards', lambda x: jnp.ones(3).at[at([-1, 0])].add(x), (2,)),
        ('clipped', lambda x: jnp.ones(2).at[at([5, 0])].add(x, mode='clip'), (2,)),
        ('table of indices', lambda x: jnp.ones(3).at[at([[0, 1], [1, 2]])].add(x), (2, 2)),
        ('matrix', lambda x: jnp.ones((2, 2)).at[at([0, 1]), at([1, 1])].add(x), (2,)),
        ('scalar', lambda x: jnp.ones(3).at[1].add(x[0]), (2,)),
        ('by data', lambda x: jnp.ones(2).at[jnp.argmax(x)].add(x[0]), (2,)),
        ('vmapped', lambda x: jax.vmap(lambda a: jnp.ones(3).at[at([2, 0])].add(a))(x), (2, 2)),
        ('onto self', lambda x: x.at[at([0, 0])].add(x[:2] * x[1:]), (3,)),
        ('constant onto self', lambda x: x.at[at([1, 0])].add(at([2.0, 3.0])), (3,)),
    ]
    for k, flags in (('scatter', F.LINEAR | F.SCATTER), ('scatter joint', F.LINEAR | F.SCATTER | F.JOIN_JVP)):
        rule = folx.wrap_forward_laplacian(add.bind, flags=flags, name='scatter_add')
        for name, f, shape in one:
            n = 4
            for m in ('dense', *SPARSE):
                for t in (0,) if m == 'dense' else (1, 2, n) if tier == 'thorough' or k == 'scatter' else (n,):
                    out.append(replaced(step(f'{k} {name}', after(f), [(shape, m)], n, t), add, rule))
            for t in (0, 1, 2, 6):
                out.append(replaced(input_case(f'{k} {name} thr={t}', after(f), [Var(shape)], threshold=t,
                                               disable_jit=True), add, rule))


def cases(tier, rng):
    out = []
    rules(out, tier)
    scatters(out, tier)
    histories(out, tier)
    transformed(out, tier)
    return out
