"""C22: auto_batched_vmap is vmap for every memory limit, and what it runs at once fits."""
import functools
import io
import contextlib
from unittest import mock

import folx
from folx.experimental.memory import compute_memory
from folx.experimental.vmap import auto_batched_vmap

from .. import solve
from .c16 import progs, q, rows
from .common import *

z3 = solve.z3


class Device:
    """Reports the limit of memory; nothing is allocated."""

    platform = 'stub'

    def __init__(self, limit):
        self.limit = limit

    def memory_stats(self):
        return {'bytes_limit': self.limit}


def limited(limit, make):
    with mock.patch.object(jax, 'devices', lambda *a, **k: [Device(limit)]), \
            mock.patch.object(jax, 'local_devices', lambda *a, **k: [Device(limit)]):
        return make()


def at_once(jaxpr, axis_of):
    """The number of samples in the opaque operations of the traced program."""
    out = []
    for e in jaxpr.eqns:
        if e.primitive.name == 'opq':
            out.append(axis_of(e))
        for v in e.params.values():
            for j in v if isinstance(v, (tuple, list)) else (v,):
                if isinstance(j, jax.core.ClosedJaxpr):
                    out += at_once(j.jaxpr, axis_of)
    return out


def peak(jaxpr):
    """Bytes alive at once when a program runs operation by operation.

    Inputs, constants and results stay, other arrays live until they are last read."""
    read = lambda a: a.aval if not isinstance(a, jax.core.Literal) else None
    size = lambda v: int(np.prod(v.aval.shape, dtype=int)) * v.aval.dtype.itemsize
    last = {v: len(jaxpr.eqns) for v in [*jaxpr.invars, *jaxpr.constvars]}
    for k, e in enumerate(jaxpr.eqns):
        for v in e.invars:
            if read(v) is not None:
                last[v] = max(last.get(v, 0), k)
    for v in jaxpr.outvars:
        if read(v) is not None:
            last[v] = len(jaxpr.eqns)
    alive = {v for v in [*jaxpr.invars, *jaxpr.constvars]}
    top = 0
    for k, e in enumerate(jaxpr.eqns):
        alive |= {v for v in e.outvars if v in last}
        inner = peak(e.params['jaxpr'].jaxpr) if e.primitive.name in ('pjit', 'scan') else 0
        top = max(top, sum(map(size, alive)) + inner)
        alive = {v for v in alive if last[v] > k}
    return top


def memory(fn, b, ia, oa, args, kw):
    g = folx.batched_vmap(fn, b, in_axes=ia, out_axes=oa)
    return peak(jax.make_jaxpr(g)(*args, **kw).jaxpr)


def estimate_case(name, fn, args, kw=None, expect=None, **opts):
    """compute_memory against the analysis above. The numbers do not depend on values."""
    st = Structure()
    kw = kw or {}

    def impl(x):
        st.bad.clear()
        static = opts.get('static_argnums', ())
        static = (static,) if isinstance(static, int) else static
        closed = jax.make_jaxpr(fn, static_argnums=static)(*args, **kw)
        want = expect if expect is not None and jax.config.jax_enable_x64 else peak(closed.jaxpr)
        with contextlib.redirect_stdout(io.StringIO()) as text:
            got = compute_memory(fn, *args, **opts, **kw)
        st.expect(isinstance(got, int) and got == want, f'estimates {got!r} bytes, {want} are alive at once')
        st.expect(bool(text.getvalue()) == bool(opts.get('print_top_tensors')), 'prints')
        return [x]

    return Case(f'estimate {name}', {'x': Var(())}, impl, lambda S: [S['x']], st)


def estimates():
    A = lambda *s: np.ones(s)
    yield estimate_case('one operation', jnp.sin, [A(5)], expect=80)
    yield estimate_case('two operations', lambda x: jnp.cos(jnp.sin(x)), [A(5)], expect=120)
    yield estimate_case('chain', lambda x: jnp.exp(jnp.cos(jnp.sin(jnp.tanh(x)))), [A(5)], expect=120)
    yield estimate_case('reduction', lambda x: (x * x).sum(), [A(5)], expect=88)
    yield estimate_case('outer', lambda x: jnp.outer(x, x).sum(0), [A(6)])
    yield estimate_case('reused', lambda x: (lambda y: jnp.sin(y) * y + jnp.exp(y))(x * 2.0), [A(5)])
    yield estimate_case('twice', lambda x: (lambda y: y * y)(jnp.sin(x)), [A(7)])
    yield estimate_case('unused', lambda x, y: jnp.sin(x), [A(3), A(11)])
    yield estimate_case('single precision', lambda x: jnp.sin(x) * 2, [np.ones(9, np.float32)], expect=108)
    yield estimate_case('integers', lambda i: i * i + 1, [np.ones(9, np.int32)], expect=108)
    yield estimate_case('bytes', lambda i: i + i, [np.ones(9, np.uint8)], expect=18)
    yield estimate_case('booleans', lambda x: x > 0.5, [A(8)], expect=72)
    yield estimate_case('complex', lambda x: jnp.abs(jnp.exp(1j * x)), [A(4)])
    yield estimate_case('tree', lambda p: {'r': p['a'] @ p['b'][0]}, [{'a': A(2, 3), 'b': [A(3)]}])
    yield estimate_case('results', lambda x: (x * 2, jnp.sin(x), x), [A(4)])
    yield estimate_case('constants', lambda x: x + np.arange(6.0), [A(6)])
    yield estimate_case('inner jit', lambda x: jax.jit(lambda y: jnp.sin(y) * y)(x) + 1, [A(5)])
    yield estimate_case('inner jits', lambda x: jax.jit(lambda y: jax.jit(jnp.outer)(y, y))(x).sum(), [A(5)])
    yield estimate_case('scan', lambda x: jax.lax.scan(lambda c, w: (c * w, c), x[0], x), [A(4, 3)])
    yield estimate_case('long scan', lambda x: jax.lax.scan(lambda c, w: (c, jnp.sin(c)), x, None, length=50)[1].sum(), [A(3)])
    yield estimate_case('scan of constants', lambda x: jax.lax.scan(lambda c, w: (c + w, None), x, np.ones((20, 3)))[0], [A(3)])
    yield estimate_case('loop', lambda x: jax.lax.fori_loop(0, 3, lambda i, c: jnp.sin(c) * x, x), [A(4)])
    yield estimate_case('gradient', jax.grad(lambda x: jnp.tanh(x @ np.ones((5, 7))).sum()), [A(5)])
    yield estimate_case('laplacian', folx.ForwardLaplacianOperator(0)(lambda x: jnp.sin(x).prod()), [A(4)])
    yield estimate_case('batched', folx.batched_vmap(lambda x: jnp.outer(x, x), 2), [A(6, 3)])
    for name, st in (('number', 1), ('tuple', (1,))):
        yield estimate_case(f'static {name}', lambda x, k: jnp.tile(x, k), [A(3), 4], static_argnums=st)
    yield estimate_case('static first', lambda k, x, y: jnp.tile(x, k) @ jnp.tile(y, k), [2, A(3), A(3)], static_argnums=0)
    yield estimate_case('static two', lambda k, x, s: jnp.tile(x, k) if s else x, [2, A(3), True], static_argnums=(0, 2))
    yield estimate_case('static last', lambda x, y, k: jnp.tile(x, k) @ jnp.tile(y, k), [A(3), A(3), 2], static_argnums=-1)
    yield estimate_case('static before last', lambda x, k, y: jnp.tile(x, k) @ jnp.tile(y, k), [A(3), 2, A(3)], static_argnums=(-2,))
    yield estimate_case('random numbers', lambda x, k: x * jax.random.normal(k, x.shape), [A(3), jax.random.PRNGKey(0)])
    yield estimate_case('keys', lambda x, k: x * jax.random.uniform(jax.random.split(k)[0], x.shape), [A(3), jax.random.key(0)])
    yield estimate_case('scan of keys', lambda x, k: jax.lax.scan(lambda c, j: (c + jax.random.bits(j, (3,)), c), x, jax.random.split(k, 4)),
                        [A(3), jax.random.key(0)])
    yield estimate_case('result of a jit without inputs', lambda x: jax.jit(lambda y: (y * 2, 3.0))(x), [A(5)])
    yield estimate_case('carried number', lambda x: jax.lax.scan(lambda c, a: (c, x * a), 0.0, np.arange(3.0))[1], [A(4)])
    yield estimate_case('stacked number', lambda x: jax.lax.scan(lambda c, a: (c, (x * a, 1.0)), 0.0, np.arange(3.0)), [A(4)])
    yield estimate_case('scan without steps', lambda x: jax.lax.scan(lambda c, a: (c * a, c), x, np.zeros((0,))), [A(4)])
    yield estimate_case('number as argument', lambda x, k: x * k, [A(3), 2.0])
    yield estimate_case('number result', lambda x: (x, 1.0), [A(3)])
    yield estimate_case('keyword', lambda x, s: x * s, [A(4)], {'s': A(4)})
    yield estimate_case('keywords', lambda x, *, b, a: (x * a) @ b, [A(4)], {'b': A(4, 2), 'a': A(4)})
    yield estimate_case('printing', lambda x: jnp.outer(x, x).sum(), [A(6)], print_top_tensors=True)


def auto_case(name, fn, shapes, ia, oa, tree, kw, top, fraction=1.0, counted=True, dtypes=None):
    """For every limit of the memory in which up to about `top` samples fit."""
    vars = {f'x{i}': Var(s, dtype=(dtypes or {}).get(i)) for i, s in enumerate(shapes)}
    st = Structure()
    jia = tuple(ia) if isinstance(ia, list) else ia
    ref_fn = jax.vmap(lambda *a: fn(*a, **kw), in_axes=jia, out_axes=oa)
    avals = tree([jax.ShapeDtypeStruct(v.shape, v.np_dtype()) for v in vars.values()])
    zeros = tree([np.zeros(v.shape, v.np_dtype()) for v in vars.values()])
    seen = {}

    @functools.cache
    def needs(wide):
        """Bytes for one sample and for each further one, with JAX's default types or wide ones."""
        one = memory(fn, 1, ia, oa, zeros, kw)
        return one, memory(fn, 2, ia, oa, zeros, kw) - one

    one, each = needs(True)

    def impl(*, limit, **a):
        st.bad.clear()
        args = tree(list(a.values()))
        f = limited(limit, lambda: auto_batched_vmap(fn, in_axes=ia, out_axes=oa, max_fraction=fraction))
        closed = jax.make_jaxpr(lambda *p: f(*p, **kw))(*args)
        seen['needs'] = needs(bool(jax.config.jax_enable_x64))
        seen['n'] = at_once(closed.jaxpr, lambda e: (*e.invars[0].aval.shape, 1)[0])
        out = f(*args, **kw)
        st.output(out, jax.eval_shape(ref_fn, *avals))
        return jax.tree_util.tree_leaves(out)

    def require(t):
        s = max(seen['n'], default=1)
        one, each = seen['needs']
        target = z3.ToReal(t['limit']) * z3.RealVal(repr(fraction))
        need = lambda k: one + (k - 1) * each
        total = max_samples
        conds = [(z3.Or(need(s) <= need(1), target >= need(s)), f'{s} samples at once need {need(s)} bytes')]
        if each > 0 and s < total:
            conds.append((target < need(s + 1), f'{s + 1} samples would fit in {need(s + 1)} bytes, {s} are run'))
        return [(z3.simplify(c) if isinstance(c, z3.BoolRef) else z3.BoolVal(c), m) for c, m in conds]

    max_samples = top

    def ref(S):
        return run_ref(ref_fn, avals, tree([S[k] for k in vars]))

    # up to two more than all samples fit
    hi = int((one + (top + 2) * max(each, 1)) / fraction) + 8
    return Case(name + ('' if fraction == 1.0 else f' fraction={fraction}'), vars, impl, ref, st,
                choices={'limit': ('Int', 0, hi)}, require=require if counted else None, max_paths=40)


def loops():
    one = lambda xs: tuple(xs)
    B = 4

    def lapl(t):
        def f(x):
            o = folx.forward_laplacian(lambda y: q(y) * y[0], t)(x)
            return o.x, o.laplacian
        return f

    f = jax.custom_jvp(lambda y: q(y))
    f.defjvp(lambda p, t: (f(*p), t[0].sum()))
    return [
        ('fori', lambda x: jax.lax.fori_loop(0, 2, lambda i, c: q(c) * c, x), [(B, 2)], 0, 0, one, {}),
        ('scan without inputs', lambda x: jax.lax.scan(lambda c, _: (q(c) * c, c.sum()), x, None, length=2),
         [(B, 2)], 0, 0, one, {}),
        ('scan stacked', lambda x: jax.lax.scan(lambda c, w: (c + q(w), c * w), x[0], x)[1], [(B, 2)], 0, 1, one, {}),
        ('branches', lambda x, p: jax.lax.cond(p[0] > 0, lambda y: q(y), lambda y: -q(y), x), [(B, 2), (1,)], (0, None), 0, one, {}),
        ('custom rule', lambda x: f(x), [(B, 2)], 0, 0, one, {}),
        ('checkpoint', lambda x: jax.checkpoint(lambda y: q(y) * y)(x), [(B, 2)], 0, 0, one, {}),
        ('gradient', lambda x: jax.grad(lambda y: q(y) ** 2)(x), [(B, 2)], 0, 0, one, {}),
        ('nested jit', lambda x: jax.jit(lambda y: jax.jit(lambda z: z * q(z))(y) + y)(x), [(B, 2)], 0, 0, one, {}),
        ('dense laplacian', lapl(0), [(B, 2)], 0, 0, one, {}),
        ('sparse laplacian', lapl(2), [(2, B)], 1, 0, one, {}),
    ]


def cases(tier, rng):
    out = list(estimates())
    for name, fn, shapes, ia, oa, tree, kw in loops():
        out.append(auto_case(name, fn, shapes, ia, oa, tree, kw, 4, 1.0, False))
    for name, fn, shapes, ia, oa, tree, kw in progs():
        if name in ('constant result', 'constant result axis', 'empty', 'single', 'sorted', 'None result') or 'inner' in name:
            counted = False
        else:
            counted = len(shapes) == 1 and ia in (0, (0,)) and name not in ('matrix',)
        top = {'six': 6, 'eight': 8, 'prime': 7, 'square': 3, 'square in 1': 3, 'two square': 3,
               'two swapped': 3, 'sorted': 2, 'single': 1}.get(name, 5)
        for fr in (1.0, 0.5) if tier == 'quick' else (1.0, 0.5, 0.3, 0.9):
            out.append(auto_case(name, fn, shapes, ia, oa, tree, kw, top, fr, counted))
    return out
