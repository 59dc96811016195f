"""A case: real folx code (`impl`) and its specification (`ref`), over symbolic arrays."""
from __future__ import annotations

import contextlib
import random
import time
import traceback
from dataclasses import dataclass, field, replace
from fractions import Fraction
from typing import Any, Callable

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
from jax.interpreters import partial_eval as pe

from . import alg, interp, solve
from . import expr as X
from .expr import Unsupported


@dataclass
class Var:
    """A symbolic array: its shape and the domain of its elements."""

    shape: tuple = ()
    complex: bool = False
    pos: bool = False
    lo: Any = None
    hi: Any = None
    dtype: Any = None

    def np_dtype(self):
        # single precision within a case that asks for it
        return jax.dtypes.canonicalize_dtype(
            self.dtype or (np.complex128 if self.complex else np.float64))


@dataclass
class Case:
    name: str
    vars: dict
    impl: Callable  # (**jax arrays) -> flat list of arrays; runs the real code
    ref: Callable  # (dict of symbolic arrays) -> flat list of symbolic arrays
    structure: Callable | None = None  # () -> list of mismatches, after tracing
    max_paths: int = 24
    note: str = ''
    functions: tuple = ()
    timeout: int = 20  # seconds per solver query
    may_reject: bool = False  # an exception is an acceptable answer, a wrong result is not
    tol: float = 1e-6  # of comparisons with floating point numbers
    x32: bool = False  # traced and run as without jax_enable_x64, which is JAX's default
    choices: dict | None = None  # name -> (Int or Real, lo, hi): symbolic Python numbers given to impl
    require: Callable | None = None  # (choices as z3 terms) -> [(z3 condition, text)], after tracing


@dataclass
class Result:
    name: str
    status: str = 'held'  # held | violation | undecided | error
    detail: str = ''
    point: dict = field(default_factory=dict)
    paths: int = 0
    pruned: int = 0
    truncated: bool = False
    outputs: int = 0
    identical: int = 0
    solver_outputs: int = 0
    slices: int = 0
    queries: int = 0
    solver_s: float = 0.0
    verdicts: dict = field(default_factory=dict)
    lemmas: int = 0
    cross: int = 0
    eqns: int = 0
    validated: int = 0
    witness: int = 0
    wall_s: float = 0.0
    functions: tuple = ()
    note: str = ''
    sample: str = ''


def names_of(name, spec: Var):
    out = []
    for i in np.ndindex(*spec.shape):
        base = f'{name}[{",".join(map(str, i))}]'
        out.append((i, (base + '.re', base + '.im') if spec.complex else (base,)))
    return out


def symbolic(case: Case):
    arrs = {}
    for name, spec in case.vars.items():
        a = np.empty(spec.shape, dtype=object)
        for i, ns in names_of(name, spec):
            vs = [X.var(n, spec.pos, spec.lo, spec.hi) for n in ns]
            a[i] = alg.Cx(*vs) if spec.complex else vs[0]
        arrs[name] = a
    return arrs


def random_point(case: Case, rng: random.Random):
    p = {}
    for name, spec in case.vars.items():
        for _, ns in names_of(name, spec):
            for n in ns:
                lo, hi = -1.6, 1.6
                if spec.pos:
                    lo, hi = 0.3, 2.0
                if spec.lo is not None:
                    lo = float(spec.lo)
                    hi = max(hi, lo + 1.0)
                if spec.hi is not None:
                    hi = float(spec.hi)
                    lo = min(lo, hi - 1.0) if spec.lo is None else lo
                m = 0.05 * (hi - lo)
                p[n] = rng.uniform(lo + m, hi - m)
    return p


def arrays_at(case: Case, point):
    out = {}
    for name, spec in case.vars.items():
        a = np.empty(spec.shape, dtype=spec.np_dtype())
        for i, ns in names_of(name, spec):
            a[i] = complex(*(point[n] for n in ns)) if spec.complex else point[ns[0]]
        out[name] = a
    return out


def trace(case: Case, choices=None):
    keys = list(case.vars)
    avals = [
        jax.ShapeDtypeStruct(case.vars[k].shape, case.vars[k].np_dtype()) for k in keys
    ]
    extra = choices or {}
    closed = jax.make_jaxpr(lambda *a: list(case.impl(**dict(zip(keys, a)), **extra)))(*avals)
    # what does not reach a result is removed, as the compiler does
    jaxpr, _ = pe.dce_jaxpr(closed.jaxpr, [True] * len(closed.jaxpr.outvars), instantiate=True)
    return jax.core.ClosedJaxpr(jaxpr, closed.consts)


def run_impl(closed, arrs):
    """The traced code, compiled and run by JAX."""
    return [
        np.asarray(o)
        for o in jax.jit(jax.core.jaxpr_as_fun(closed))(*map(jnp.asarray, arrs.values()))
    ]


def run_real(case: Case, arrs, choices=None):
    """The real code, run directly on concrete arrays (used for replays)."""
    return [np.asarray(o) for o in
            case.impl(**{k: jnp.asarray(v) for k, v in arrs.items()}, **(choices or {}))]


def choices_at(case, point):
    """Concrete values of the symbolic Python numbers of a case."""
    out = {}
    for k, (sort, lo, hi) in (case.choices or {}).items():
        v = point.get(f'#{k}', str(lo))
        out[k] = int(v) if sort == 'Int' else Fraction(v)
    return out


class TooManyPaths(Exception):
    pass


class Path:
    """Decisions about signs of expressions along one execution."""

    def __init__(self, prefix, domain):
        self.prefix = list(prefix)
        self.taken = []
        self.conds = []  # (expression, op)
        self.memo = {}
        self.new = []  # alternative prefixes
        self.domain = domain

    def feasible(self, extra):
        cons = []
        try:
            es = [e for e, _ in self.conds + [extra]]
            for e, op in self.conds + [extra]:
                cons.append(solve.rel(e, op))
            polys, dens = [], []
            for e in es:
                n, d = X.numer(e)
                polys.append(n)
                dens += d
            cons += solve.side_constraints(polys, dens)
        except Unsupported:
            return True
        r, _ = solve.check(cons, 700, kinds=('nlsat',))
        return r != 'unsat'

    def __call__(self, d, order=True):
        if not order:
            # only d != 0 is assumed
            self.conds.append((d, '!='))
            return 0
        key = min(d.fp, X.P - d.fp)
        flip = 1 if d.fp == key else -1
        if key in self.memo:
            return self.memo[key] * flip
        if d.sgn == 2:
            self.conds.append((d, '!='))
            self.memo[key] = flip
            return 1
        k = len(self.taken)
        if k < len(self.prefix):
            s = self.prefix[k]
        else:
            options = [s for s in (1, -1) if self.feasible((d, '>' if s > 0 else '<'))]
            if not options:
                raise Infeasible()
            s = options[0]
            if len(options) > 1:
                self.new.append(self.taken + [-s])
        self.taken.append(s)
        self.conds.append((d, '>' if s > 0 else '<'))
        self.memo[key] = s * flip
        return s


class Infeasible(Exception):
    pass


def flatten_real(outs):
    """List of E (complex numbers become two)."""
    es = []
    for o in outs:
        o = interp.lift_array(o if isinstance(o, np.ndarray) else np.asarray(o))
        for i in np.ndindex(o.shape):
            e = o[i]
            if isinstance(e, alg.Cx):
                es += [alg.value(e.re), alg.value(e.im)]
            else:
                es.append(alg.value(e))
    return es


def flatten_num(outs):
    vals = []
    for o in outs:
        o = np.asarray(o)
        for v in o.ravel():
            if np.iscomplexobj(o):
                vals += [float(v.real), float(v.imag)]
            else:
                vals.append(float(v))
    return vals


def align(a, b):
    """Match complex/real representation of an implementation and a reference array."""
    a = interp.lift_array(a if isinstance(a, np.ndarray) else np.asarray(a))
    b = interp.lift_array(b if isinstance(b, np.ndarray) else np.asarray(b))
    if any(isinstance(e, alg.Cx) for e in list(a.ravel()) + list(b.ravel())):
        a, b = interp._cx(a), interp._cx(b)
    return a, b


def reference_at(case: Case, point):
    """Numeric value of the specification at a concrete point."""
    X.reset()
    X.CTX.prove_equal = None
    memo = {}

    def decide(d, order=True):
        if not order:
            return 0
        if d.id not in memo:
            (v,) = X.evaluate([d], point)
            memo[d.id] = (v > 0) - (v < 0)
        return memo[d.id]

    X.CTX.decide = decide
    refs = case.ref(symbolic(case))
    return [X.evaluate(flatten_real([r]), point) for r in refs], refs


def compare_at(case: Case, point):
    """Replays a point on the real code. Returns (differs, description) or None if invalid."""
    arrs = arrays_at(case, point)
    got = run_real(case, arrs, choices_at(case, point))
    want, refs = reference_at(case, point)
    scale = max([1.0] + [abs(v) for w in want for v in w if np.isfinite(v)])
    if scale > 1e9:
        return None
    nan_impl = False
    for k, (g, w, r) in enumerate(zip(got, want, refs)):
        g = np.asarray(g)
        gv = flatten_num([g])
        if len(gv) != len(w):
            if 2 * len(gv) == len(w):
                gv = [v for x in gv for v in (x, 0.0)]
            elif len(gv) == 2 * len(w):
                w = [v for x in w for v in (x, 0.0)]
            else:
                return True, f'output {k}: {len(gv)} values, expected {len(w)}'
        for j, (a, b) in enumerate(zip(gv, w)):
            if not np.isfinite(b):
                if np.isnan(b):
                    return None
                continue
            if not np.isfinite(a):
                nan_impl = True
                continue
            if abs(a - b) > case.tol * (1 + abs(b) + 1e-3 * scale):
                return True, f'output {k}[{j}]: folx gives {a!r}, the specification {b!r}'
    if nan_impl:
        return 'nan', 'folx gives a non-finite value where the specification is finite'
    return False, ''


def try_replay(case: Case, point, rng, attempts=6):
    """Looks for a concrete failing input, starting from the solver's model."""
    tries = []
    if point is not None:
        tries.append(point)
        for eps in (1e-2, 0.2):
            tries.append({k: v + rng.uniform(-eps, eps) for k, v in point.items()})
    tries += [random_point(case, rng) for _ in range(attempts)]
    nans = 0
    for p in tries:
        p = clip(case, p)
        r = compare_at(case, p)
        if r is None or r[0] is False:
            continue
        if r[0] == 'nan':
            nans += 1
            if nans < 3:
                continue
        return p, r[1]
    return None


def clip(case, p):
    p = dict(p)
    p.update(case.__dict__.get('chosen', {}))
    for name, spec in case.vars.items():
        for _, ns in names_of(name, spec):
            for n in ns:
                v = p.get(n, 0.5)
                if spec.pos:
                    v = max(v, 1e-2)
                if spec.lo is not None:
                    v = max(v, float(spec.lo) + 1e-3)
                if spec.hi is not None:
                    v = min(v, float(spec.hi) - 1e-3)
                p[n] = max(min(v, 50.0), -50.0)
    return p


def check_case(case: Case, seed=1, tier='quick', validate=True) -> Result:
    t0 = time.time()
    res = Result(case.name, functions=case.functions, note=case.note)
    q0 = (solve.STATS.queries, solve.STATS.seconds, dict(solve.STATS.verdicts),
          solve.STATS.lemmas, solve.STATS.cross)
    rng = random.Random(f'{seed}:{case.name}')
    try:
        with precision(case):
            _check(case, res, rng, tier, validate)
    except Unsupported as e:
        res.status, res.detail = 'undecided', f'not encodable: {e}'
    except Timeout:
        res.status, res.detail = 'undecided', 'time limit of the case'
    except Exception as e:  # the harness itself failed
        res.status = 'error'
        res.detail = ''.join(traceback.format_exception(e))[-3000:]
    s = solve.STATS
    res.queries = s.queries - q0[0]
    res.solver_s = round(s.seconds - q0[1], 3)
    res.verdicts = {k: v - q0[2][k] for k, v in s.verdicts.items()}
    res.lemmas = s.lemmas - q0[3]
    res.cross = s.cross - q0[4]
    res.wall_s = round(time.time() - t0, 2)
    X.reset()
    return res


class Timeout(BaseException):
    pass


def precision(case):
    from jax.experimental import disable_x64

    return disable_x64() if case.x32 else contextlib.nullcontext()


def single(case, tol=2e-3):
    """The same case, with JAX's default types: 32 bit numbers and indices."""
    return replace(case, name=f'{case.name} x32', x32=True, tol=max(case.tol, tol))


def _check(case, res, rng, tier, validate):
    if case.choices is None:
        return _check_traced(case, res, rng, tier, validate)
    from . import pysym

    terms, assume = {}, []
    for k, (sort, lo, hi) in case.choices.items():
        z = terms[k] = getattr(solve.z3, sort)(k)
        assume += [z >= lo, z <= hi]
    nums = {k: pysym.Num(z) for k, z in terms.items()}
    engine = pysym.Engine(assume, case.max_paths)

    def run():
        try:
            return trace(case, nums), list(case.structure() if case.structure else []), (
                case.require(terms) if case.require else [])
        except Unsupported:
            raise
        except Exception as e:
            return e, [], []

    same = set()
    for conds, (closed, bad, needs) in engine.explore(run):
        r, m = solve.check(conds, 5000, kinds=('smt',))
        if m is None:
            res.status, res.detail = 'undecided', 'no model of a path'
            return
        case.chosen = chosen_values(terms, m)
        for cond, text in needs:
            r, m = solve.check(conds + [solve.z3.Not(cond)], 10000, kinds=('smt',))
            if r == 'sat':
                case.chosen = chosen_values(terms, m)
                # confirmed by tracing with these values
                values = choices_at(case, case.chosen)
                trace(case, values)
                zs = {k: solve.z3.IntVal(v) if isinstance(v, int) else solve.z3.RealVal(str(v)) for k, v in values.items()}
                again = [t for c, t in case.require(zs) if solve.z3.is_false(solve.z3.simplify(c))]
                res.point = random_point(case, rng) | case.chosen
                if again:
                    res.status, res.detail = 'violation', f'{again[0]} with {values}'
                else:
                    res.status, res.detail = 'undecided', f'{text}: the model does not replay'
                return
            if r == 'unknown':
                res.status, res.detail = 'undecided', f'no answer to: {text}'
            res.outputs += 1
            res.solver_outputs += 1
        values = choices_at(case, case.chosen)
        if isinstance(closed, Exception) or bad:
            res.status = 'violation'
            e = closed
            res.detail = ('structure: ' + '; '.join(bad)[:400] if bad else
                          f'raises {type(e).__name__}: {str(e)[:300]}') + f' with {values}'
            res.point = random_point(case, rng) | case.chosen
            return
        key = (str(closed.jaxpr), tuple(np.asarray(c).tobytes() for c in closed.consts))
        if key in same:
            # a program that was decided already
            continue
        same.add(key)
        before, res.paths = res.paths, 0
        _check_traced(case, res, rng, tier, validate, closed)
        res.paths += before
        if res.status == 'violation':
            res.detail += f' with {values}'
            return
    res.truncated |= engine.truncated


def chosen_values(terms, m):
    return {f'#{k}': str(m.eval(z, model_completion=True)) for k, z in terms.items()}


def _check_traced(case, res, rng, tier, validate, closed=None):
    try:
        closed = closed or trace(case)
    except Unsupported:
        raise
    except Exception as e:
        # Does it fail on concrete arrays as well?  Tracing is what jit does, so
        # a failure to trace is a failure of the program either way.
        if case.may_reject:
            res.detail = f'rejected: {type(e).__name__}'
            return
        res.status = 'violation'
        res.detail = f'raises {type(e).__name__}: {str(e)[:300]}'
        res.point = random_point(case, rng)
        return
    res.eqns = count_eqns(closed.jaxpr)
    if case.structure is not None and case.choices is None:
        bad = case.structure()
        if bad:
            res.status = 'violation'
            res.detail = 'structure: ' + '; '.join(bad)[:400]
            res.point = random_point(case, rng)
            return

    stack = [[]]
    pending_unknown = None
    while stack:
        if res.paths >= case.max_paths:
            res.truncated = True
            break
        prefix = stack.pop()
        X.reset()
        X.CTX.prove_equal = solve.prove_equal
        path = Path(prefix, None)
        X.CTX.decide = path
        S = symbolic(case)
        try:
            outs = interp.evaluate(closed.jaxpr, closed.consts, [S[k] for k in case.vars])
            refs = case.ref(S)
        except Infeasible:
            res.pruned += 1
            stack.extend(path.new)
            continue
        stack.extend(path.new)
        res.paths += 1
        if len(outs) != len(refs):
            res.status = 'violation'
            res.detail = f'{len(outs)} outputs, expected {len(refs)}'
            res.point = random_point(case, rng)
            return
        pairs = []
        for k, (o, r) in enumerate(zip(outs, refs)):
            o, r = align(o, r)
            if o.shape != r.shape:
                res.status = 'violation'
                res.detail = f'output {k} has shape {o.shape}, expected {r.shape}'
                res.point = random_point(case, rng)
                return
            for i in np.ndindex(o.shape):
                a, b = o[i], r[i]
                if isinstance(a, alg.Cx):
                    pairs += [(a.re, alg.strip(b.re)), (a.im, alg.strip(b.im))]
                else:
                    pairs.append((alg.strip(a), alg.strip(b)))
        if validate and not res.validated and res.paths <= 8:
            validate_path(case, closed, path, pairs, res, rng)
        verdict, info = decide_pairs(case, path, pairs, res, tier)
        if verdict == 'sat':
            got = try_replay(case, info, rng)
            if got:
                res.status = 'violation'
                res.point, res.detail = got
                return
            pending_unknown = 'the solver has a model of the abstraction, but no concrete input was found'
        elif verdict == 'unknown':
            pending_unknown = info
    if pending_unknown:
        # a mismatch that the solver cannot decide may still be real
        got = try_replay(case, None, rng)
        if got:
            res.status = 'violation'
            res.point, res.detail = got
            return
        res.status, res.detail = 'undecided', pending_unknown


def count_eqns(jaxpr):
    n = 0
    for e in jaxpr.eqns:
        n += 1
        for v in e.params.values():
            for j in v if isinstance(v, (tuple, list)) else (v,):
                if isinstance(j, jax.core.ClosedJaxpr):
                    n += count_eqns(j.jaxpr)
                elif isinstance(j, jax.core.Jaxpr):
                    n += count_eqns(j)
    return n


def holds_at(conds, point):
    for e, op in conds:
        (v,) = X.evaluate([e], point)
        if not np.isfinite(v):
            return False
        if op == '>' and not v > 1e-6 or op == '<' and not v < -1e-6:
            return False
        if op == '!=' and abs(v) < 1e-6:
            return False
    return True


def validate_path(case, closed, path, pairs, res, rng):
    """Translator validation: the encoding evaluated at a point of this path must
    agree with the compiled program; the point also witnesses that the path's
    assumptions can be met."""
    for _ in range(40 if res.paths == 1 else 15):
        p = random_point(case, rng)
        if not holds_at(path.conds, p):
            continue
        enc = X.evaluate([a for a, _ in pairs], p)
        if not all(np.isfinite(enc)):
            continue
        res.witness += 1
        real = flatten_num(run_impl(closed, arrays_at(case, p)))
        if len(real) != len(enc):  # real parts only where the output type is real
            real = [v for v in real]
            if len(real) * 2 == len(enc):
                real = [x for v in real for x in (v, 0.0)]
        if len(real) != len(enc):
            raise AssertionError(f'encoding has {len(enc)} values, the program {len(real)}')
        scale = max([1.0] + [abs(v) for v in enc])
        for a, b in zip(enc, real):
            if not np.isfinite(b) or abs(a - b) > case.tol * (1 + abs(a) + 1e-3 * scale):
                raise Unsupported(
                    f'the encoding gives {a}, the compiled program {b}: not a faithful encoding'
                )
        res.validated += 1
        return


def decide_pairs(case, path, pairs, res, tier):
    """unsat/sat/unknown for: some pair differs somewhere on this path."""
    polys, dens, full = [], [], []
    for a, b in pairs:
        res.outputs += 1
        if a is b:
            res.identical += 1
            continue
        if 'nan' in (a.op, b.op) or 'inf' in (a.op, b.op):
            # not a number, or different infinities, where the other is a real number
            return 'sat', None
        ra, rb = X.rat(a), X.rat(b)
        ta, tb, den = X.difference(ra, rb)
        num = X.sub(ta, tb)
        if num is X.ZERO:
            num = None
        dens += den
        if num is not None:
            polys.append(num)
            full.append((a, b))
        else:
            polys.append(X.ZERO)
    if not polys:
        return 'unsat', None
    res.solver_outputs += len(polys)
    goals = [solve.to_z3(p) != 0 for p in polys]
    if not res.sample:
        a, b = full[-1] if full else pairs[-1]
        res.sample = f'{X.show(a, 5)[:160]} == {X.show(b, 5)[:160]}'
    # 1. without any assumption
    chunk = 40
    hard = []
    for k in range(0, len(goals), chunk):
        g = goals[k : k + chunk]
        r, _ = solve.check([solve.z3.Or(*g)], 4000, kinds=('nlsat',))
        if r != 'unsat':
            hard += list(range(k, min(k + chunk, len(goals))))
        elif tier == 'thorough':
            solve.cross_check_cvc5([solve.z3.Or(*g)], 5000)
    if not hard:
        return 'unsat', None
    # 2. with the facts about the atoms and the path conditions, one by one
    conds = [solve.rel(e, op) for e, op in path.conds]
    cpolys = [X.numer(e)[0] for e, _ in path.conds]
    cdens = [d for e, _ in path.conds for d in X.numer(e)[1]]
    unknown = None
    for k in hard:
        r, _ = solve.check([goals[k]], 2000, kinds=('nlsat',))
        if r == 'unsat':
            continue
        parts = solve.without_roots(polys[k])
        if not parts:
            continue
        r, _ = solve.check([solve.z3.Or(*[solve.to_z3(c) != 0 for c in parts])], 4000, kinds=('nlsat',))
        if r == 'unsat':
            continue
        side = solve.side_constraints([polys[k]] + cpolys, dens + cdens)
        nz = [solve.to_z3(d) != 0 for d in set(dens)]
        base = side + conds + nz + [goals[k]]
        light = solve.side_constraints([polys[k]], [])
        r, m = solve.check(light + [goals[k]], 1000 * case.timeout, kinds=('nlsat', 'smt'))
        if r == 'sat':
            r, m = solve.check(base, 1000 * case.timeout, kinds=('nlsat', 'smt'))
            if r == 'unknown':
                # the weaker assumptions already have a model; use it as a hint
                return 'sat', None
        if r == 'sat':
            pt = {}
            for n, info in X.CTX.vars.items():
                pt[n] = solve.model_value(m, solve.to_z3(info['node']))
            return 'sat', pt
        if r == 'unknown':
            got = slice_query(case, polys[k], path, res)
            if got == 'sat':
                return 'sat', None
            if got == 'unknown':
                unknown = f'no answer within {case.timeout}s for {X.show(polys[k], 4)[:120]}'
    if unknown:
        return 'unknown', unknown
    return 'unsat', None


def slice_query(case, poly, path, res, lines=3):
    """The same equality on lines through the input space (a weaker bound)."""
    rng = random.Random(poly.fp)
    ls = [n for n in solve.poly_atoms([poly])]
    if any(n.op == 'a' for n in ls):
        return 'unknown'
    t = solve.z3.Real('t')
    for _ in range(lines):
        sub = [
            (solve.to_z3(n), solve.z3.RealVal(rng.randint(-9, 9)) + t * rng.randint(-9, 9))
            for n in ls
        ]
        z = solve.z3.substitute(solve.to_z3(poly), *sub)
        r, _ = solve.check([z != 0], 5000, kinds=('nlsat',))
        if r != 'unsat':
            return r
    res.slices += 1
    return 'unsat'
