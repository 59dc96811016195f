"""SMT queries.

An equality of two expressions a = b becomes: the numerator of a - b, a
polynomial over variables and atoms, is zero.  A query asks the solver for
values of the variables and atoms that satisfy the assumptions and make some
numerator non-zero; `unsat` proves the equality for all real inputs.
Assumptions: path conditions, non-zero denominators, and facts about the atoms
(s*s = u and s > 0 for s = sqrt(u), exp > 0, sin^2 + cos^2 = 1, congruence).
"""
from __future__ import annotations

import sys
import time
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from . import expr as X  # noqa: E402
from .expr import E  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.seconds = 0.0
        self.verdicts = {'unsat': 0, 'sat': 0, 'unknown': 0}
        self.lemmas = 0
        self.cross = 0
        self.cross_seconds = 0.0

    def add(self, verdict, dt):
        self.queries += 1
        self.seconds += dt
        self.verdicts[verdict] += 1


STATS = Stats()


def to_z3(e: E):
    if e.z is not None:
        return e.z
    # atoms are leaves here
    stack = [e]
    while stack:
        n = stack[-1]
        if n.z is not None:
            stack.pop()
            continue
        if n.op == 'c':
            n.z = z3.RealVal(str(n.args[0]))
        elif n.op == 'v':
            n.z = z3.Real(n.args[0])
        elif n.op == 'a':
            n.z = z3.Real(f'atom{n.id}')
        elif n.op in ('add', 'mul'):
            todo = [k for k in n.args if k.z is None]
            if todo:
                stack.extend(todo)
                continue
            a, b = n.args
            n.z = a.z + b.z if n.op == 'add' else a.z * b.z
        else:
            raise X.Unsupported(f'{n.op} in a query')
        stack.pop()
    return e.z


TACTICS = ('nlsat', 'smt')


def make_solver(kind):
    if kind == 'nlsat':
        return z3.Tactic('qfnra-nlsat').solver()
    return z3.SolverFor('QF_NRA') if kind == 'nra' else z3.Solver()


def check(constraints, timeout_ms, kinds=TACTICS, want_model=False):
    """(verdict, model): first definite verdict of the given solvers."""
    for kind in kinds:
        s = make_solver(kind)
        s.set('timeout', int(timeout_ms))
        s.add(*constraints)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        STATS.add(r, time.time() - t)
        if r != 'unknown':
            return r, (s.model() if r == 'sat' else None)
    return 'unknown', None


def prove_equal(a: E, b: E) -> bool:
    """Confirms a proposal of two equal fingerprints; a and b have no divisions."""
    STATS.lemmas += 1
    r, _ = check([to_z3(a) != to_z3(b)], 5000)
    return r == 'unsat'


def leaves(es):
    """Variables and atoms below es, including those in arguments of atoms."""
    seen, out = set(), []
    for e in es:
        for n in X.topo(e, lambda n: n.id not in seen):
            seen.add(n.id)
            if n.op in ('v', 'a'):
                out.append(n)
    return out


def poly_atoms(es):
    """Variables and atoms of polynomials, without the arguments of atoms."""
    seen, out = set(), []
    stack = list(es)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('v', 'a'):
            out.append(n)
        elif n.op in ('add', 'mul'):
            stack.extend(n.args)
    return out


def rel(e: E, op: str):
    """z3 constraint e <op> 0 for an expression with denominators."""
    r = X.rat(e)
    if r.c == 0:
        return z3.BoolVal(op in ('>=', '=='))
    # sign of e = sign of the product of odd-power factors
    f = {k: 1 for k, p in r.f.items() if p % 2}
    num = X.monomial(Fraction(1 if r.c > 0 else -1), f)
    even = [k for k, p in r.f.items() if p % 2 == 0]
    t = to_z3(num)
    c = {'>': t > 0, '<': t < 0, '!=': t != 0}[op]
    return z3.And(c, *[to_z3(k) != 0 for k in even])


def side_constraints(es, dens):
    """Facts about the atoms reachable from the polynomials es."""
    out = []
    done = set()
    todo = poly_atoms(list(es) + list(dens))
    atoms = []
    while todo:
        n = todo.pop()
        if n.id in done:
            continue
        done.add(n.id)
        if n.op == 'v':
            info = X.CTX.vars[n.args[0]]
            z = to_z3(n)
            if info['pos']:
                out.append(z > 0)
            if info['lo'] is not None:
                out.append(z > z3.RealVal(str(info['lo'])))
            if info['hi'] is not None:
                out.append(z < z3.RealVal(str(info['hi'])))
            continue
        atoms.append(n)
        fn, args = n.args
        z = to_z3(n)
        if fn[0] == 'exp':
            out.append(z > 0)
            q = fn[1]
            if q != 1:
                whole = X.CTX.atoms.get((('exp', 1), (args[0].fp,)))
                if whole:
                    out.append(z**q == to_z3(whole[0]))
        elif fn[0] == 'root':
            out.append(z > 0)
            num, dens_ = _numden(args[0])
            zq = z * z if fn[1] == 2 else z * z * z if fn[1] == 3 else z ** fn[1]
            out.append(zq * to_z3(dens_) == to_z3(num))
            todo.extend(poly_atoms([num, dens_]))
        elif fn[0] in ('sin', 'cos'):
            other = X.CTX.atoms.get((('cos' if fn[0] == 'sin' else 'sin',), (args[0].fp,)))
            if other and fn[0] == 'sin' or other and other[0].id not in done:
                zo = to_z3(other[0])
                out.append(z * z + zo * zo == 1)
        elif fn[0] == 'tanh':
            out.append(z < 1)
            out.append(z > -1)
    # congruence between atoms that the fingerprints could not merge
    by_fn = {}
    for n in atoms:
        by_fn.setdefault(n.args[0], []).append(n)
    for group in by_fn.values():
        for i in range(len(group)):
            for j in range(i):
                a, b = group[i], group[j]
                if any(x.fp != y.fp for x, y in zip(a.args[1], b.args[1])):
                    continue
                eqs = [
                    to_z3(X.numer(X.sub(x, y))[0]) == 0
                    for x, y in zip(a.args[1], b.args[1])
                ]
                out.append(z3.Implies(z3.And(*eqs), to_z3(a) == to_z3(b)))
    return out


def split(poly: E, r: E, q: E):
    """(A, B) with poly = A + B*r, given r*r = q."""
    out = {}
    stack = [poly]
    while stack:
        n = stack[-1]
        if n.id in out:
            stack.pop()
            continue
        if n.op in ('add', 'mul'):
            todo = [k for k in n.args if k.id not in out]
            if todo:
                stack.extend(todo)
                continue
        stack.pop()
        if n is r:
            v = (X.ZERO, X.ONE)
        elif n.op in ('add', 'mul'):
            (a, b), (c, d) = out[n.args[0].id], out[n.args[1].id]
            if n.op == 'add':
                v = (X.add(a, c), X.add(b, d))
            else:
                v = (X.add(X.mul(a, c), X.mul(q, X.mul(b, d))), X.add(X.mul(a, d), X.mul(b, c)))
        else:
            v = (n, X.ZERO)
        out[n.id] = v
    return out[poly.id]


def without_roots(poly: E, limit=64):
    """Polynomials that all vanish only if poly does, given what square roots and
    cosines square to.  (If one of them does not vanish, nothing is said.)"""
    parts = [poly]
    for _ in range(8):
        cand = []
        for n in poly_atoms(parts):
            if n.op != 'a':
                continue
            fn, args = n.args
            if fn[0] == 'root' and fn[1] == 2:
                cand.append((n, args[0]))
            elif fn[0] == 'cos':
                other = X.CTX.atoms.get((('sin',), (args[0].fp,)))
                if other:
                    cand.append((n, X.sub(X.ONE, X.mul(other[0], other[0]))))
        if not cand or len(parts) > limit:
            break
        r, q = max(cand, key=lambda c: c[0].id)
        new = []
        for p in parts:
            for c in split(p, r, q):
                if c is not X.ZERO:
                    c = X.numer(c)[0]
                    if c is not X.ZERO:
                        new.append(c)
        parts = new
    return parts


def _numden(e):
    r = X.rat(e)
    num = X.monomial(r.c, {k: p for k, p in r.f.items() if p > 0})
    den = X.monomial(Fraction(1), {k: -p for k, p in r.f.items() if p < 0})
    return num, den


def model_value(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return 0.0


def cross_check_cvc5(constraints, timeout_ms):
    """A second solver on the same query; returns its verdict."""
    import cvc5

    s = z3.Solver()
    s.add(*constraints)
    text = '(set-logic QF_NRA)\n' + s.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption('tlimit-per', str(int(timeout_ms)))
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
    sm = parser.getSymbolManager()
    t = time.time()
    out = ''
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        o = cmd.invoke(slv, sm)
        if o:
            out += str(o)
    STATS.cross += 1
    STATS.cross_seconds += time.time() - t
    return out.strip()
