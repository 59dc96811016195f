"""Runs all cases of a property on several worker processes and reports."""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import queue
import random
import subprocess
import sys
import threading
import time
from collections import Counter
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
LATE = 'time limit of the check'
LIMITS = {'quick': (90, 700), 'thorough': (400, 3 * 3600)}  # per case, per check


def environment():
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS='cpu',
        JAX_ENABLE_X64='1',
        XLA_FLAGS='--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 '
        '--xla_force_host_platform_device_count=1',
        OMP_NUM_THREADS='1',
        PYTHONPATH=f'{ROOT}:{env.get("FOLX_REPO", "/repo")}',
        PYTHONHASHSEED='0',
        PYTHONDONTWRITEBYTECODE='1',
        TF_CPP_MIN_LOG_LEVEL='3',
    )
    return env


class Worker:
    def __init__(self, prop, tier, seed, limit):
        self.args = (prop, tier, seed, limit)
        self.limit = limit
        self.p = None
        self.n = None
        self.err = []

    def start(self):
        self.p = subprocess.Popen(
            [PY, '-m', 'symfolx.worker', *map(str, self.args)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            cwd=ROOT,
            env=environment(),
        )
        self.err = []
        self.lines = queue.Queue()
        threading.Thread(target=self._read, args=(self.p, self.lines), daemon=True).start()
        threading.Thread(target=self._drain, args=(self.p, self.err), daemon=True).start()
        msg = self._get(120)
        if msg is None:
            time.sleep(0.5)
            raise RuntimeError('worker does not start:\n' + ''.join(self.err[-40:]))
        self.n = msg['ready']
        self.names = msg['names']

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    @staticmethod
    def _drain(p, err):
        for line in p.stderr:
            err.append(line)
            del err[:-200]

    def _get(self, timeout):
        try:
            line = self.lines.get(timeout=timeout)
        except queue.Empty:
            return None
        return None if line is None else json.loads(line)

    def run(self, k):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(f'{k}\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r = self._get(self.limit + 45)
        if r is None:
            self.stop()
            return {'status': 'undecided', 'detail': 'the worker ended or hung', 'index': k}
        return r

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def known_findings(prop):
    """(case name, line) of the findings recorded for this property."""
    out = {}
    f = ROOT / 'known_findings.txt'
    for line in f.read_text().splitlines() if f.exists() else []:
        if line.startswith(f'known: property={prop} case='):
            name = line.split('case=', 1)[1].split(' :: ')[0].strip()
            out[name] = line
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='only cases whose name contains this')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--first', action='store_true', help='stop at the first violation')
    ap.add_argument('--sample', type=int, help='with --first: only so many cases')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    limit, total = LIMITS[tier]
    t0 = time.time()

    results, lock, todo = [], threading.Lock(), queue.Queue()
    failure = []
    first = Worker(prop, tier, seed, limit)
    try:
        first.start()
    except RuntimeError as e:
        print(e, file=sys.stderr)
        print(f'cannot decide {prop}: the harness does not start')
        return 2
    chosen = [k for k in range(first.n) if not args.only or args.only in first.names[k]]
    if args.first:
        random.Random(0).shuffle(chosen)
        chosen = chosen[: args.sample]
    for k in chosen:
        todo.put(k)
    n_cases = len(chosen)

    def loop(w):
        try:
            while True:
                try:
                    k = todo.get_nowait()
                except queue.Empty:
                    break
                if time.time() - t0 > total:
                    r = {'status': 'undecided', 'detail': LATE, 'index': k}
                else:
                    r = w.run(k)
                with lock:
                    results.append(r)
                    while args.first and r['status'] == 'violation' and not todo.empty():
                        todo.get_nowait()
                    if args.v:
                        print(f"{r.get('wall_s', 0):6.1f}s {r['status']:9} {r.get('name', k)} "
                              f"{r.get('detail', '')[-1500:]}", flush=True)
        except Exception as e:
            failure.append(f'{type(e).__name__}: {e}')
        finally:
            w.stop()

    workers = [first] + [Worker(prop, tier, seed, limit) for _ in range(max(0, min(args.jobs, n_cases) - 1))]
    threads = [threading.Thread(target=loop, args=(w,)) for w in workers]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    while not todo.empty():
        results.append({'status': 'undecided', 'detail': 'no worker left', 'index': todo.get()})
    return report(prop, tier, seed, results, time.time() - t0, args)


def report(prop, tier, seed, results, wall, args):
    results.sort(key=lambda r: r['index'])
    by = Counter(r['status'] for r in results)
    known = known_findings(prop)
    bad, listed = [], []
    for r in results:
        if r['status'] == 'violation':
            (listed if r['name'] in known else bad).append(r)
    fns, prims = set(), Counter()
    verdicts = Counter()
    for r in results:
        fns |= set(r.get('folx_functions', ()))
        prims.update(r.get('primitives', {}))
        verdicts.update(r.get('verdicts', {}))
    num = lambda key: sum(r.get(key) or 0 for r in results)
    held = [r for r in results if r['status'] == 'held']
    samples = [
        {k: r[k] for k in ('name', 'paths', 'outputs', 'solver_outputs', 'queries', 'sample')}
        for r in sorted(held, key=lambda r: -(r.get('solver_outputs') or 0))[:3]
        + held[:: max(1, len(held) // 5)][:6]
    ]
    coverage = {
        'programs': len(results),
        'programs_held': by['held'],
        'disagreements_checked': num('outputs'),
        'decided_by_solver': num('solver_outputs'),
        'decided_by_identical_terms': num('identical'),
        'queries': num('queries'),
        'verdicts': dict(verdicts),
        'solver_s': round(num('solver_s'), 2),
        'congruence_lemmas': num('lemmas'),
        'cross_checked_cvc5': num('cross'),
        'slice_bounded_outputs': num('slices'),
        'paths': num('paths'),
        'paths_pruned_infeasible': num('pruned'),
        'programs_with_truncated_paths': sorted(
            r['name'] for r in results if r.get('truncated')
        ),
        'encodings_validated_against_compiled_program': num('validated'),
        'assumption_witnesses': num('witness'),
        'jaxpr_equations': num('eqns'),
        'functions_encoded': sorted(fns),
        'primitives_executed_symbolically': dict(sorted(prims.items())),
        'undecided': [
            {'name': r.get('name', r['index']), 'why': r.get('detail', '')[:200]}
            for r in results
            if r['status'] in ('undecided', 'error')
        ],
        'samples': samples,
    }
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'translation_validation',
        'coverage': coverage,
        'assumptions': [
            'floating point numbers are real numbers; equality of the algebraic terms',
            'JAX tracing yields the program that runs; the rule of each primitive is '
            'compared with the compiled program at one point per case',
            'array shapes, masks, thresholds and programs are those listed in DESIGN.md; '
            'all values are symbolic',
        ],
        'violations': len(bad),
        'wall_s': round(wall, 1),
    }
    out = ROOT / 'evidence'
    out.mkdir(exist_ok=True)
    if not args.only and not args.first:
        (out / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=str))

    for r in listed:
        print(f"KNOWN-FINDING: property={prop} {r['name']}: {r['detail'][:200]}")
    rep = ROOT / 'replays' / prop
    for r in bad:
        rep.mkdir(parents=True, exist_ok=True)
        h = hashlib.blake2b(r['name'].encode(), digest_size=4).hexdigest()
        f = rep / f'{h}.json'
        f.write_text(json.dumps(
            {'property': prop, 'tier': tier, 'seed': seed, 'case': r['name'],
             'index': r['index'], 'point': r['point'], 'detail': r['detail']}, indent=1))
        print(f"{r['name']}: {r['detail'][:300]}")
        print(f'VIOLATION property={prop} replay={f}')
    print(
        f"{prop} {tier}: {by['held']} of {len(results)} programs held, "
        f"{num('outputs')} equalities ({num('solver_outputs')} by the solver, "
        f"{num('queries')} queries, {num('solver_s'):.1f}s), {num('paths')} paths, "
        f"{by['undecided'] + by['error']} undecided, {len(bad)} violations, {wall:.0f}s"
    )
    if bad:
        return 1
    und = by['undecided'] + by['error']
    for r in results:
        if r['status'] in ('undecided', 'error'):
            print(f"undecided: {r.get('name', r['index'])}: {r.get('detail', '').strip().splitlines()[-1:]}"[:300])
    # a slow machine explores less
    late = sum(r.get('detail') == LATE for r in results)
    if by['held'] == 0 or und - late > 0.34 * (len(results) - late) or late > 0.75 * len(results):
        print(f'cannot decide {prop}: {und} of {len(results)} programs are undecided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
