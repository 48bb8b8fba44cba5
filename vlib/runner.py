"""
Runs the facets of one property check.

A facet is a generated-input search with an explicit oracle: a Hypothesis
strategy whose values are plain JSON-able cases, and a function fn(case, ctx)
that drives the code under test and judges it.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import zlib

from vlib import boot
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_S = 40.
CASE_S = 150


class Violation(Exception):
    pass


class Skip(Exception):
    """Case is outside of the domain of the property"""


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Per-case context handed to a facet"""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.have_output = False
        self.notes = []

    def label(self, *labels):
        self.labels.extend(str(x) for x in labels)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def got(self, *_):
        """From here on, an error in the oracle is malformed output"""
        self.have_output = True
        return _[0] if len(_) == 1 else _

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*[short(a) for a in args])
                            if args else msg)

    def fail(self, msg, *args):
        self.check(False, msg, *args)

    def skip(self, why=''):
        raise Skip(why)

    def eq(self, a, b, what):
        if not (a == b):
            raise Violation('{}: {} != {}'.format(what, short(a), short(b)))

    def close(self, a, b, what, rtol=1e-9, atol=1e-9):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation('{}: shape {} != {}'.format(
                what, a.shape, b.shape))
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            i = np.nonzero(~np.atleast_1d(ok))[0][:3]
            raise Violation('{}: {} != {} at {}'.format(
                what, np.atleast_1d(a)[i], np.atleast_1d(b)[i], i))


def short(a, n=600):
    s = str(a)
    return s if len(s) <= n else s[:n] + '...'


class Facet:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule=''):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule


def facet(name, strategy, quick, thorough=None, rule=''):
    def deco(fn):
        return Facet(name, strategy, fn, quick, thorough, rule)
    return deco


def case_json(case):
    return json.dumps(case, sort_keys=True, default=str)


def _from_repo(tb):
    root = os.path.join(os.path.realpath(boot.REPO), 'anticipy') + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _alarm(*_):
    raise CaseTimeout()


def run_case(fct, case):
    """
    Run one case. Returns (ctx, status, message); status is one of
    ok, skip, timeout, violation, error
    """
    ctx = Ctx()
    seed = zlib.crc32((fct.name + case_json(case)).encode())
    np.random.seed(seed)
    random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_S)
    try:
        fct.fn(case, ctx)
        return ctx, 'ok', ''
    except Skip as e:
        return ctx, 'skip', str(e)
    except CaseTimeout:
        return ctx, 'timeout', ''
    except Violation as e:
        return ctx, 'violation', str(e)
    except Exception as e:
        txt = ''.join(traceback.format_exception(e)[-6:])
        if _from_repo(e.__traceback__):
            return ctx, 'violation', \
                'exception in the code under test on valid input: ' + txt
        if ctx.have_output and isinstance(e, (
                KeyError, IndexError, AttributeError, TypeError, ValueError,
                AssertionError)):
            return ctx, 'violation', 'malformed output: ' + txt
        return ctx, 'error', txt
    finally:
        signal.alarm(0)


class _Found(Exception):
    pass


def run_shard(args):
    check_id, facet_name, seed, n, deadline = args
    t0 = time.time()
    mod = importlib.import_module('checks.' + check_id.lower())
    fct = {f.name: f for f in mod.FACETS}[facet_name]
    st = dict(facet=facet_name, evaluations=0, skipped=0, timeouts=0,
              nontrivial=set(), labels={}, samples=[], best=None,
              error=None, exhausted=False, seed=seed)
    t_found = [None]

    def body(case):
        now = time.time()
        if st['error']:
            return
        if t_found[0] is not None:
            if now - t_found[0] > SHRINK_S:
                return
        elif now > deadline:
            st['exhausted'] = True
            return
        ctx, status, msg = run_case(fct, case)
        if status == 'error':
            st['error'] = '{}\ncase: {}'.format(msg, short(case_json(case)))
            return
        if status == 'timeout':
            st['timeouts'] += 1
            return
        if status == 'skip':
            st['skipped'] += 1
            return
        if t_found[0] is None:
            st['evaluations'] += 1
            for la in set(ctx.labels):
                st['labels'][la] = st['labels'].get(la, 0) + 1
            if ctx.is_nontrivial:
                cj = case_json(case)
                h = hashlib.md5(cj.encode()).hexdigest()[:12]
                if h not in st['nontrivial'] and len(cj) < 1500 and \
                        len(st['samples']) < 2 and \
                        (st['evaluations'] > 5 or n <= 5):
                    st['samples'].append(case)
                st['nontrivial'].add(h)
        if status == 'violation':
            if t_found[0] is None:
                t_found[0] = time.time()
            cj = case_json(case)
            if st['best'] is None or \
                    (len(cj), cj) < (len(st['best'][0]), st['best'][0]):
                st['best'] = (cj, msg, case)
            raise _Found(msg.split('\n')[0][:80])

    test = settings(
        max_examples=n, deadline=None, database=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False, print_blob=False,
    )(hypothesis.seed(seed)(given(fct.strategy)(body)))
    try:
        test()
    except _Found:
        pass
    except BaseException as e:
        if st['best'] is None and not isinstance(e, KeyboardInterrupt):
            if type(e).__name__ not in ('Unsatisfiable',):
                st['error'] = st['error'] or ''.join(
                    traceback.format_exception(e)[-8:])
    st['nontrivial'] = list(st['nontrivial'])
    st['wall'] = time.time() - t0
    if st['best'] is not None:
        st['best'] = (st['best'][0], st['best'][1])
    return st


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def replay(check_id, path):
    with open(path) as f:
        rec = json.load(f)
    check_id = rec['property']
    mod = importlib.import_module('checks.' + check_id.lower())
    fct = {f.name: f for f in mod.FACETS}[rec['facet']]
    ctx, status, msg = run_case(fct, rec['case'])
    print('replay {} {}: {}'.format(check_id, rec['facet'], status))
    if status == 'violation':
        print(msg)
        print('VIOLATION property={} replay={}'.format(check_id, path))
        return 1
    if status == 'error':
        print(msg)
        return 2
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--workers', type=int,
                    default=int(os.environ.get('VERIF_WORKERS', '8')))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    check_id = a.check.upper()
    if a.replay:
        return replay(check_id, a.replay)

    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    vseed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + check_id.lower())
    facets = [f for f in mod.FACETS if a.facet in (None, f.name)]
    budget = 420. if tier == 'quick' else 780.
    deadline = t0 + budget

    known = [k for k in load_known() if k.get('property') == check_id and
             k.get('kind') == 'known']
    for k in known:
        print('KNOWN-FINDING: property={} {}'.format(check_id, k['what']))

    tasks = []
    for f in facets:
        total = int(a.scale * (f.quick * getattr(mod, 'SCALE', 2.5)
                               if tier == 'quick' else f.thorough))
        total = max(total, 1)
        n_sh = max(1, min(a.workers * (1 if tier == 'quick' else 3),
                          total // 8 or 1))
        for i in range(n_sh):
            n = total // n_sh + (1 if i < total % n_sh else 0)
            s = zlib.crc32('{}/{}/{}/{}'.format(
                vseed, check_id, f.name, i).encode())
            tasks.append((i, (check_id, f.name, s, n, deadline)))
    tasks.sort(key=lambda t: t[0])  # every facet gets going early
    tasks = [t[1] for t in tasks]

    results = []
    violation = None
    error = None
    if a.workers <= 1 or len(tasks) == 1:
        it = map(run_shard, tasks)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(
            min(a.workers, len(tasks)))
        it = pool.imap_unordered(run_shard, tasks)
    for r in it:
        results.append(r)
        if r['error'] and error is None:
            error = r
        if r['best'] is not None:
            violation = r
            break
    if pool is not None:
        pool.terminate()
        pool.join()

    per = {}
    nontriv, labels, samples = set(), {}, []
    for r in results:
        p = per.setdefault(r['facet'], dict(
            evaluations=0, distinct_nontrivial=0, skipped=0, timeouts=0,
            budget_exhausted=False, labels={}))
        p['evaluations'] += r['evaluations']
        p['skipped'] += r['skipped']
        p['timeouts'] += r['timeouts']
        p['budget_exhausted'] |= r['exhausted']
        new = {r['facet'] + h for h in r['nontrivial']} - nontriv
        p['distinct_nontrivial'] += len(new)
        nontriv |= new
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        if sum(s['facet'] == r['facet'] for s in samples) < 2:
            samples += [dict(facet=r['facet'], case=c)
                        for c in r['samples'][:1]]
    evaluations = sum(p['evaluations'] for p in per.values())
    wall = time.time() - t0

    replay_path = None
    if violation is not None:
        d = os.path.join(HERE, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        cj, msg = violation['best']
        replay_path = os.path.join(d, '{}-{}-{}.json'.format(
            check_id, violation['facet'],
            hashlib.md5(cj.encode()).hexdigest()[:10]))
        with open(replay_path, 'w') as f:
            json.dump(dict(property=check_id, facet=violation['facet'],
                           case=json.loads(cj), message=msg,
                           how='bash check.sh {} --replay <this file>'.format(
                               check_id)), f, indent=1)

    rule = '; '.join('[{}] {}'.format(f.name, f.rule) for f in facets)
    evidence = dict(
        property=check_id, tier=tier, seed=vseed,
        level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(nontriv),
            rule=rule,
            samples=samples,
            facets=per,
            inconclusive_timeouts=sum(
                p['timeouts'] for p in per.values()),
            excluded_known_findings=[k['what'] for k in known],
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2),
        violations=1 if violation is not None else 0,
    )
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(
                HERE, 'evidence', check_id + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=str)

    print('{} {}: {} cases, {} distinct non-trivial, {:.1f} s'.format(
        check_id, tier, evaluations, len(nontriv), wall))
    for k, p in sorted(per.items()):
        print('  {}: {} cases, {} non-trivial, {} skipped{}{} {}'.format(
            k, p['evaluations'], p['distinct_nontrivial'], p['skipped'],
            ', {} timeouts'.format(p['timeouts']) if p['timeouts'] else '',
            ', BUDGET EXHAUSTED' if p['budget_exhausted'] else '',
            json.dumps(p['labels'], sort_keys=True)))
    if violation is not None:
        print('facet {}: {}'.format(violation['facet'], violation['best'][1]))
        print('case: {}'.format(short(violation['best'][0], 1500)))
        print('VIOLATION property={} replay={}'.format(check_id, replay_path))
        return 1
    if error is not None:
        print('HARNESS ERROR in facet {}: {}'.format(
            error['facet'], error['error']))
        return 2
    return 0
