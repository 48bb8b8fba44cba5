"""C31: forecasts carry no hidden state between calls"""
import ast
import atexit
import locale
import logging
import os
import pickle
import struct
import subprocess
import sys
import zlib

from vlib import boot
from vlib.runner import Ctx, facet
from vlib import cmp, gen, mgen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm, model_utils
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCALE = 1.25
ASSUMPTIONS = ['results of another process are compared up to floating-point '
               'noise; fit times are left out']

def flat(d, name=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, name + k + '.')
        else:
            yield name + k, str(v)


def ambient():
    """Settings of the process that other code depends on"""
    with np.printoptions():
        out = dict(np_err=np.geterr(),
                   np_print=str(sorted(np.get_printoptions().items())))
    out['pandas'] = sorted(flat(pd.options.d))
    out['cwd'] = os.getcwd()
    out['environment'] = sorted(os.environ.items())
    out['locale'] = locale.setlocale(locale.LC_ALL)
    for n in ('', 'anticipy', 'anticipy.forecast'):
        log = logging.getLogger(n or None)
        out['logging ' + n] = (log.level, len(log.handlers), log.disabled,
                               log.propagate)
    out['logging'] = logging.root.manager.disable
    return out


# As they are before any call in this process; those of numpy by default
np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
AMBIENT = ambient()

# - Calls, on tables and models that may be shared with other calls


class World:
    """Objects the calls of one history share"""

    def __init__(self, specs):
        self.specs = specs
        self.tables = {}
        self.models = {}
        self.lists = {}

    def table(self, i):
        i = i % len(self.specs)
        if i not in self.tables:
            s = self.specs[i]
            if 'sources' in s:
                d = pd.concat([gen.build(t).assign(source=n) for t, n in
                               zip(s['sources'], 'ba')], ignore_index=True)
                d = d.sample(frac=1., random_state=3)
            else:
                d = gen.build(s)
            self.tables[i] = d
        return self.tables[i]

    def dated(self, i):
        s = self.specs[i % len(self.specs)]
        return s.get('freq') != 'num'

    def daily(self, i):
        s = self.specs[i % len(self.specs)]
        return all(t['freq'] == 'D' for t in s.get('sources', [s]))

    def multi(self, i):
        return 'sources' in self.specs[i % len(self.specs)]

    def model(self, expr):
        k = str(expr)
        if k not in self.models:
            self.models[k] = models.build(expr)
        return self.models[k]

    def list(self, exprs):
        if exprs is None:
            return None
        k = str(exprs)
        if k not in self.lists:
            self.lists[k] = [self.model(e) for e in exprs]
        return self.lists[k]

    def contents(self):
        """Names of the models in the lists of the caller"""
        return {k: [m.name for m in v] for k, v in self.lists.items()}


def one_source(w, i):
    d = w.table(i)
    return d.loc[d.source == 'a'].drop(columns='source') if w.multi(i) else d


def op_forecast(w, o):
    kw = dict(o['o'])
    for k, n in (('trend', 'l_model_trend'), ('season', 'l_model_season'),
                 ('naive', 'l_model_naive'), ('calendar', 'l_model_calendar'),
                 ('weekly', 'l_season_weekly'), ('yearly', 'l_season_yearly')):
        if k in kw:
            kw[n] = w.list(kw.pop(k))
    if not w.daily(o['t']) and kw.get('l_model_naive'):
        kw['l_model_naive'] = w.list(['naive'])
    if not w.dated(o['t']):
        for n in ('l_model_season', 'l_model_naive', 'l_model_calendar'):
            if kw.get(n):
                kw[n] = w.list([m.name for m in kw[n] if m.name in (
                    'null', 'naive', 'constant', 'linear')])
                if n == 'l_model_season' and not kw[n]:
                    kw[n] = w.list(['null'])
    return forecast.run_forecast(w.table(o['t']), **kw)


def op_fit(w, o):
    t = forecast.normalize_df(one_source(w, o['t']))
    e = o['e'] if w.dated(o['t']) else o['e2']
    return forecast.fit_model(w.model(e), t, source='s',
                              use_cache=o['cache'])


def op_eval(w, o):
    x, date = mgen.build_points(o['pts'])
    m = w.model(o['e'])
    p = mgen.pick_params(o['e'], o['nseed'])
    kw = m.init_cache(x, date) if o['cache'] else {}
    y = np.sin(x) + 3.
    return [m.name, m.n_params, m(x, date, p, is_mult=o['mult'], **kw),
            m.f_bounds(x, y, date), m.f_init_params(x, y, date)
            if 'month' not in str(o['e']) else None,
            m.validate_input(x, y, date)]


def op_fix(w, o):
    m = w.model(o['e'])
    x, date = mgen.build_points(o['pts'])
    p = mgen.pick_params(o['e'], o['nseed'])
    keep = np.arange(len(p)) % 2 == o['nseed'] % 2
    f = fm.fix_params_fmodel(m, [np.nan if k else v
                                 for k, v in zip(keep, p)])
    return [f.name, f.n_params, f(x, date, p[keep])]


def op_compose(w, o):
    a, b = w.model(o['e']), w.model(o['e2'])
    x, date = mgen.build_points(o['pts'])
    p = mgen.pick_params(['+', o['e'], o['e2']], o['nseed'])
    c = [a + b, a * b, b + a]
    return [[m.name, m.n_params] for m in c] + [
        m(x, date, p) for m in c[:2]] + [
        sorted(v.name for v in {a, b, *c}), [v.name for v in sorted(c)],
        [v.name for v in forecast.get_list_model([a, b], [b, a], 'both')]]


def op_pi(w, o):
    d = forecast.run_forecast(
        one_source(w, o['t']), l_model_trend=[w.model('linear')],
        l_model_season=[w.model('null')], l_model_naive=[],
        extrapolate_years=0.1, simplify_output=False)['data']
    np.random.seed(o['nseed'])
    before = d.copy()
    r = forecast.get_pi(d, n_sims=20, n_cum=o['cum'], pi_q1=o['q'])
    cmp.untouched(Ctx(), d, before, 'table for intervals')
    return r


def op_utils(w, o):
    t = forecast.normalize_df(one_source(w, o['t']))
    out = [t, model_utils.interpolate_df(t, include_mask=o['cache'])]
    if w.dated(o['t']):
        out += [model_utils.detect_freq(t.date),
                fm.get_l_model_auto_season(t.date),
                model_utils.get_normalized_x_from_date(t.date)]
    if not t.x.duplicated().any():
        out += [list(fm.get_model_outliers(t)),
                bool(model_utils.is_multiplicative(t))]
    # tables of the caller, as they are
    t = one_source(w, o['t'])
    c = t.assign(x=np.arange(len(t)) * 1.) if 'x' not in t else t.copy()
    before = c.copy()
    for f in (fm.get_model_outliers, model_utils.is_multiplicative,
              model_utils.interpolate_df, model_utils.detect_freq,
              forecast.normalize_df):
        try:
            out.append(type(f(c)).__name__)
        except Exception as e:
            out.append(type(e).__name__)
        cmp.untouched(Ctx(), c, before, 'table of the caller')
    return out


def op_dates(w, o):
    out = []
    x, date = mgen.build_points(o['pts'])
    for m in (fm.get_model_dummy('d', ['2019-01-05', '2020-02-03']),
              fm.get_model_from_datelist('d', ['2019-01-05', '2020-02-29']),
              fm.get_model_from_calendars([
                  fm.CalendarBankHolUK(), fm.CalendarChristmasUK()], 'c'),
              fm.get_model_step_date('2019-06-01')):
        out += [m.name, m.n_params, m(x, date, np.arange(m.n_params) + 1.)]
    return out


def bad_model(a_x, a_date, params, is_mult=False, **kwargs):
    raise ZeroDivisionError('bad model')


def op_fail(w, o):
    """Calls that end in an error: the kind of error"""
    t = w.table(o['t'])
    k = o['nseed'] % 9
    m = fm.ForecastModel('linear', 2, bad_model)
    f = [lambda: forecast.run_forecast(t.drop(columns='y')),
         lambda: forecast.run_forecast(t, l_model_trend=[m],
                                       l_model_season=[fm.model_null]),
         lambda: forecast.run_forecast(t, l_model_trend=[w.model('linear')],
                                       date_start_actuals=[1, 2]),
         lambda: forecast.run_forecast(t.assign(y='text')),
         lambda: w.model('linear') + 5,
         lambda: w.model('linear')(np.arange(3.), None, [1.]),
         lambda: fm.get_model_outliers(pd.concat([t, t]).assign(x=1)),
         lambda: forecast.get_pi(t),
         lambda: fm.model_naive(np.arange(3.), None, None)][k]
    try:
        f()
        return 'no error'
    except Exception as e:
        return type(e).__name__


OPS = dict(forecast=op_forecast, fit=op_fit, eval=op_eval, fix=op_fix,
           compose=op_compose, pi=op_pi, utils=op_utils, dates=op_dates,
           fail=op_fail)


def call(w, o):
    np.random.seed(zlib.crc32(str(sorted(o.items())).encode()))
    return OPS[o['op']](w, o)


# - Results as plain data

def plain(v):
    if isinstance(v, pd.DataFrame):
        return ('table', [(str(c), [plain(u) for u in v[c]])
                          for c in v.columns if c not in cmp.SKIP])
    if isinstance(v, (pd.Series, pd.Index)):
        return [plain(u) for u in v]
    if isinstance(v, dict):
        return ('dict', sorted((str(k), plain(u)) for k, u in v.items()))
    if isinstance(v, np.ndarray):
        return [plain(u) for u in v.tolist()] if v.ndim else plain(v.item())
    if isinstance(v, (list, tuple)):
        return [plain(u) for u in v]
    if isinstance(v, fm.ForecastModel):
        return ('model', v.name, v.n_params)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    return str(v)


def differ(a, b, tol, where=''):
    """First difference between two results, or None"""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= tol * max(abs(a), abs(b), 1.):
            return None
        return '{}: {} != {}'.format(where, a, b)
    if type(a) is not type(b):
        return '{}: {} != {}'.format(where, str(a)[:80], str(b)[:80])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '{}: length {} != {}'.format(where, len(a), len(b))
        if a and tol and isinstance(a, list) and all(
                isinstance(v, float) for v in a + b):
            # a column: differences next to its size
            fin = [abs(v) for v in a + b if np.isfinite(v)]
            s = max(fin) if fin else 1.
            a, b = ([v / s if s > 1. else v for v in u] for u in (a, b))
        for i, (u, v) in enumerate(zip(a, b)):
            name = a[0] if i and isinstance(a[0], str) else i
            d = differ(u, v, 10 * tol if name in (
                'cost', 'params', 'aic_c', 'optimality') else tol,
                '{}/{}'.format(where, name))
            if d and name not in ('optimality', 'iterations', 'jac_evals',
                                  'status', 'message') or d and not tol:
                return d
        return None
    return None if a == b else '{}: {} != {}'.format(
        where, str(a)[:80], str(b)[:80])


# - A process in which nothing was called yet, forked for each reference

_fresh = {}


def serve():
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = open(os.devnull, 'w')
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        specs, op = pickle.loads(inp.read(struct.unpack('>Q', h)[0]))
        r, w_ = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try:
                    res = ('ok', plain(call(World(specs), op)))
                except Exception as e:
                    res = ('error', repr(e))
                with os.fdopen(w_, 'wb') as f:
                    f.write(pickle.dumps(res))
                code = 0
            finally:
                os._exit(code)
        os.close(w_)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out.write(struct.pack('>Q', len(data)) + data)
            out.flush()
        except BrokenPipeError:
            os._exit(0)


def fresh(specs, op):
    p = _fresh.get(os.getpid())
    if p is None or p.poll() is not None:
        _fresh.clear()
        env = dict(os.environ, PYTHONHASHSEED=str(os.getpid() % 1000 + 1))
        p = _fresh[os.getpid()] = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c',
             'import checks.c31 as c; c.serve()'], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        atexit.register(p.kill)
    data = pickle.dumps((specs, op))
    p.stdin.write(struct.pack('>Q', len(data)) + data)
    p.stdin.flush()
    h = p.stdout.read(8)
    n = struct.unpack('>Q', h)[0]
    return pickle.loads(p.stdout.read(n))


# - Histories

FIT = ['linear', 'constant', ['+', 'linear', 'wday2'], 'step', 'naive',
       ['+', 'linear', 'ramp'], ['*', 'linear', 'wday2'], 'cal_uk',
       ['+', 'constant', 'xmas'], ['+', 'linear', 'wday']]
FIT_NUM = ['linear', 'constant', 'step', ['+', 'linear', 'ramp'],
           ['nums', 'd', [3, 5]]]
POOL = ['linear', 'constant', 'wday', 'wday2', 'fourier', 'cal_uk', 'cal_us',
        'xmas', 'ramp', 'step', 'exp', 'null', ['+', 'linear', 'wday'],
        ['*', 'linear', 'fourier'], ['dates', 'd', ['2019-01-05']],
        ['dates', 'd', ['2020-02-29']], ['nums', 'd', [3, 5]],
        ['nums', 'd', [7]], ['step_date', '2019-05-01'],
        ['spike_date', '2019-05-01', '2019-06-01'],
        ['+', ['dates', 'd', ['2019-01-05']], ['dates', 'd', ['2019-02-05']]]]


@st.composite
def specs(draw):
    if draw(st.integers(0, 3)) == 0:
        s = [draw(gen.series(['D', 'MS'][:1 + draw(st.integers(0, 1))],
                             n_min=12, n_max=24, noisy=True, weights=True,
                             dups=False, gaps=False)) for _ in range(2)]
        return dict(sources=s)
    return draw(gen.series(['D', 'D', 'W', 'MS', 'num'], n_min=10, n_max=36,
                           noisy=True, dups=False))


@st.composite
def an_op(draw):
    op = draw(st.sampled_from(['forecast'] * 4 + ['fit'] * 3 + [
        'eval', 'eval', 'fix', 'compose', 'pi', 'utils', 'dates', 'fail',
        'fail']))
    o = dict(op=op, t=draw(st.integers(0, 2)))
    if op == 'forecast':
        f = dict(extrapolate_years=draw(st.sampled_from([0, 0.1])),
                 simplify_output=False,
                 include_all_fits=draw(st.booleans()))
        if draw(st.integers(0, 2)):
            f['trend'] = draw(st.lists(st.sampled_from(
                ['linear', 'constant', ['+', 'linear', 'constant']]),
                min_size=1, max_size=2, unique_by=str))
            f['season'] = draw(st.sampled_from(
                [['null'], ['null', 'wday2'], ['wday2', 'null'],
                 ['wday2']]))
            f['naive'] = draw(st.sampled_from(
                [[], ['naive'], ['snaive', 'naive'], None]))
        if draw(st.integers(0, 2)) == 0:
            f.pop('season', None)
            f['weekly'] = draw(st.sampled_from(
                [[], [], ['wday2'], ['wday2', 'null'], ['null']]))
        if draw(st.integers(0, 2)) == 0:
            f.pop('season', None)
            f['yearly'] = draw(st.sampled_from([[], ['null'], ['fourier']]))
        if draw(st.integers(0, 3)) == 0:
            f['calendar'] = draw(st.sampled_from(
                [['cal_uk'], ['cal_us', 'cal_uk']]))
        if draw(st.integers(0, 3)) == 0:
            f['find_outliers'] = True
        f['season_add_mult'] = draw(st.sampled_from(
            ['add', 'mult', 'both', 'auto']))
        if draw(st.integers(0, 3)) == 0:
            f['pi_q1'] = 10
        o['o'] = f
    elif op == 'fit':
        o.update(e=draw(st.sampled_from(FIT[:4] + FIT[5:])),
                 e2=draw(st.sampled_from(FIT_NUM)),
                 cache=draw(st.booleans()))
    elif op in ('eval', 'fix', 'compose', 'dates'):
        o.update(e=draw(st.sampled_from(POOL)),
                 pts=draw(mgen.points(n_min=5, n_max=12)),
                 nseed=draw(st.integers(0, 99)), cache=draw(st.booleans()),
                 mult=draw(st.booleans()))
        if op == 'compose':
            o['e2'] = draw(st.sampled_from(POOL))
    elif op == 'pi':
        o.update(nseed=draw(st.integers(0, 99)),
                 cum=draw(st.sampled_from([1, 4, 30])),
                 q=draw(st.sampled_from([5, 10])))
    elif op == 'utils':
        o['cache'] = draw(st.booleans())
    elif op == 'fail':
        o['nseed'] = draw(st.integers(0, 8))
    return o


@st.composite
def histories(draw):
    return dict(specs=draw(st.lists(specs(), min_size=1, max_size=2)),
                ops=draw(st.lists(an_op(), min_size=2, max_size=7)),
                again=draw(st.lists(st.integers(0, 6), min_size=1,
                                    max_size=2)))


def usable(s):
    for t in s.get('sources', [s]):
        d = gen.build(t)
        if not oracle.usable(t, d) or gen.n_valid(d) < 8:
            return False
        if np.ptp(gen.valid(d).y.values) < 1e-6:
            return False
    return True


def judge(case, ctx):
    if not all(usable(s) for s in case['specs']):
        ctx.skip()
    w = World(case['specs'])
    ops = list(case['ops'])
    ops += [ops[i % len(ops)] for i in case['again']]
    tables = {i: w.table(i).copy() for i in range(len(case['specs']))}
    results = []
    for k, o in enumerate(ops):
        lists = w.contents()
        r = call(w, o)
        for n, names in w.contents().items():
            ctx.eq(names, lists.get(n, names), 'list of models after ' +
                   o['op'])
            ctx.eq(str(names), str([w.model(e).name for e in
                                    ast.literal_eval(n)]),
                   'list of models after ' + o['op'])
        results.append((r, plain(r)))
        for i, t in tables.items():
            cmp.untouched(ctx, w.tables[i], t, 'table after ' + o['op'])
    now = ambient()
    for n, v in AMBIENT.items():
        ctx.check(now[n] == v, 'settings of the process: {} was {}, is {}', n,
                  v, now[n])
    for k, (o, (r, p)) in enumerate(zip(ops, results)):
        d = differ(plain(r), p, 0.)
        ctx.check(d is None, 'result of call {} ({}) changed later: {}', k,
                  o['op'], d)
    first = {}
    for k, (o, (r, p)) in enumerate(zip(ops, results)):
        i = ops.index(o)
        if i < k:
            d = differ(results[i][1], p, 1e-6)
            ctx.check(d is None, 'repeated call {} ({}): {}', k, o['op'], d)
            continue
        st_, ref = fresh(case['specs'], o)
        ctx.eq(st_, 'ok', 'fresh process: {}'.format(str(ref)[:300]))
        d = differ(p, ref, 1e-6)
        ctx.check(d is None, 'call {} ({}), compared with a fresh process: '
                  '{}', k, o['op'], d)
    return [o['op'] for o in ops]


@facet('history', histories(), 400, 3000,
       rule='2 to 9 calls (forecasts, fits, evaluation, composition and '
            'fixing of models, intervals, tools, failing calls) on shared '
            'tables and models, some of them repeated: every result is that '
            'of a fresh process with other hash seeds; inputs and earlier '
            'results stay; non-trivial: three or more calls, one of them a '
            'fit or forecast')
def f_history(case, ctx):
    names = judge(case, ctx)
    ctx.label(*names)
    ctx.nontrivial(len(names) > 2 and ('fit' in names or 'forecast' in names))


# - Pairs of calls that have something in common

TWIN_POOL = ['wday', 'wday2', 'fourier', 'month', 'cal_uk', 'cal_us',
             'cal_ita', 'xmas', 'mstart', 'ramp', 'step', 'linear', 'exp',
             'decay', 'sigmoid',
             ['dates', 'd', ['2019-01-05']], ['dates', 'd', ['2020-02-29']],
             ['step_date', '2019-05-01'], ['*', 'linear', 'fourier'],
             ['+', 'linear', 'month']]


@st.composite
def eval_twins(draw):
    a = draw(mgen.points(n_min=5, n_max=14))
    off = sorted(set(a['off']))
    while len(off) < 5:
        off.append(off[-1] + 1)
    a['off'] = off
    k = draw(st.sampled_from(['step', 'inner', 'inner', 'end', 'year', 'x0',
                              'less', 'order', 'params']))
    b = dict(a, off=list(off))
    if k == 'step':  # same start and length
        b['off'] = [off[0] + 30 * (i - off[0]) for i in off]
    elif k == 'inner':  # same start, end and length
        b['off'][2] += 1 if off[3] > off[2] + 1 else 0
        b['off'][-1] = a['off'][-1] = off[-1] + 40
        b['off'][-2] += draw(st.integers(1, 39))
    elif k == 'end':  # same end and length
        b['off'] = [off[-1] - 7 * (off[-1] - i) for i in off]
    elif k == 'year':
        b['start'] = str((pd.Timestamp(a['start']) + pd.Timedelta(
            days=draw(st.sampled_from([1, 7, 364, 365, 366])))).date())
    elif k == 'x0':
        b['x0'] = a['x0'] + 2
    elif k == 'less':
        b['off'] = off[:-1]
    elif k == 'order':
        b['off'] = off[:1] + off[1:-1][::-1] + off[-1:]
    op = draw(st.sampled_from(['eval', 'eval', 'eval', 'dates', 'fix',
                               'compose']))
    o = dict(op=op, t=0, nseed=draw(st.integers(0, 99)),
             cache=draw(st.booleans()), mult=draw(st.booleans()))
    ops = []
    for e in draw(st.lists(st.sampled_from(TWIN_POOL), min_size=1,
                           max_size=3, unique_by=str)):
        c = dict(o, e=e, **(dict(e2='linear') if op == 'compose' else {}))
        ops += [dict(c, pts=a), dict(c, pts=b, nseed=o['nseed'] + (
            k == 'params'))]
    return k, [dict(freq='D', n=20, start='2019-01-01', base=10., slope=1.,
                    amp=1., nseed=1)], ops


@st.composite
def series_twins(draw):
    a = draw(gen.series(['D', 'W', 'MS', 'num'], n_min=12, n_max=30,
                        noisy=True, dups=False, gaps=False))
    num = a['freq'] == 'num'
    b = dict(a)
    k = draw(st.sampled_from(['values', 'weights', 'null', 'more', 'gap',
                              'gap'] + ([] if num else ['freq', 'start'])))
    i = draw(st.integers(2, a['n'] - 4))
    if k == 'values':
        b.update(base=a['base'] + 5., nseed=a['nseed'] + 1)
    elif k == 'weights':
        b['w'] = [2., 1., 0.5] if a.get('w') != [2., 1., 0.5] else [1., 2.]
    elif k == 'null':
        b['null'] = [i]
    elif k == 'more':
        b['n'] = a['n'] + 1
    elif k == 'gap':  # same start, end and number of samples
        a['drop'], b['drop'] = [i], [i + 1]
    elif k == 'freq':
        b['freq'] = {'D': 'W', 'W': 'D', 'MS': 'D'}[a['freq']]
    elif k == 'start':
        b['start'] = str((pd.Timestamp(a['start']) + pd.DateOffset(
            years=1)).date())
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        o = draw(an_op().filter(lambda o: o['op'] in (
            'forecast', 'fit', 'pi', 'utils')))
        ops += [dict(o, t=0), dict(o, t=1)]
    return k, [a, b], ops


@st.composite
def twins(draw):
    k, s, ops = draw(st.one_of(eval_twins(), eval_twins(), series_twins()))
    if draw(st.booleans()):
        ops = ops[::-1]
    return dict(kind=k, specs=s, ops=ops, again=[0])


@facet('twins', twins(), 500, 3000,
       rule='the same call on two sets of dates or two series that share the '
            'start, the end, the length, the values or the dates: each '
            'result is that of a fresh process; all are non-trivial')
def f_twins(case, ctx):
    if not all(usable(s) for s in case['specs']):
        ctx.skip()
    judge(case, ctx)
    ctx.label(case['kind'])
    ctx.nontrivial()


FACETS = [f_history, f_twins]
