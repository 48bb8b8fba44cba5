"""C27: short, empty or degenerate series give a status, not a crash"""
from vlib.runner import facet
from vlib import cmp, gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

ASSUMPTIONS = ['values up to 1e100']
TREND = ['constant', 'linear', 'linear_nondec', 'exp', 'decay', 'step',
         'two_steps', 'ramp', 'sigmoid_step', 'sigmoid', 'quasilinear',
         ['+', 'linear', 'ramp'], ['*', 'linear', 'step'],
         ['fixed', 'decay', [None, -0.1, None]],
         ['fixed', 'decay', [None, None, None]]]
SEAS = ['wday', 'wday2', 'month', 'fourier', 'cal_uk', 'xmas',
        ['fixed', 'wday', [None, None, 1., 2., None, 3.]]]
STATUS = ['FIT', 'NO-FIT', 'TS_TOO_SHORT', 'INPUT_ERR', 'EMPTY_TS']
VALUES = dict(
    const=[5.], zero=[0.], negative=[-3.], two=[1., 2.], big=[1e100, -1e100],
    tiny=[1e-300, 2e-300], wide=[1e-8, 1e8, -1e3], small=[1e-12, 3e-12],
    spike=[0., 0., 0., 0., 1e6], huge_const=[1e100], ints=[3, 1, 4, 1, 5, 9],
    alt=[1., -1.], flat=[2., 2., 2., 2., 2., 2., 3.])


@st.composite
def tables(draw, n_max=26, kinds=None, freqs=('D', 'W', 'MS', 'num', 'QS',
                                              'YS')):
    fr = draw(st.sampled_from(list(freqs)))
    n = draw(st.one_of(st.integers(1, 6), st.integers(5, n_max)))
    c = dict(freq=fr, n=n, kind=draw(st.sampled_from(
        kinds or list(VALUES) + ['noise', 'noise', 'noise'])),
        nseed=draw(st.integers(0, 99)),
        start=draw(gen.dates), x0=draw(st.integers(0, 5)))
    def some(k):
        if k == 6:
            return list(range(n))
        if k in (4, 5):
            return sorted(draw(st.sets(st.integers(0, n - 1),
                                       max_size=n if k == 4 else 2)))
        return []
    c['null'] = some(draw(st.integers(0, 10)))
    if draw(st.integers(0, 2)) == 0:
        c['zero'] = some(draw(st.integers(0, 6)))
    if fr == 'num':
        c['layout'] = draw(st.sampled_from(['plain', 'same']))
    else:
        c['layout'] = draw(st.sampled_from(['plain', 'plain', 'same',
                                            'double']))
    return c


def build(c):
    n = c['n']
    if c['kind'] == 'noise':
        y = 10. + gen.noise(c['nseed'], n)
    else:
        y = np.resize(np.array(VALUES[c['kind']], dtype=float), n)
    d = pd.DataFrame(dict(y=y))
    i = np.arange(n)
    if c['layout'] == 'same':
        i = i * 0
    elif c['layout'] == 'double':
        i = i // 2
    if c['freq'] == 'num':
        d['x'] = i + c['x0']
    else:
        d['date'] = gen.date_index(c['freq'], c['start'], n)[i]
    d.loc[c['null'], 'y'] = np.nan
    if 'zero' in c:
        d['weight'] = 1.
        d.loc[c['zero'], 'weight'] = 0.
    return d


def want_status(expr, d, col):
    """Statuses a model may have for the valid samples d"""
    k = models.n_params(expr) if expr not in ('naive', 'snaive') else 0
    n = len(d)
    if n == 0:
        return ['EMPTY_TS']
    if n < k + 2:
        return ['TS_TOO_SHORT']
    if expr == 'naive':
        return ['FIT']
    if expr == 'snaive':
        days = {}
        for v in d.date:
            days.setdefault(v.weekday(), set()).add(v)
        return ['FIT' if any(len(v) > 1 for v in days.values())
                else 'TS_TOO_SHORT']
    le = models.leaves(expr)
    if 'decay' in le and not (d.y > 0).all():
        return ['INPUT_ERR']
    if 'wday' in le and (col == 'x' or
                         d.date.dt.weekday.nunique() < 7):
        return ['INPUT_ERR']
    if k == 0:
        return ['FIT']
    product = not isinstance(expr, str) and expr[0] == '*'
    if not product and all(v in ('constant', 'linear', 'wday', 'wday2',
                                 'linear_nondec') for v in le):
        return ['FIT']
    return ['FIT', 'NO-FIT']


def judge_meta(ctx, meta, exprs, d, col):
    by = {r['model']: r for r in meta.to_dict('records')}
    seen = set()
    for e in exprs:
        nm = models.build(e).name
        hit = [nm] if nm in by else [
            k for k in by if k.startswith(nm + '_fixed')]
        ctx.eq(len(hit), 1, 'results of ' + nm)
        r = by[hit[0]]
        seen.add(hit[0])
        ctx.check(r['status'] in want_status(e, d, col), '{} has status {} '
                  'with {} samples', nm, r['status'], len(d))
        ctx.eq(bool(r['is_fit']), r['status'] == 'FIT', nm + ': is_fit')
        if r['is_fit']:
            ctx.check(np.isfinite(r['cost']) and r['cost'] >= 0,
                      '{}: cost {}', nm, r['cost'])
            ctx.check(not np.isnan(r['aic_c']), '{}: aic_c', nm)
        elif r['status'] != 'NO-FIT':
            ctx.check(np.isnan(r['cost']) and np.isnan(r['aic_c']),
                      '{}: cost {} without fit', nm, r['cost'])
            ctx.eq(len(r['params']), 0, nm + ': parameters without fit')
    ctx.eq(seen, set(by), 'models')
    return by


@st.composite
def fit_cases(draw):
    c = draw(tables())
    tr = draw(st.sampled_from(TREND))
    e = tr
    if c['freq'] != 'num':
        k = draw(st.integers(0, 3))
        s = draw(st.sampled_from(SEAS))
        e = [tr, s, ['+', tr, s], ['*', tr, s]][k]
    elif draw(st.booleans()):
        e = draw(st.sampled_from([tr, tr, 'wday', ['+', tr, 'wday']]))
    return dict(t=c, e=e)


def used(df):
    return gen.valid(df)


@facet('status', fit_cases(), 2500,
       rule='series of 0 to 26 valid samples (nulls, zero weights, one date, '
            'two samples per date, constant, tiny, up to 1e100) fitted by any '
            'model: the status is the documented one at every sample count; '
            'non-trivial: no fit for a reason, or one or two samples more '
            'than needed')
def f_status(case, ctx):
    df = build(case['t'])
    col = 'x' if case['t']['freq'] == 'num' else 'date'
    m = models.build(case['e'])
    t = forecast.normalize_df(df)
    before = t.copy()
    r = ctx.got(forecast.fit_model(m, t, 'D', 'src'))
    cmp.untouched(ctx, t, before, 'series')
    d = used(df)
    by = judge_meta(ctx, r['metadata'], [case['e']], d, col)
    row = list(by.values())[0]
    ctx.eq(len(r['optimize_info']), 1, 'rows of optimize_info')
    ctx.eq(bool(r['optimize_info'].success.iloc[0]), bool(row['is_fit']),
           'success')
    if row['is_fit']:
        ctx.check(np.all(np.isfinite(row['params'])), 'params {}',
                  row['params'])
    need = m.n_params + 2
    ctx.label(row['status'])
    ctx.nontrivial(row['status'] != 'FIT' or len(d) <= need + 1)


@st.composite
def forecast_cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2]))
    freqs = [draw(st.sampled_from(['D', 'W', 'MS', 'num', 'QS', 'YS']))]
    ts = [draw(tables(freqs=freqs)) for _ in range(n)]
    for t in ts:
        if t['layout'] == 'double' and t['n'] % 2:
            t['n'] += 1
    dated = freqs[0] != 'num'
    o = dict(extrapolate_years=draw(st.sampled_from([0, 0.1, 0.5])),
             season_add_mult=draw(st.sampled_from(
                 ['add', 'mult', 'auto', 'both'])),
             find_outliers=draw(st.integers(0, 3)) == 0)
    mode = draw(st.sampled_from(['default', 'list', 'list']))
    if mode == 'list':
        o['trend'] = draw(st.lists(st.sampled_from(TREND), min_size=1,
                                   max_size=3, unique_by=str))
        o['season'] = draw(st.sampled_from(
            [[], ['null'], ['null', 'wday'], ['wday2'], ['month'],
             ['fourier']] if dated else [[], ['null']]))
        o['naive'] = draw(st.sampled_from(
            [None, [], ['naive'], ['snaive'], ['naive', 'snaive']] if dated
            else [None, [], ['naive']]))
    if dated and draw(st.integers(0, 3)) == 0:
        o['calendar'] = ['cal_uk']
    return dict(ts=ts, o=o, all=draw(st.booleans()),
                seed=draw(st.integers(0, 99)))


def judge_single(ctx, df, r, col, o, include_all):
    """Tables of one source with samples df"""
    data, meta, fc = r['data'], r['metadata'], r['forecast']
    a = oracle.actual_rows(data)
    ctx.eq(list(a.date), list(df[col]), 'dates of actuals')
    ctx.close(a.y.astype(float), df.y, 'actuals')
    fa = oracle.actual_rows(fc)
    ok = df.loc[df.y.notnull()]
    ctx.eq(list(fa.date), list(ok[col]), 'dates of actuals in forecast')
    ctx.close(fa.y.astype(float), ok.y, 'actuals in forecast')
    ctx.check(set(meta.status) <= set(STATUS), 'status {}', list(meta.status))
    ctx.check((meta.is_fit.astype(bool) == (meta.status == 'FIT')).all(),
              'is_fit')
    fit = meta.loc[meta.is_fit.astype(bool)]
    best = meta.loc[meta.is_best_fit.astype(bool)]
    ctx.check(best.is_fit.astype(bool).all(), 'selected without fit')
    info = r['optimize_info']
    any_fit = bool(info.success.astype(bool).any())
    ctx.eq(len(best), int(any_fit), 'selected models')
    g, h = oracle.fcast_rows(data), oracle.fcast_rows(fc)
    # the naive model is not made for several samples of one date
    lone = {'naive'} if used(df)[col].nunique() <= 1 else set()
    ctx.eq(set(g.model) - lone, set(fit.model) - lone,
           'models with a forecast')
    ctx.eq(set(h.model) - lone, set(best.model) - lone, 'selected models')
    ctx.check(not g.y.isnull().any(), 'null forecasts')
    if not any_fit:
        ctx.eq(len(h), 0, 'forecasts without fit')
    elif len(h):
        q = ['q5', 'q20', 'q80', 'q95']
        v = h[q].astype(float).values
        ctx.check(not np.isnan(v).any(), 'null intervals')
        # exponential trends may grow beyond any number
        v = v[np.isfinite(v).all(axis=1)]
        eps = 1e-12 * np.abs(v).max() if len(v) else 0.
        ctx.check((np.diff(v, axis=1) >= -eps).all(), 'order of intervals')
    return any_fit


@facet('forecast', forecast_cases(), 700,
       rule='forecasts of one or two such series with any candidates and '
            'options: tables are well-formed, actuals returned, nothing '
            'selected without fit; non-trivial: some candidate, but not '
            'each, was fitted, or none')
def f_forecast(case, ctx):
    o = dict(case['o'])
    dfs = [build(t) for t in case['ts']]
    col = 'x' if case['ts'][0]['freq'] == 'num' else 'date'
    if any(d[col].duplicated().any() for d in dfs):
        o['find_outliers'] = False
    if len(dfs) > 1:
        names = ['b', 'a']
        src = pd.concat([d.assign(source=s) for d, s in zip(dfs, names)],
                        ignore_index=True)
        if 'weight' in src:
            src['weight'] = src.weight.fillna(1.)
    else:
        names, src = [None], dfs[0]
    before = src.copy()
    r = ctx.got(run.seeded_run(case['seed'], src,
                               include_all_fits=case['all'], **o))
    cmp.untouched(ctx, src, before, 'series')
    fits, stat = [], []
    for d, nm in zip(dfs, names):
        one = r if nm is None else {
            k: v.loc[v.source == nm] for k, v in r.items()}
        fits.append(judge_single(ctx, d, one, col, o, case['all']))
        stat.append(list(one['metadata'].status))
        if case['all'] and 'trend' in o and nm is None and \
                o['season'] in ([], ['null']) and \
                'calendar' not in o and not o['find_outliers']:
            naive = o['naive']
            if naive is None:
                q = forecast.detect_freq(d) if col == 'date' else None
                naive = ['snaive' if q == 'D' else 'naive']
            judge_meta(ctx, one['metadata'], o['trend'] + naive, used(d),
                       col)
    ctx.label('fitted' if all(fits) else 'not fitted')
    ctx.nontrivial(not all(fits) or any(
        len(set(s)) > 1 for s in stat))


@st.composite
def empties(draw):
    return dict(kind=draw(st.sampled_from(
        ['frame', 'frame', 'columns', 'filtered', 'series', 'null series',
         'no y', 'none', 'list'])),
        simplify=draw(st.booleans()),
        n=draw(st.integers(0, 5)), t=draw(tables(n_max=8)),
        cols=draw(st.sets(st.sampled_from(['date', 'x', 'source', 'weight'])
                          ).map(sorted)))


@facet('empty', empties(), 150,
       rule='tables and series without rows or columns (no forecast), and '
            'input that is no table (an error); all are non-trivial')
def f_empty(case, ctx):
    k = case['kind']
    df = build(case['t'])
    kw = dict(simplify_output=case['simplify'])
    ctx.nontrivial()
    ctx.label(k)
    if k in ('no y', 'none', 'list'):
        bad = {'no y': df.drop(columns='y').assign(z=1.), 'none': None,
               'list': [1., 2.]}[k]
        try:
            forecast.run_forecast(bad, **kw)
        except Exception:
            return
        ctx.fail('{} was accepted', k)
    src = {'frame': pd.DataFrame(), 'filtered': df.iloc[:0],
           'columns': pd.DataFrame(columns=['y'] + case['cols']),
           'series': pd.Series([], dtype=float),
           'null series': pd.Series([np.nan] * case['n'], dtype=float)}[k]
    r = ctx.got(forecast.run_forecast(src, **kw))
    if k == 'null series' and case['n']:
        f = r if case['simplify'] else r['forecast']
        ctx.eq(len(f), 0, 'forecast of a null series')
    else:
        ctx.check(r is None, 'forecast of nothing: {}', r)


@st.composite
def growing(draw):
    c = draw(tables(n_max=14, freqs=['D', 'W', 'num', 'MS'],
                    kinds=['noise', 'const', 'two', 'zero']))
    c['null'] = []
    c.pop('zero', None)
    c['layout'] = 'plain'
    c['n'] = draw(st.integers(4, 14))
    return dict(t=c, e=draw(st.sampled_from(
        ['constant', 'linear', 'exp', 'step', 'two_steps', 'ramp',
         'sigmoid_step', 'quasilinear', ['+', 'linear', 'ramp'],
         ['+', 'linear', 'step'], ['*', 'linear', 'step']])),
        pad=draw(st.sampled_from(['null', 'zero', 'none'])),
        seed=draw(st.integers(0, 99)))


@facet('need', growing(), 150,
       rule='one series with 0, 1, 2, ... valid samples (the others null, '
            'ignored or cut): too short for each count below the number of '
            'parameters plus two, and for none above; all are non-trivial')
def f_need(case, ctx):
    full = build(case['t'])
    col = 'x' if case['t']['freq'] == 'num' else 'date'
    e = case['e']
    need = models.n_params(e) + 2
    for n in range(1 if case['pad'] == 'none' else 0, len(full) + 1):
        d = full.copy()
        if case['pad'] == 'null':
            d.loc[n:, 'y'] = np.nan
        elif case['pad'] == 'zero':
            d['weight'] = (np.arange(len(d)) < n).astype(float)
        else:
            d = d.iloc[:n]
        r = ctx.got(run.seeded_run(case['seed'], d, trend=[e], season=[],
                                   naive=[], include_all_fits=True))
        s = r['metadata'].status.iloc[0]
        if n == 0:
            ctx.eq(s, 'EMPTY_TS', 'status without samples')
        elif n < need:
            ctx.eq(s, 'TS_TOO_SHORT', 'status of {} samples'.format(n))
        else:
            ctx.check(s in ('FIT', 'NO-FIT'), 'status {} of {} samples', s,
                      n)
        g = oracle.fcast_rows(r['data'])
        ctx.eq(len(g) > 0, s == 'FIT', 'forecast')
        ctx.eq(len(oracle.actual_rows(r['data'])), len(d), 'actuals')
    ctx.nontrivial()


class Slow:
    """Follows the values of a table, plus S * p ** k: each step of the
    optimizer only shrinks p by 1/k, so that it gives up early, but close"""

    def __init__(self, x, y, scale, k):
        self.x, self.y, self.scale, self.k = x, y, scale, k

    def model(self):
        def f(a_x, a_date, params, is_mult=False, **kwargs):
            g = np.interp(a_x, self.x, self.y)
            return g + self.scale * np.abs(params[0]) ** self.k

        def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
            return np.array([1.])
        return fm.ForecastModel('slow', 1, f, f_init)


@facet('no convergence', st.fixed_dictionaries(dict(
    n=st.integers(8, 40), freq=st.sampled_from(['D', 'MS', 'num']),
    start=gen.dates, nseed=st.integers(0, 99),
    scale=st.sampled_from([1e38, 1e40, 1e41]),
    k=st.integers(60, 100), all=st.booleans(), both=st.booleans(),
    n_src=st.sampled_from([1, 1, 2]), q=st.integers(0, 99),
    others=st.sampled_from([['linear'], ['constant', 'linear'], [],
                            ['ramp']]),
    naive=st.sampled_from([[], ['naive']]))), 40,
    rule='a candidate which the optimizer gives up on, close to a perfect '
         'fit, is not fitted, and another one is selected; non-trivial: it '
         'did not converge and some other was fitted')
def f_slow(case, ctx):
    n = case['n']
    y = 10. + 3. * gen.noise(case['nseed'], n)
    if case['freq'] == 'num':
        df = pd.DataFrame(dict(x=np.arange(n), y=y))
        x, col = np.arange(n), 'x'
    else:
        df = pd.DataFrame(dict(date=gen.date_index(
            case['freq'], case['start'], n), y=y))
        x, col = (df.date - df.date.min()).dt.days.values, 'date'
    slow = Slow(x, y, case['scale'], case['k']).model()
    trend = [models.build(e) for e in case['others']]
    trend.insert(case['q'] % (len(trend) + 1), slow)
    names = ['s{}'.format(i) for i in range(case['n_src'])]
    src = df if len(names) == 1 else pd.concat(
        [df.assign(source=s) for s in names], ignore_index=True)
    def go(all_fits):
        np.random.seed(case['q'])
        return forecast.run_forecast(
            src, l_model_trend=trend, l_model_season=[fm.model_null],
            l_model_naive=[models.build(e) for e in case['naive']],
            season_add_mult='both' if case['both'] else 'add',
            extrapolate_years=0.1, simplify_output=False,
            include_all_fits=all_fits)
    full = ctx.got(go(True))
    r = full if case['all'] else go(False)
    info = full['optimize_info']
    given_up = ~info.loc[info.model.astype(str) == 'slow'
                         ].success.astype(bool)
    if not given_up.all() or not len(given_up):
        ctx.label('converged')
        return
    for s in names:
        one = r if len(names) == 1 else {
            k: v.loc[v.source == s] for k, v in r.items()}
        judge_single(ctx, df, one, col, {}, case['all'])
        m = one['metadata']
        m = m.loc[m.model == 'slow']
        if case['all']:
            ctx.eq(list(m.status), ['NO-FIT'], 'status')
            ctx.eq(list(m.is_best_fit.astype(bool)), [False], 'selected')
        else:
            ctx.eq(len(m), 0, 'models without fit in metadata')
    ctx.nontrivial(bool(case['others'] or case['naive']))


FACETS = [f_status, f_forecast, f_empty, f_need, f_slow]
