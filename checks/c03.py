"""C03: fit metadata describe the fitted model"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

TRENDS = ['linear', 'constant', 'linear_nondec', ['+', 'linear', 'constant'],
          'step', ['*', 'linear', 'constant'], ['step_date', '2018-06-01'],
          ['dates', 'd2', ['2018-01-05', '2019-03-01'], ['2018-02-01']],
          ['+', 'linear', 'ramp'], ['+', 'linear', 'wday2'],
          ['*', 'linear', 'wday'], ['+', 'constant', 'wday'], 'fourier']
NUM = ['linear', 'constant', 'linear_nondec', ['+', 'linear', 'constant'],
       'step', ['*', 'linear', 'constant'], ['+', 'linear', 'ramp'],
       ['nums', 'n1', [2, 5, 9]]]


def cases(freqs, trends):
    return st.fixed_dictionaries(dict(
        s=gen.series(freqs, n_min=5, n_max=45, dups=True),
        trend=st.lists(st.sampled_from(trends), min_size=1, max_size=3,
                       unique_by=str),
        naive=st.sampled_from([[], [], ['naive']]),
        years=st.sampled_from([0, 0.1]),
        comp=st.sampled_from(['add', 'add', 'mult', 'both']),
        src=st.sampled_from(['src', 'A:b'])))


def fit_freq(spec):
    return None if spec['freq'] == 'num' else \
        oracle.freq_name(spec['freq'], spec['start'])


def num_str(v):
    return '{}'.format(v)


@facet('forecasts', st.one_of(
    cases(['D', 'W', 'MS', 'M', 'QS', 'Q'], TRENDS),
    cases(['num'], NUM)), 420,
    rule='random series (weights, nulls, gaps, several samples per date) and '
         'candidates; cost, AICc and forecasts recomputed from the output '
         'rows; non-trivial: a fitted model with non-zero cost on weighted '
         'or repeated samples')
def f_forecasts(case, ctx):
    spec = case['s']
    df = gen.build(spec)
    if not oracle.usable(spec, df) or gen.n_valid(df) < 4:
        ctx.skip()
    col = 'x' if spec['freq'] == 'num' else 'date'
    dup = df[col].duplicated().any()
    naive = [] if dup else case['naive']
    d = ctx.got(run.run(df, trend=case['trend'], season=[], naive=naive,
                        extrapolate_years=case['years'], source_id=case['src'],
                        include_all_fits=True, season_add_mult=case['comp']))
    meta, data, opt = d['metadata'], d['data'], d['optimize_info']
    v, w = oracle.effective_weights(df, col)
    fr = fit_freq(spec)
    if 'weight' in df:
        weights = '{}-{}'.format(df.weight.min(), df.weight.max())
    else:
        weights = '1'
    if col == 'date':
        x_range = '{}::{}'.format(v.date.min().date(), v.date.max().date())
        x0 = df.date.min() - pd.Timedelta(days=df.date.min().weekday())
    else:
        x_range = '{}::{}'.format(v.x.min(), v.x.max())
    ctx.eq(len(opt), len(meta), 'rows in optimize_info')
    exprs = {models.build(e).name: e for e in case['trend']}
    g = oracle.fcast_rows(data)
    ends = df[col].min(), df[col].max()
    if col == 'date':
        ends = [e.date() for e in ends]
    for t in oracle.actual_rows(data).source_long.unique():
        ctx.eq(t, '{}:{}:{}:{}::{}'.format(case['src'], weights, fr, *ends),
               'source_long of actuals')
    nontriv = False
    for i, r in enumerate(meta.to_dict('records')):
        m = r['model']
        o = opt.iloc[i]
        ctx.eq(getattr(o.model, 'name', o.model).split('_fixed')[0],
               m.split('_fixed')[0], 'model in optimize_info')
        ctx.eq(r['source'], case['src'], 'source')
        ctx.eq(o.source, case['src'], 'source in optimize_info')
        ctx.eq(r['freq'], fr, 'freq')
        if case['comp'] != 'both' or m != 'naive':
            # Trends without seasonality count as additive
            ctx.eq(r['add_mult'], 'mult' if case['comp'] == 'mult' else 'add',
                   'add_mult of ' + m)
        ctx.eq(r['weights'], weights, 'weights')
        ctx.eq(r['actuals_x_range'], x_range, 'actuals_x_range')
        ctx.check(r['source_long'].startswith(case['src'] + ':') and
                  r['source_long'].endswith(':{}:{}'.format(fr, x_range)),
                  'source_long {}', r['source_long'])
        ctx.eq(bool(o.success), bool(r['is_fit']), 'success')
        ctx.eq(r['status'] == 'FIT', bool(r['is_fit']), 'status ' + m)
        ctx.eq(o.params_str, r['params_str'], 'params_str')
        ctx.eq(r['model_obj'].name, m, 'name of model_obj')
        if m in exprs and len(v) < models.n_params(exprs[m]) + 2:
            ctx.eq(r['status'], 'TS_TOO_SHORT', 'status of short series')
        t = g.loc[g.model == m]
        if not r['is_fit']:
            ctx.check(t.empty, 'forecast without a fit')
            ctx.check(r['status'] in ('TS_TOO_SHORT', 'INPUT_ERR', 'NO-FIT'),
                      'status without fit {}', r['status'])
            continue
        ctx.close(o.cost, r['cost'], 'cost in optimize_info')
        ctx.check((t.weight == 1).all(), 'weight of forecast rows')
        ctx.eq(set(t.source), {case['src']}, 'source of rows')
        ctx.eq(set(t.source_long), {r['source_long']}, 'source_long of rows')
        y_at = dict(zip(t.date, t.y))
        scale = 1 + float(np.nanmax(np.abs(df.y)))
        if m != 'naive':
            ctx.check(all(k in y_at for k in v[col]),
                      'no forecast at a fitted sample')
            p = np.asarray(r['params'], dtype=float)
            ctx.eq(len(p), models.n_params(exprs[m]), 'params of ' + m)
            if col == 'date':
                tx = np.floor((t.date - x0) / pd.Timedelta(days=1)).values
                dates = pd.DatetimeIndex(t.date)
            else:
                tx, dates = t.date.values.astype(float), None
            y = r['model_obj'](tx, dates, p)
            ctx.close(t.y.values, y, 'rows of ' + m, 1e-9, 1e-9 * scale)
            # against the independent formula too
            y = models.ref(exprs[m], tx, dates, p)
            ctx.close(t.y.values, y, 'rows of ' + m + ' by formula', 1e-7,
                      1e-7 * scale)
        res = [(a - y_at[k]) * b for k, a, b in zip(v[col], v.y, w)
               if k in y_at]
        cost = 0.5 * float(np.sum(np.square(res)))
        ctx.close(r['cost'], cost, 'cost of ' + m, 1e-6, 1e-9 * scale ** 2)
        k = 0 if m == 'naive' else models.n_params(exprs[m])
        n = len(v)
        c = float(r['cost'])
        if c == 0:
            ctx.check(r['aic_c'] < -1e3 or r['aic_c'] == -np.inf,
                      'aic_c of a perfect fit: {}', r['aic_c'])
        else:
            ctx.close(r['aic_c'], oracle.aic_c(c, n, k), 'aic_c of ' + m,
                      1e-9, 1e-9)
        if c > 1e-6 and (dup or 'weight' in df):
            nontriv = True
    ctx.label(spec['freq'], 'dup' if dup else 'unique', *sorted(
        set(meta.status)))
    ctx.nontrivial(nontriv)


@facet('single fits', st.fixed_dictionaries(dict(
    s=gen.series(['D', 'num', 'MS'], n_min=3, n_max=30, dups=True),
    model=st.sampled_from(['linear', 'constant', ['+', 'linear', 'constant'],
                           'step', 'linear_nondec']),
    freq=st.sampled_from(['D', 'W', 'MS', None]))), 400,
    rule='one fit of a normalized series, metadata recomputed; non-trivial: '
         'fitted with null or zero-weight samples')
def f_fit(case, ctx):
    df = gen.build(case['s'])
    norm = forecast.normalize_df(df)
    d = ctx.got(forecast.fit_model(models.build(case['model']), norm,
                                   freq=case['freq'], source='s1'))
    m, o = d['metadata'].iloc[0], d['optimize_info'].iloc[0]
    ctx.eq((len(d['metadata']), len(d['optimize_info'])), (1, 1), 'rows')
    ctx.eq(m.freq, case['freq'], 'freq')
    ctx.eq((m.source, o.source), ('s1', 's1'), 'source')
    v, w = oracle.effective_weights(norm, 'x')
    n, k = len(v), models.n_params(case['model'])
    name = models.build(case['model']).name
    ctx.eq(m.model, name, 'model')
    if n == 0:
        ctx.eq(m.status, 'EMPTY_TS', 'status')
    elif n < k + 2:
        ctx.eq(m.status, 'TS_TOO_SHORT', 'status')
    else:
        ctx.check(m.status in ('FIT', 'NO-FIT'), 'status {}', m.status)
    ctx.eq(bool(m.is_fit), m.status == 'FIT', 'is_fit')
    ctx.eq(bool(o.success), bool(m.is_fit), 'success')
    nn = norm.loc[~norm.y.isnull()]
    if n:
        ctx.eq(m.weights, '1' if 'weight' not in norm else '{}-{}'.format(
            nn.weight.min(), nn.weight.max()), 'weights')
        a, b = (v.date.min().date(), v.date.max().date()) \
            if 'date' in v else (v.x.min(), v.x.max())
        ctx.eq(m.actuals_x_range, '{}::{}'.format(a, b), 'range')
    ctx.eq(m.source_long, 's1:{}:{}:{}'.format(
        m.weights, m.freq, m.actuals_x_range), 'source_long')
    if m.is_fit:
        dates = pd.DatetimeIndex(v.date) if 'date' in v else None
        y = models.ref(case['model'], v.x.values, dates, m.params)
        scale = 1 + float(np.abs(v.y).max())
        cost = 0.5 * float((((v.y.values - y) * w) ** 2).sum())
        ctx.close(m.cost, cost, 'cost', 1e-6, 1e-9 * scale ** 2)
        ctx.close(o.cost, m.cost, 'cost in optimize_info')
        if m.cost > 0:
            ctx.close(m.aic_c, oracle.aic_c(m.cost, n, k), 'aic_c')
        ctx.eq(list(o.params), list(m.params), 'params in optimize_info')
    else:
        ctx.check(math.isnan(m.cost) or m.status == 'NO-FIT', 'cost')
        ctx.check(math.isnan(m.aic_c) or m.status == 'NO-FIT', 'aic_c')
        ctx.eq(len(m.params) if m.status != 'NO-FIT' else 0, 0, 'params')
    ctx.label(m.status)
    ctx.nontrivial(bool(m.is_fit) and n < len(norm))


@st.composite
def pinned_cases(draw):
    return dict(
        s=draw(gen.series(['D', 'num', 'MS'], n_min=4, n_max=30, dups=True)),
        a=draw(st.sampled_from([None, 0., 0.5, -2.])),
        b=draw(st.sampled_from([None, 0., 10., -1.5])),
        extra=draw(st.sampled_from([None, None, 'step', 'constant'])))


@facet('single values', pinned_cases(), 200,
       rule='candidates whose bounds leave a parameter a single value; the '
            'parameters reported are the free ones, cost and AICc those of '
            'the candidate; non-trivial: fitted with one such parameter')
def f_pinned(case, ctx):
    spec = case['s']
    df = gen.build(spec)
    if not oracle.usable(spec, df) or gen.n_valid(df) < 4:
        ctx.skip()
    col = 'x' if spec['freq'] == 'num' else 'date'
    pin = [case['a'], case['b']]
    lo = [-np.inf if v is None else v for v in pin]
    hi = [np.inf if v is None else v for v in pin]

    def guess(a_x=None, a_y=None, a_date=None, is_mult=False):
        return np.array([0.1 if v is None else v for v in pin])

    m = fm.ForecastModel(
        'pin', 2, lambda a_x, a_date, params, is_mult=False, **kw:
        params[0] * np.asarray(a_x, dtype=float) + params[1], guess,
        lambda a_x=None, a_y=None, a_date=None: (lo, hi))
    if case['extra'] is not None:
        m = m + models.build(case['extra'])
    k = 2 if case['extra'] is None else 2 + models.n_params(case['extra'])
    d = ctx.got(forecast.run_forecast(
        df, l_model_trend=[m], l_model_season=[], l_model_naive=[],
        include_all_fits=True, simplify_output=False))
    ctx.eq(len(d['metadata']), 1, 'rows of the candidate')
    r, o = d['metadata'].iloc[0], d['optimize_info'].iloc[0]
    v, w = oracle.effective_weights(df, col)
    if len(v) < k + 2:
        ctx.eq(r.status, 'TS_TOO_SHORT', 'status')
        return
    ctx.check(r.status in ('FIT', 'NO-FIT'), 'status {}', r.status)
    if not r.is_fit:
        return
    n_pin = sum(x is not None for x in pin)
    ctx.eq(len(r.params), k - n_pin, 'number of free parameters')
    ctx.eq(r.model_obj.n_params, k - n_pin, 'parameters of model_obj')
    ctx.eq(r.model_obj.name, r.model, 'name of model_obj')
    ctx.close(o.cost, r.cost, 'cost in optimize_info')
    g = oracle.fcast_rows(d['data'])
    ctx.eq(set(g.model), {r.model}, 'model of the rows')
    y_at = dict(zip(g.date, g.y))
    cost = 0.5 * float(sum(((a - y_at[t]) * b) ** 2
                           for t, a, b in zip(v[col], v.y, w)))
    scale = 1 + float(np.nanmax(np.abs(df.y)))
    ctx.close(r.cost, cost, 'cost', 1e-6, 1e-9 * scale ** 2)
    if r.cost > 0:
        ctx.close(r.aic_c, oracle.aic_c(float(r.cost), len(v), k), 'aic_c',
                  1e-9, 1e-9)
    ctx.nontrivial(n_pin > 0 and r.cost > 0)


FACETS = [f_forecasts, f_fit, f_pinned]
