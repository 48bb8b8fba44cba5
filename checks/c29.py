"""C29: samples before the start date play no part in the forecast"""
from vlib.runner import facet
from vlib import cmp, gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

SCALE = 1.5
ASSUMPTIONS = ['without an x column, dated series are compared for models '
               'that do not depend on where x starts, as x counts days from '
               'the first sample of the table']

# Do not depend on the origin of x
SHIFT_D = ['linear', 'constant', ['+', 'linear', 'wday2'],
           ['+', 'constant', 'wday'], ['+', 'linear', 'wday'],
           ['step_date', '2018-01-01'], ['+', 'linear', 'xmas']]
SHIFT = ['linear', 'constant']
ANY = ['linear', 'constant', 'step', 'linear_nondec', 'exp', 'ramp',
       'quasilinear', 'sigmoid_step', ['+', 'linear', 'ramp'],
       ['*', 'linear', 'step']]


@st.composite
def early(draw, freq):
    """Samples before the start: their own sampling, values and weights"""
    return dict(freq=draw(st.sampled_from(
        ['num', 'num3'] if freq == 'num' else
        ['same', 'same', 'D', '7D', 'MS', '3D', 'YS', '2W'])),
        n=draw(st.integers(1, 14)), lag=draw(st.integers(1, 30)),
        y=draw(st.lists(st.sampled_from(
            [0., -3., 1e3, 1e6, -1e6, 'nan', 5.5, 200.]), min_size=1,
            max_size=5)),
        w=draw(st.lists(st.sampled_from([1., 0., 3., 'nan', 0.1]),
                        min_size=1, max_size=3)),
        dup=draw(st.lists(st.integers(0, 13), max_size=2)))


def vals(v, n):
    return np.array([np.nan if e == 'nan' else e for e in
                     (list(v) * n)[:n]], dtype=float)


def early_rows(e, spec, start):
    n = e['n']
    if spec['freq'] == 'num':
        step = 3 if e['freq'] == 'num3' else 1
        first = int(start) - (1 if e['lag'] < 12 else e['lag'])
        d = pd.DataFrame(dict(x=first - step * np.arange(n)[::-1]))
    else:
        f = e['freq']
        if f == 'same':
            f = {'W': '7D'}.get(spec['freq'], spec['freq'])
            end = start
        else:
            end = start - pd.Timedelta(days=e['lag'])
        dates = pd.date_range(end=end, periods=n + 1, freq=f)
        d = pd.DataFrame(dict(date=[t for t in dates if t < start][-n:]))
    n = len(d)
    d['y'] = vals(e['y'], n)
    if spec.get('w'):
        d['weight'] = vals(e['w'], n)
    dup = [i for i in e['dup'] if i < n]
    if dup:
        d = pd.concat([d, d.loc[dup].assign(y=7.)])
    return d


@st.composite
def options(draw, fr, exact):
    o = dict(extrapolate_years=draw(st.sampled_from([0, 0.1, 0.05])),
             include_all_fits=draw(st.sampled_from([True, True, False])),
             season_add_mult=draw(st.sampled_from(
                 ['add', 'mult', 'both', 'auto'] if exact else
                 ['add', 'add', 'mult'])))
    k = draw(st.integers(0, 5))
    if exact and k == 0:
        pass  # defaults
    else:
        o['season'] = draw(st.sampled_from(
            [['null'], [], ['null', 'wday']] if fr == 'D' else [['null'],
                                                               []]))
        o['trend'] = draw(st.lists(st.sampled_from(
            ANY if exact else SHIFT_D if fr == 'D' else SHIFT), min_size=1,
            max_size=2, unique_by=str))
        o['naive'] = draw(st.sampled_from(
            [None, [], ['naive'], ['snaive', 'naive']] if fr == 'D' else
            [None, [], ['naive']]))
    if exact and draw(st.integers(0, 3)) == 0:
        o['find_outliers'] = True
    if fr == 'D' and draw(st.integers(0, 4)) == 0:
        o['calendar'] = ['cal_uk']
    return o


@st.composite
def cases(draw, exact=True):
    fr = draw(st.sampled_from(['D', 'D', 'W', 'MS', 'num', 'QS', 'M']))
    k = draw(st.sampled_from([1, 1, 1, 2])) if exact else 1
    s = [draw(gen.series([fr], n_min=7, n_max=40, noisy=True,
                         dups=draw(st.integers(0, 3)) == 0,
                         weights=True if k > 1 else 'maybe'))
         for _ in range(k)]
    return dict(s=s, early=[draw(early(fr)) for _ in range(k)],
                o=draw(options(fr, exact)),
                kind=draw(st.sampled_from(['stamp', 'str', 'early'])),
                later=k > 1 and draw(st.booleans()),
                bare=draw(st.sampled_from([None, 0, 0, 1])),
                seed=draw(st.integers(0, 99)), x0=draw(st.integers(0, 9)))


def start_arg(case, spec, start, last_early):
    """The start: the first sample, as text or time, or just after the last
    sample before it"""
    if spec['freq'] == 'num':
        return float(start) if case['kind'] == 'str' else int(start)
    if case['kind'] == 'str':
        return str(start.date())
    if case['kind'] == 'early':
        return last_early + pd.Timedelta(hours=3)
    return start


def prepare(case, ctx, own_x):
    """Tables with and without the early rows, and the start"""
    spec0 = case['s'][0]
    num = spec0['freq'] == 'num'
    col = 'x' if num else 'date'
    cuts = [gen.build(s) for s in case['s']]
    if not all(oracle.usable(s, d) for s, d in zip(case['s'], cuts)):
        ctx.skip()
    # all of the sources start at the same sample, at most, or some later
    firsts = [d[col].min() for d in cuts]
    start = min(firsts) if case.get('later') else max(firsts)
    for i, d in enumerate(cuts):
        d = d.loc[d[col] >= start].reset_index(drop=True)
        if len(d) and not oracle.usable(case['s'][i], d):
            ctx.skip()
        cuts[i] = d
    fulls = []
    last = None
    for i, (s, d, e) in enumerate(zip(case['s'], cuts, case['early'])):
        r = early_rows(e, s, start)
        if len(cuts) > 1 and i == case.get('bare'):
            r = r[:0]  # a source without earlier samples
        if len(r):
            last = r[col].max() if last is None else max(last, r[col].max())
        f = pd.concat([r, d], ignore_index=True)
        f['early'] = np.arange(len(f)) < len(r)
        if own_x and not num:
            f['x'] = (f.date - start).dt.days + case['x0']
        if len(cuts) > 1:
            f['source'] = 'ab'[i]
        fulls.append(f)
    full = pd.concat(fulls, ignore_index=True)
    cut = full.loc[~full.early].drop(columns='early').reset_index(drop=True)
    if cut.empty or full.early.sum() == 0:
        ctx.skip()
    by = [c for c in ('source', col) if c in cut]
    if cut.duplicated(by).any():  # not accepted by the outlier search
        case['o'].pop('find_outliers', None)
    arg = start_arg(case, spec0, start, last)
    return full, cut, arg, start, col


def go(ctx, case, df, **kw):
    return run.seeded_run(case['seed'], df, **dict(case['o'], **kw))


def same_columns(ctx, got, want):
    # tables of several sources may order their columns in another way
    for t in cmp.TABLES:
        ctx.eq(sorted(got[t].columns), sorted(want[t].columns),
               t + ': columns')
        got[t] = got[t][list(want[t].columns)]


def judge_dates(ctx, case, r, start):
    for t in ('data', 'forecast'):
        if len(r[t]):
            ctx.check(r[t].date.min() >= start, '{} begins at {}, start is '
                      '{}', t, r[t].date.min(), start)


@facet('cut', cases(), 400,
       rule='series with an x of their own, any models and options; any '
            'earlier samples (other sampling, gaps, repeated, null, huge) are '
            'added: with a start date every table is that of the cut series; '
            'non-trivial: something was fitted')
def f_cut(case, ctx):
    full, cut, arg, start, col = prepare(case, ctx, True)
    df = full.drop(columns='early')
    before = df.copy()
    got = ctx.got(go(ctx, case, df, date_start_actuals=arg))
    cmp.untouched(ctx, df, before, 'series')
    want = go(ctx, case, cut)
    if 'source' in df and set(df.source) != set(cut.source):
        # a source with early samples only: no samples, nothing fitted
        gone = (set(df.source) - set(cut.source)).pop()
        for t in ('data', 'forecast'):
            ctx.check((got[t].source != gone).all(), 'samples of {}', gone)
        m = got['metadata']
        ctx.check(not m.loc[m.source == gone].is_fit.any(), 'fit of {}', gone)
        for t in cmp.TABLES:
            got[t] = got[t].loc[got[t].source != gone].reset_index(drop=True)
    judge_dates(ctx, case, got, start)
    same_columns(ctx, got, want)
    cmp.result(ctx, got, want, 'cut', rtol=1e-9, atol=1e-9)
    ctx.label(case['s'][0]['freq'], case['kind'])
    ctx.nontrivial(bool(got['optimize_info'].success.any()))


@facet('values', cases(), 200,
       rule='values, weights and nulls of the samples before the start are '
            'replaced: every cell of the result is the same; non-trivial: '
            'something was fitted')
def f_values(case, ctx):
    full, cut, arg, start, col = prepare(case, ctx, False)
    a = full.drop(columns='early')
    b = a.copy()
    m = full.early.values
    y = vals(case['early'][-1]['y'], m.sum())[::-1]
    b.loc[m, 'y'] = np.where(np.isnan(y), 17., y * 2. + 1.)
    if 'weight' in b:
        b.loc[m, 'weight'] = vals(case['early'][0]['w'], m.sum())[::-1]
    ra = ctx.got(go(ctx, case, a, date_start_actuals=arg))
    rb = ctx.got(go(ctx, case, b, date_start_actuals=arg))
    judge_dates(ctx, case, ra, start)
    cmp.result(ctx, ra, rb, 'values')
    ctx.nontrivial(bool(ra['optimize_info'].success.any()))


@facet('dates', cases(exact=False), 250,
       rule='series with dates only; models that do not depend on the origin '
            'of x: forecasts are those of the cut series, up to the '
            'tolerance of the optimizer; non-trivial: something was fitted')
def f_dates(case, ctx):
    case['o']['include_all_fits'] = True
    full, cut, arg, start, col = prepare(case, ctx, False)
    ok = gen.valid(cut)
    if len(ok) < 10:
        ctx.skip()
    got = ctx.got(go(ctx, case, full.drop(columns='early'),
                     date_start_actuals=arg))
    want = go(ctx, case, cut)
    judge_dates(ctx, case, got, start)
    scale = 1 + ok.y.abs().max()
    keys = ['model', 'status', 'is_fit', 'freq', 'actuals_x_range', 'weights']
    ctx.eq(got['metadata'][keys].values.tolist(),
           want['metadata'][keys].values.tolist(), 'metadata')
    ga, wa = got['data'], want['data']
    rows = ['date', 'model', 'is_actuals', 'source', 'source_long']
    ctx.eq(ga[rows].values.tolist(), wa[rows].values.tolist(), 'rows')
    aa = ga.is_actuals.astype(bool).values
    cmp.frame(ctx, oracle.actual_rows(ga), oracle.actual_rows(wa), 'actuals')
    for m in set(ga.model[~aa]):
        # products of overlapping dummies have flat directions
        if case['o']['season_add_mult'] == 'mult' and m not in (
                'linear', 'constant', 'naive', 'snaive_wday'):
            continue
        i = (ga.model == m).values
        ctx.close(ga.y[i] / scale, wa.y[i] / scale, 'forecast of ' + m, 0,
                  2e-4)
    ctx.label(case['s'][0]['freq'])
    ctx.nontrivial(bool((~aa).any()))


@st.composite
def simple(draw):
    c = draw(cases())
    c['via'] = draw(st.sampled_from(['single', 'list', 'none', 'before']))
    return c


@facet('ways', simple(), 200,
       rule='start given to run_forecast_single or in a ForecastInput; no '
            'start, or one before the first sample, is the whole series; '
            'non-trivial: a start within the series')
def f_ways(case, ctx):
    for c in case['s'], case['early']:
        del c[1:]
    o = case['o']
    full, cut, arg, start, col = prepare(case, ctx, True)
    df = full.drop(columns='early')
    via = case['via']
    if via in ('none', 'before'):
        # the table as it is may not be valid, the cut is
        a = go(ctx, case, cut)
        first = cut[col].min()
        lag = 40 if col == 'x' else pd.Timedelta(days=40)
        b = go(ctx, case, cut, date_start_actuals=None if via == 'none'
               else first - lag)
        ctx.got(a, b)
        cmp.result(ctx, b, a, 'start before the first sample')
        return
    if via == 'single':
        kw = run.kwargs(dict(o, simplify_output=False))
        np.random.seed(case['seed'])
        got = ctx.got(forecast.run_forecast_single(
            forecast.normalize_df(df), date_start_actuals=arg, **kw))
        np.random.seed(case['seed'])
        want = forecast.run_forecast_single(forecast.normalize_df(cut), **kw)
        cmp.result(ctx, got, want, 'run_forecast_single', rtol=1e-9,
                   atol=1e-9)
    else:
        kw = {k: o[k] for k in ('extrapolate_years', 'season_add_mult',
                                'include_all_fits', 'find_outliers')
              if k in o}
        out = []
        for d, a in ((df, arg), (cut, None)):
            np.random.seed(case['seed'])
            out.append(forecast.run_l_forecast([forecast.ForecastInput(
                'a', d, l_model_trend=[fm.model_linear],
                l_model_season=[fm.model_null], date_start_actuals=a),
                forecast.ForecastInput('b', cut, l_model_season=[
                    fm.model_null])], **kw))
        ctx.got(out)
        cmp.result(ctx, out[0], out[1], 'run_l_forecast', rtol=1e-9,
                   atol=1e-9)
    ctx.label(via)
    ctx.nontrivial()


@st.composite
def late_cases(draw):
    c = draw(cases())
    c['lag'] = draw(st.integers(1, 500))
    c['two'] = draw(st.booleans())
    return c


@facet('late', late_cases(), 150,
       rule='start after the last sample of a series: no sample, no fit, no '
            'effect on another source; all are non-trivial')
def f_late(case, ctx):
    for c in case['s'], case['early']:
        del c[1:]
    full, cut, arg, start, col = prepare(case, ctx, True)
    last = cut[col].max()
    cut2 = cut.assign(source='b')
    gap = case['lag'] if col == 'x' else pd.Timedelta(days=case['lag'])
    if case['two']:
        # the other source is the same series after the start
        cut2[col] = cut[col] + (last - cut[col].min()) + gap
        if case['s'][0]['freq'] not in ('num', 'D', 'W'):
            n = len(cut2)
            if cut[col].duplicated().any():
                ctx.skip()
            cut2[col] = pd.date_range(last + gap, periods=n,
                                      freq=case['s'][0]['freq'])
        if col == 'date':
            cut2['x'] = (cut2.date - cut2.date.min()).dt.days + case['x0']
        df = pd.concat([cut.assign(source='a'), cut2], ignore_index=True)
        arg = cut2[col].min()
        if not arg > last:
            ctx.skip()
    else:
        df, arg = cut, last + gap
    got = ctx.got(go(ctx, case, df, date_start_actuals=arg))
    if case['two']:
        want = go(ctx, case, cut2)
        m = got['metadata']
        ctx.check(not m.loc[m.source == 'a'].is_fit.any(), 'fit of a')
        info = got['optimize_info']
        ctx.check(not info.loc[info.source == 'a'].success.any(), 'fit of a')
        for t in cmp.TABLES:
            if t in ('data', 'forecast'):
                ctx.check((got[t].source == 'b').all(), 'samples of a')
            got[t] = got[t].loc[got[t].source == 'b'].reset_index(drop=True)
        same_columns(ctx, got, want)
        cmp.result(ctx, got, want, 'other source', rtol=1e-9, atol=1e-9)
    else:
        for t in ('data', 'forecast'):
            ctx.eq(len(got[t]), 0, 'rows of ' + t)
        ctx.check(not got['metadata'].is_fit.any(), 'fits')
        ctx.check(not got['optimize_info'].success.any(), 'fits')
    ctx.label('two' if case['two'] else 'one')
    ctx.nontrivial()


@st.composite
def several(draw):
    fr = draw(st.sampled_from(['D', 'W', 'MS', 'num']))
    k = draw(st.integers(2, 4))
    return dict(s=[draw(gen.series([fr], n_min=8, n_max=30, noisy=True,
                                   scale=False, dups=False))
                   for _ in range(k)],
                cut=[draw(st.sampled_from([None, None, 0, 1, 2, 3, 5]))
                     for _ in range(k)],
                trend=[draw(st.sampled_from([
                    None, ['linear'], ['constant', 'linear']]))
                    for _ in range(k)],
                o=dict(extrapolate_years=draw(st.sampled_from([0, 0.1])),
                       include_all_fits=True), seed=draw(st.integers(0, 99)))


@facet('inputs', several(), 120,
       rule='lists of two to four forecast inputs, each with a start date of '
            'its own or none: each is forecast from its own start; '
            'non-trivial: two of the starts differ')
def f_inputs(case, ctx):
    inputs, want, starts = [], [], []
    for i, (s, c, t) in enumerate(zip(case['s'], case['cut'],
                                      case['trend'])):
        d = gen.build(s)
        col = 'x' if s['freq'] == 'num' else 'date'
        if not oracle.usable(s, d) or len(d) < 6:
            ctx.skip()
        if col == 'date':
            d['x'] = (d.date - d.date.min()).dt.days
        start = None if c is None else d[col].iloc[c]
        cut = d if c is None else d.loc[d[col] >= start].reset_index(
            drop=True)
        if not oracle.usable(s, cut):
            ctx.skip()
        l_trend = None if t is None else [models.build(e) for e in t]
        a, b = [forecast.ForecastInput(
            's{}'.format(i), e, l_model_trend=l_trend,
            l_model_season=[fm.model_null], date_start_actuals=v)
            for e, v in ((d, start), (cut, None))]
        inputs.append(a)
        want.append(b)
        starts.append(str(start))
    np.random.seed(case['seed'])
    got = ctx.got(forecast.run_l_forecast(inputs, **case['o']))
    for b in want:
        np.random.seed(case['seed'])
        w = forecast.run_l_forecast([b], **case['o'])
        g = {t: got[t].loc[got[t].source == b.source_id].reset_index(
            drop=True) for t in w}
        for t, keys in (('metadata', ['model', 'status', 'is_fit', 'freq',
                                      'actuals_x_range', 'weights']),
                        ('data', ['date', 'model', 'is_actuals',
                                  'source_long'])):
            ctx.eq(g[t][keys].values.tolist(), w[t][keys].values.tolist(),
                   '{} of {}'.format(t, b.source_id))
        y = w['data'].y.astype(float)
        scale = 1e-9 + b.df_y.y.abs().max()
        ctx.close(g['data'].y.astype(float) / scale, y / scale,
                  'values of ' + b.source_id, 0, 2e-4)
    ctx.nontrivial(len(set(starts)) > 1)


FACETS = [f_cut, f_values, f_dates, f_ways, f_late, f_inputs]
