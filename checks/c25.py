"""C25: automatic composition follows the documented variance rule"""
from vlib.runner import facet
from vlib import cmp, gen, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, model_utils as mu

ASSUMPTIONS = ['series whose correlation is within 1e-4 of the limit are left '
               'out, as the trend is fitted numerically']


def period(d, freq):
    if freq == 'W':   # weeks end on Sundays
        return d.toordinal() - d.weekday()
    return d.year * 12 + (d.month - 1) // (3 if freq == 'Q' else 1)


def correlation(df, freq='M'):
    """Correlation of monthly mean and variance of the residuals to the
    (weighted) linear trend"""
    x = (df.date - df.date.min()).dt.days.values.astype(float)
    y = df.y.values
    w = df.weight.values.astype(float) if 'weight' in df \
        else np.ones(len(df))
    w = w / df.groupby('date').date.transform('size').values
    b, _, _ = oracle.wls(np.column_stack([x, np.ones(len(x))]), y, w)
    res = y - (b[0] * x + b[1])
    months = {}
    for d, r, v in zip(df.date, res, y):
        months.setdefault(period(d, freq), []).append((r, v))
    mean, var = [], []
    for m in months.values():
        if len(m) < 2:
            continue
        r = np.array(m)
        var.append(np.sum((r[:, 0] - r[:, 0].mean()) ** 2) / (len(m) - 1))
        mean.append(r[:, 1].mean())
    if len(mean) < 2:
        return None, 0.
    mean, var = np.array(mean), np.array(var)
    dm, dv = mean - mean.mean(), var - var.mean()
    sm, sv = np.sqrt((dm ** 2).sum()), np.sqrt((dv ** 2).sum())
    scale = np.abs(y).max()
    quality = min(sm / scale, sv / (var.max() + 1e-12 * scale ** 2),
                  var.max() / scale ** 2 * 1e6)
    if sm == 0 or sv == 0:
        return None, 0.
    return float((dm * dv).sum() / sm / sv), quality


def rule(df, freq='M'):
    """True, False or None if too close to call"""
    df = df.loc[df.y.notnull()]
    if 'weight' in df:
        df = df.loc[df.weight > 0]
    if (df.y <= 0).any() or 'date' not in df:
        return False
    if len(df) < 4 or df.date.max() - df.date.min() < pd.Timedelta(days=60):
        return False
    c, quality = correlation(df, freq)
    if quality < 1e-3:
        return None
    if abs(c - 0.8) < 1e-4:
        return None
    return c >= 0.8


@st.composite
def specs(draw, n_min=55, n_max=200):
    c = dict(start=draw(gen.dates), step=draw(st.sampled_from([1, 1, 1, 2,
                                                               3, 7])),
             n=draw(st.integers(n_min, n_max)),
             base=draw(st.sampled_from([20., 100., 1000.])),
             growth=draw(st.sampled_from([0., 0.5, 2., 5., -0.1])),
             # amplitude: part of the level, constant, and random by month
             rel=draw(st.sampled_from([0., 0.3, 0.3, 0.1, 0.8])),
             amp=draw(st.sampled_from([0., 0.05, 0.3])),
             wild=draw(st.sampled_from([0., 0., 0.2, 0.5])),
             nseed=draw(st.integers(0, 9999)),
             period=draw(st.sampled_from([None, None, None, 'M', 'W', 'Q'])),
             unit=draw(st.sampled_from([10, -7, -14, -17, 8])))
    if n_max == 200 and draw(st.integers(0, 9)) == 0:
        c['n'] *= draw(st.sampled_from([4, 8]))   # years
    if c['step'] == 7:
        c['n'] = max(9, c['n'] // 3)
    idx = st.lists(st.integers(0, c['n'] - 1), max_size=4, unique=True)
    for k in ('null', 'zero', 'drop', 'dup'):
        if draw(st.integers(0, 3)) == 0:
            c[k] = draw(idx)
    if draw(st.integers(0, 3)) == 0:
        c['w'] = draw(st.lists(st.sampled_from([1., 0.5, 2., 0.1]),
                               min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        c['nonpos'] = [draw(st.integers(0, c['n'] - 1)),
                       draw(st.sampled_from([0., -1., 1e-9])),
                       draw(st.sampled_from(['used', 'null', 'zero']))]
    return c


def build(c, dup=True):
    n = c['n']
    date = pd.Timestamp(c['start']) + pd.to_timedelta(
        np.arange(n) * c['step'], 'D')
    u = gen.noise(c['nseed'], n)
    lvl = c['base'] * (1 + c['growth'] * np.arange(n) / n)
    month = np.array([d.year * 12 + d.month for d in date])
    wild = np.abs(gen.noise(c['nseed'] + 1, 40))[month % 40] * c['wild']
    y = lvl + u * (c['rel'] * lvl + (c['amp'] + wild) * c['base'])
    y = np.maximum(y, 0.01 * c['base'])
    df = pd.DataFrame(dict(date=date, y=y))
    if c.get('w') or c.get('zero') or c.get('nonpos'):
        w = np.array(c.get('w') or [1.])
        df['weight'] = w[np.arange(n) % len(w)]
    if c.get('zero'):
        df.loc[c['zero'], 'weight'] = 0.
        df.loc[c['zero'], 'y'] *= 7
    if c.get('null'):
        df.loc[c['null'], 'y'] = np.nan
    if c.get('nonpos'):
        i, v, how = c['nonpos']
        df.loc[i, 'y'] = v
        if how == 'null':
            df.loc[i, 'y'] = np.nan
        if how == 'zero':
            df.loc[i, 'weight'] = 0.
        elif how == 'used':
            df.loc[i, 'weight'] = 1.
    if c.get('drop'):
        df = df.drop(index=[i for i in c['drop']])
    if c.get('dup') and dup:
        d = df.loc[df.index.isin(c['dup'])].copy()
        d['y'] = d.y * 1.5
        df = pd.concat([df, d]).sort_values('date', kind='stable')
    return df.reset_index(drop=True)


@facet('rule', specs(), 1600,
       rule='series with noise in proportion to the level, constant or '
            'changing by month, weights, nulls, gaps, repeated dates and '
            'values about zero, aggregated by month (or by week or quarter, on '
            'request), against the recomputed rule; non-trivial: '
            'the correlation decides')
def f_rule(case, ctx):
    df = build(case)
    args = [case['period']] if case['period'] else []
    want = rule(df, *args)
    if want is None:
        ctx.skip('too close')
    t = forecast.normalize_df(df)
    before = t.copy()
    got = ctx.got(bool(mu.is_multiplicative(t, *args)))
    cmp.untouched(ctx, t, before, 'series')
    ctx.eq(got, want, 'is_multiplicative')
    v = df.loc[df.y.notnull()]
    v = v.loc[v.weight > 0] if 'weight' in v else v
    positive = (v.y > 0).all()
    # units do not matter
    t2 = t.copy()
    t2['y'] = t2.y * 2. ** case['unit']
    ctx.eq(bool(mu.is_multiplicative(t2, *args)), want, 'with values in other units')
    ctx.label(str(want))
    ctx.nontrivial(positive and len(v) >= 4 and
                   v.date.max() - v.date.min() >= pd.Timedelta(days=60))


@st.composite
def edge_cases(draw):
    c = draw(specs(59, 64))
    c['step'] = 1
    c['n'] = draw(st.integers(59, 64))
    for k in ('drop', 'dup', 'zero', 'null'):
        c.pop(k, None)
    c.pop('nonpos', None)
    c['rel'], c['growth'], c['wild'], c['amp'] = 0.3, 5., 0., 0.
    c['kind'] = draw(st.sampled_from(['span', 'numeric', 'few', 'not positive',
                                      'span of valid']))
    c['few'] = draw(st.integers(0, 4))
    c['at'] = draw(st.integers(0, 58))
    c['v'] = draw(st.sampled_from([0., -1., -1e-12]))
    return c


@facet('exceptions', edge_cases(), 500,
       rule='strongly multiplicative series of 59 to 64 days, without dates, '
            'with 0 to 4 samples or one value that is not positive; all are '
            'non-trivial')
def f_edges(case, ctx):
    df = build(case)
    k = case['kind']
    if k == 'numeric':
        df = df.rename(columns=dict(date='x'))
        df['x'] = np.arange(len(df))
    elif k == 'few':
        i = np.linspace(0, len(df) - 1, 4).astype(int)[:case['few']]
        df = df.iloc[i]
    elif k == 'not positive':
        df.loc[case['at'], 'y'] = case['v']
    elif k == 'span of valid':
        df.loc[df.index[-1], 'y'] = np.nan
    if not len(df):
        t = pd.DataFrame(dict(date=pd.DatetimeIndex([]), x=np.array(
            [], dtype=int), y=np.array([], dtype=float)))
    else:
        t = forecast.normalize_df(df)
    got = ctx.got(bool(mu.is_multiplicative(t)))
    if k in ('numeric', 'not positive'):
        want = False
    elif not len(df):
        want = False
    else:
        want = rule(df)
    if want is None:
        ctx.skip()
    ctx.eq(got, want, 'is_multiplicative of ' + k)
    ctx.label(k, str(want))
    ctx.nontrivial()


@st.composite
def fc_cases(draw):
    c = draw(specs(62, 110))
    if c['step'] == 3:
        c['step'] = 1
    c.pop('dup', None)
    c['first'] = draw(st.sampled_from([None, None, 4, 20]))
    c['outliers'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 999))
    c['all'] = draw(st.booleans())
    c['num'] = draw(st.integers(0, 9)) == 0
    if c['step'] == 2:
        c['step'] = 1
    return c


@facet('forecasts', fc_cases(), 150, 1000,
       rule='forecasts with automatic composition against those with the '
            'composition of the rule, with start dates, weights, nulls, '
            'outliers; non-trivial: multiplicative, or the composition is '
            'another without the start date, ignored or null samples')
def f_forecasts(case, ctx):
    df = build(case, dup=False)
    if case['num']:
        df = df.rename(columns=dict(date='x'))
        df['x'] = np.arange(len(df))
    col = 'x' if case['num'] else 'date'
    if len(df) < 30 and case['step'] != 7:
        ctx.skip()
    kw = dict(trend=['linear'], naive=[], include_all_fits=case['all'],
              extrapolate_years=0.1)
    kw['season'] = ['null'] if case['num'] else \
        ['wday2', 'null'] if case['step'] == 1 else ['mstart', 'null']
    used = df
    if case['first'] is not None and case['first'] < len(df) - 10:
        kw['date_start_actuals'] = df[col].iloc[case['first']]
        used = df.loc[df[col] >= kw['date_start_actuals']]
    if case['outliers']:
        kw['find_outliers'] = True
        t = used.copy()
        if 'x' not in t:
            t['x'] = oracle.norm_x(t.date)
        _, spike = forecast.forecast_models.get_model_outliers(t)
        used = used.copy()
        used['weight'] = (used.weight if 'weight' in used else 1.) * (
            ~np.asarray(spike)).astype(float)
    if gen.n_valid(used) < 8:
        ctx.skip()
    want = rule(used)
    if want is None:
        ctx.skip('too close')
    a = ctx.got(run.seeded_run(case['seed'], df, season_add_mult='auto',
                               **kw))
    op = 'mult' if want else 'add'
    b = run.seeded_run(case['seed'], df, season_add_mult=op, **kw)
    ctx.eq(set(a['metadata'].add_mult), {op}, 'add_mult in metadata')
    cmp.result(ctx, a, b, 'forecast', rtol=1e-9, atol=1e-9)
    raw = df.fillna(1.)
    if 'weight' in raw:
        raw = raw.drop(columns=['weight'])
    ctx.label(op)
    ctx.nontrivial(want or rule(raw) is True)


FACETS = [f_rule, f_edges, f_forecasts]
