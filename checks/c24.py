"""C24: outlier detection finds isolated spikes and steps, nothing else"""
from vlib.runner import facet
from vlib import cmp, gen, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

ASSUMPTIONS = ['events are at least a window away from the ends of the series '
               'and from each other; a spike lasts at most a window']


def quantile(v, q):
    v = sorted(v)
    h = (len(v) - 1) * q
    i = int(np.floor(h))
    return v[i] + (h - i) * (v[min(i + 1, len(v) - 1)] - v[i])


def thresholds(y):
    d = [b - a for a, b in zip(y, y[1:])]
    q1, q3 = quantile(d, 0.25), quantile(d, 0.75)
    return q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1)


def table(case, y):
    n = len(y)
    df = pd.DataFrame(dict(y=np.asarray(y, dtype=float)))
    if case['freq'] == 'num':
        df['x'] = np.arange(n) + case['x0']
    else:
        df['date'] = gen.date_index(case['freq'], case['start'], n)
        df['x'] = oracle.norm_x(df.date)
    if case.get('w'):
        df['weight'] = case['w']
    if case.get('labels'):
        df.index = np.arange(n)[::-1] + 5
    return df


def masks(ctx, df, window=None):
    before = df.copy()
    kw = {} if window in (None, 3) else dict(window=window)
    out = ctx.got(fm.get_model_outliers(df, **kw))
    cmp.untouched(ctx, df, before, 'series')
    ctx.eq(len(out), 2, 'masks')
    for m in out:
        ctx.eq(np.shape(m), (len(df),), 'shape of mask')
        ctx.check(np.asarray(m).dtype == bool, 'mask of {}',
                  np.asarray(m).dtype)
    return [list(np.nonzero(np.asarray(m))[0]) for m in out]


layout = dict(freq=st.sampled_from(['D', 'W', 'MS', 'num', 'QS', 'num']),
              start=gen.dates, x0=st.sampled_from([0, 0, 5, -7, 0.5, -20, -1.75]),
              w=st.sampled_from([None, None, 1., 0.5]),
              labels=st.booleans())


@st.composite
def base_series(draw, n_min=20, n_max=90):
    c = {k: draw(v) for k, v in layout.items()}
    if c['freq'] in ('MS', 'QS'):
        c['start'] = c['start'][:8] + '01'
    c['n'] = draw(st.integers(n_min, n_max))
    c['base'] = draw(st.integers(-100, 100).map(float))
    c['slope'] = draw(st.sampled_from([0., 0., 0.5, -2.]))
    c['amp'] = draw(st.sampled_from([1., 1., 0.01, 20.]))
    c['nseed'] = draw(st.integers(0, 9999))
    return c


def base_y(c):
    u = gen.noise(c['nseed'], c['n'])
    u[c['n'] // 2:] *= c.get('late', 1.)
    return c['base'] + c['slope'] * np.arange(c['n']) + c['amp'] * u


@st.composite
def event_cases(draw):
    c = draw(base_series(30, 90))
    w = c['window'] = draw(st.sampled_from([3, 3, 3, 5, 7]))
    at, ev = w + 1, []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0]))):
        at += draw(st.integers(0, 14))
        kind = draw(st.sampled_from(['spike', 'spike', 'step']))
        dur = draw(st.integers(1, w)) if kind == 'spike' else draw(
            st.integers(1, 2))
        if at + dur + w + 1 >= c['n']:
            break
        ev.append(dict(kind=kind, at=at, dur=dur, up=draw(st.booleans()),
                       size=draw(st.sampled_from([6., 12., 50., 1000.]))))
        at += dur + w + 2
    c['events'] = ev
    return c


@facet('events', event_cases(), 1500,
       rule='noise and trend with up to three isolated spikes (up to a window '
            'long) and steps (in one or two samples), 6 to 1000 times the '
            'noise; masks are exact; non-trivial: an event')
def f_events(case, ctx):
    y = base_y(case)
    ev = case['events']
    for e in ev:
        h = e['size'] * (case['amp'] + abs(case['slope'])) * \
            (1 if e['up'] else -1)
        if e['kind'] == 'spike':
            y[e['at']:e['at'] + e['dur']] += h
        else:
            for j in range(e['dur']):
                y[e['at'] + j:] += h
    lo, hi = thresholds(y)
    # the domain: changes are those of the events
    d = np.diff(y)
    eps = 1e-9 * (1 + np.abs(y).max())
    changes = {int(i) + 1 for i in np.nonzero((d < lo) | (d > hi))[0]}
    if np.any(np.abs(d - lo) < eps) or np.any(np.abs(d - hi) < eps):
        ctx.skip('on the limit')
    spikes, steps, want_changes = [], [], set()
    for e in ev:
        p, q = e['at'], e['at'] + e['dur']
        if e['kind'] == 'spike':
            want_changes |= {p, q}
            both = [d[p - 1], d[q - 1]]
            m, ma = np.mean(both), np.mean(np.abs(both))
            if not lo + eps < m < hi - eps:
                ctx.skip('spike with a step')
            if ma - abs(m) <= (hi - lo) / 2 * 1.001:
                ctx.skip('small spike')
            spikes += list(range(p, q))
        else:
            want_changes |= set(range(p, q))
            steps += list(range(p, q))
    if changes != want_changes:
        ctx.skip('other changes')
    got = masks(ctx, table(case, y), case['window'])
    ctx.eq(got[1], spikes, 'spikes')
    ctx.eq(got[0], steps, 'steps')
    ctx.label('{} spikes, {} steps'.format(
        sum(e['kind'] == 'spike' for e in ev),
        sum(e['kind'] == 'step' for e in ev)))
    ctx.nontrivial(len(ev) > 0)


@st.composite
def limit_cases(draw):
    c = draw(base_series(16, 60))
    c['slope'] = draw(st.sampled_from([0., 0.5]))
    c['at'] = draw(st.integers(5, c['n'] - 6))
    c['up'] = draw(st.booleans())
    c['factor'] = draw(st.sampled_from([0.9, 0.98, 0.999, 1.001, 1.02, 1.1]))
    return c


@facet('limits', limit_cases(), 1000,
       rule='one step of 0.9 to 1.1 times the interquartile limit: marked '
            'above it, nothing below; all are non-trivial')
def f_limits(case, ctx):
    y = base_y(case)
    p = case['at']
    s = 1 if case['up'] else -1
    y[p:] += s * 1e4 * case['amp']
    lo, hi = thresholds(y)  # the quartiles do not depend on the size
    d = hi if case['up'] else lo
    mid = np.median(np.diff(y))
    d = mid + (d - mid) * case['factor']
    y[p:] += d - (y[p] - y[p - 1])
    lo2, hi2 = thresholds(y)
    eps = 1e-7 * (1 + np.abs(y).max())
    if abs(lo2 - lo) > eps or abs(hi2 - hi) > eps:
        ctx.skip('limits moved')
    dd = np.diff(y)
    lim = np.minimum(np.abs(dd - lo), np.abs(dd - hi)).min()
    if lim < eps:
        ctx.skip('on the limit')
    changes = {int(i) + 1 for i in np.nonzero((dd < lo2) | (dd > hi2))[0]}
    if changes - {p}:
        ctx.skip('other changes')
    got = masks(ctx, table(case, y))
    ctx.eq(got, [sorted(changes), []], 'steps and spikes')
    ctx.label('marked' if changes else 'not marked')
    ctx.nontrivial()


@st.composite
def any_cases(draw):
    c = draw(base_series(1, 50))
    if draw(st.integers(0, 11)) == 0:
        # years of samples, other noise in the second half
        c['n'] = draw(st.integers(380, 800))
        c['late'] = draw(st.sampled_from([1., 20., 0.1]))
    c['jumps'] = draw(st.lists(st.tuples(
        st.integers(0, c['n'] - 1), st.integers(-30, 30),
        st.integers(1, 6)).map(list), max_size=6))
    c['steps'] = draw(st.lists(st.tuples(
        st.integers(0, c['n'] - 1), st.integers(-30, 30)).map(list),
        max_size=3))
    if draw(st.integers(0, 2)) == 0:
        c['null'] = draw(st.lists(st.integers(0, c['n'] - 1), max_size=3))
    if draw(st.integers(0, 3)) == 0:
        c['round'] = True
    if draw(st.booleans()):
        # the origin of x at any sample
        c['x0'] = -draw(st.integers(0, c['n'] - 1)) + draw(
            st.sampled_from([0, 0, 0.5]))
    c['scale'] = draw(st.sampled_from([2., 0.5, 1024., 2. ** -10]))
    c['shift'] = draw(st.sampled_from([64., -1024., 4096.]))
    return c


def any_y(case):
    # multiples of 2^-10: shifts and scales are exact
    y = base_y(case)
    for i, h, k in case['jumps']:
        y[i:i + k] += h * case['amp']
    for i, h in case['steps']:
        y[i:] += h * case['amp']
    y = np.round(y) if case.get('round') else np.round(y * 1024) / 1024
    if case.get('null'):
        y[case['null']] = np.nan
    return y


@facet('invariance', any_cases(), 900,
       rule='any series with jumps, nulls, ties: the masks under shift, '
            'scale, sign, index, weight and labels; nothing is marked without '
            'changes, marks are in the reach of a change; non-trivial: '
            'something is marked')
def f_invariance(case, ctx):
    y = any_y(case)
    plain = dict(case, freq='num', x0=0, w=None, labels=False)
    got = masks(ctx, table(plain, y))
    ctx.eq(masks(ctx, table(case, y)), got, 'masks of other layout')
    ctx.eq(masks(ctx, table(plain, y + case['shift'])), got,
           'masks of shifted series')
    ctx.eq(masks(ctx, table(plain, y * case['scale'])), got,
           'masks of scaled series')
    ctx.eq(masks(ctx, table(plain, -y)), got, 'masks of mirrored series')
    v = np.diff(y)
    v = v[~np.isnan(v)]
    if len(v) < 3:
        ctx.eq(got, [[], []], 'masks of short series')
        return
    q1, q3 = quantile(v, 0.25), quantile(v, 0.75)
    lo, hi = q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1)
    eps = 1e-9 * (1 + np.nanmax(np.abs(y)))
    d = np.diff(y)
    with np.errstate(invalid='ignore'):
        maybe = set(np.nonzero((d < lo + eps) | (d > hi - eps))[0] + 1)
        sure = set(np.nonzero((d < lo - eps) | (d > hi + eps))[0] + 1)
    if not maybe:
        ctx.eq(got, [[], []], 'masks without changes')
    elif maybe == sure:
        for k in got:
            for i in k:
                ctx.check(min(sure) <= i <= max(sure) and min(
                    abs(i - j) for j in sure) <= 2, 'mark of {}, the changes '
                    'are at {}', i, sorted(sure))
    ctx.label('marks' if got[0] or got[1] else 'no marks')
    ctx.nontrivial(bool(got[0] or got[1]))


@st.composite
def fc_cases(draw):
    s = draw(gen.series(['D', 'W', 'MS', 'num'], n_min=20, n_max=45,
                        nulls=False, gaps=True, noisy=True, dups=False))
    n = s['n']
    return dict(s=s, spikes=draw(st.lists(st.tuples(
        st.integers(4, n - 5), st.sampled_from([40., -60., 300.]),
        st.integers(1, 2)).map(list), min_size=1, max_size=2)),
        step=draw(st.booleans()),
        start=draw(st.sampled_from([None, None, 3, 6])),
        years=draw(st.sampled_from([0, 0.1])),
        trend=draw(st.sampled_from([['linear'], ['linear', 'constant']])),
        naive=draw(st.sampled_from([None, [], ['naive']])),
        two=draw(st.booleans()), all=draw(st.booleans()),
        op=draw(st.sampled_from(['add', 'auto'])),
        seed=draw(st.integers(0, 999)))


@facet('forecasts', fc_cases(), 220, 1500,
       rule='forecasts with outlier search against those of the series with '
            'zero weight at the marked spikes, with start dates, weights, '
            'sources; non-trivial: a sample is marked')
def f_forecasts(case, ctx):
    s = case['s']
    df = gen.build(s)
    if not oracle.usable(s, df) or len(df) < 14:
        ctx.skip()
    a = (1. + s['amp']) * s.get('scale', 1.)
    for i, h, k in case['spikes']:
        df.loc[i:i + k - 1, 'y'] += h * a
    if case['step']:
        df.loc[len(df) // 2:, 'y'] += 35 * a
    col = 'x' if s['freq'] == 'num' else 'date'
    parts = [df]
    if case['two']:
        b = df.copy()
        b['y'] = b.y.values[::-1]
        parts = [df.assign(source='a'), b.assign(source='b')]
    start = None if case['start'] is None else df[col].iloc[case['start']]
    marked = 0
    weighted = []
    for p in parts:
        q = p.copy()
        used = q if start is None else q.loc[q[col] >= start]
        t = used.copy()
        if col == 'date':
            t['x'] = oracle.norm_x(t.date)
        step, spike = fm.get_model_outliers(t)
        w = used.weight if 'weight' in q else pd.Series(1., index=used.index)
        full = q.weight.copy() if 'weight' in q else pd.Series(
            1., index=q.index)
        full.loc[used.index] = w.where(~np.asarray(spike), 0.)
        q['weight'] = full
        if (full.loc[used.index] > 0).sum() < 5:
            ctx.skip('few samples left')
        weighted.append(q)
        marked += int(np.sum(spike))
    kw = dict(trend=case['trend'], season=['null'],
              extrapolate_years=case['years'], season_add_mult=case['op'],
              include_all_fits=case['all'])
    if case['naive'] is not None:
        kw['naive'] = case['naive']
    if start is not None:
        kw['date_start_actuals'] = start
    src = pd.concat(parts, ignore_index=True)
    before = src.copy()
    got = ctx.got(run.seeded_run(case['seed'], src, find_outliers=True, **kw))
    cmp.untouched(ctx, src, before, 'input')
    want = run.seeded_run(case['seed'], pd.concat(
        weighted, ignore_index=True), **kw)
    cmp.result(ctx, got, want, 'forecast', rtol=1e-9, atol=1e-9)
    ctx.label('{} marked'.format(min(marked, 3)))
    ctx.nontrivial(marked > 0)


@facet('repeated', st.tuples(base_series(8, 30), st.integers(0, 29),
                             st.integers(0, 7)).map(list), 150,
       rule='series with a repeated date or index; all are non-trivial')
def f_repeated(case, ctx):
    c, i, same = case
    df = table(dict(c, labels=False), base_y(c))
    i = i % len(df)
    d = pd.concat([df.iloc[:i + 1], df.iloc[i:]], ignore_index=True)
    if same % 2:
        d.loc[i, 'y'] += 3.
    if c['freq'] != 'num':
        d2 = d.drop(columns=['x'])
    else:
        d2 = d
    for f in (lambda: fm.get_model_outliers(d),
              lambda: forecast.run_forecast(
                  d2, find_outliers=True,
                  l_model_trend=[fm.model_linear],
                  l_model_season=[fm.model_null])):
        try:
            f()
        except ValueError:
            continue
        ctx.fail('repeated samples were accepted')
    ctx.nontrivial()


FACETS = [f_events, f_limits, f_invariance, f_forecasts, f_repeated]
