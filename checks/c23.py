"""C23: prediction intervals widen once per widening period"""
from vlib.runner import facet
from checks.c22 import check_source
from vlib import cmp, gen, oracle, pi, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast

ASSUMPTIONS = ['percentiles of n bootstrap samples are judged with the '
               'Dvoretzky-Kiefer-Wolfowitz bound at 1e-14 per row']
LONG = dict(D=420, W=110, M=40, Q=20, Y=8, num=400)


@st.composite
def cases(draw):
    s = draw(pi.one_source(freqs=['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y',
                                  'num'], max_future=3))
    widen = draw(st.sampled_from(['Y', 'Q', 'M', 'W', 'D', 'default']))
    n_cum = draw(st.sampled_from([None, None, None, 1, 7, 10, 30, 45, 365]))
    d = pi.DAYS['Y' if widen == 'default' else widen] if n_cum is None \
        else n_cum
    per = max(1, int(d / pi.days(s['freq'])))
    # horizons about the ends of periods
    k = draw(st.integers(0, 4)) * per + draw(st.integers(-1, 2))
    s['future'] = max(1, min(k, LONG[s['freq'] if s['freq'] == 'num'
                                     else s['freq'][0]]))
    s['res'] = draw(st.sampled_from([[-1, 1], [-2, 0, 1], [0, 0, 0, 3],
                                     [5, -4, -1], [1, -3, 2, 2]]))
    return dict(s=s, widen=widen, n_cum=n_cum,
                q=draw(st.sampled_from([[5, 20], [10, 40], [16, 30],
                                        [2, 45]])))


@facet('tables', cases(), 700,
       rule='forecast tables of every frequency with every widening period '
            '(or number of days), future spans ending at the end of a '
            'period; the percentiles of every future row against the exact '
            'distribution of its number of residuals; non-trivial: two '
            'periods or more')
def f_tables(case, ctx):
    s = case['s']
    t, info = pi.build(s)
    if len(set(info['res'])) < 2:
        ctx.skip('equal residuals')
    n_sims = 4000
    kw = {}
    if case['widen'] != 'default':
        kw['widening_freq'] = case['widen']
    if case['n_cum'] is not None:
        kw['n_cum'] = case['n_cum']
    out = ctx.got(forecast.get_pi(
        t, n_sims=n_sims, pi_q1=case['q'][0], pi_q2=case['q'][1], **kw))
    n_cum = case['n_cum'] or pi.DAYS[
        'Y' if case['widen'] == 'default' else case['widen']]
    check_source(ctx, t, info, out, s, dict(n_sims=n_sims, q=case['q']),
                 n_cum)
    per = max(1, int(n_cum / pi.days(s['freq'])))
    ctx.label('{}/{}'.format(s['freq'][0], case['n_cum'] or case['widen']))
    ctx.nontrivial(s['future'] > per)


@st.composite
def width_cases(draw):
    c = draw(cases())
    c['s']['n'] = 16
    for k in ('null', 'zero', 'dup', 'no_fc'):
        c['s'].pop(k, None)
    c['s']['res'] = [-1, 1]
    c['q'] = [16, 30]
    return c


@facet('growth', width_cases(), 160, 1200,
       rule='spread of the interval: constant within a period, growing with '
            'the square root of the number of periods; non-trivial: three '
            'periods or more')
def f_growth(case, ctx):
    s = case['s']
    t, info = pi.build(s)
    kw = {}
    if case['widen'] != 'default':
        kw['widening_freq'] = case['widen']
    if case['n_cum'] is not None:
        kw['n_cum'] = case['n_cum']
    out = ctx.got(forecast.get_pi(t, n_sims=6000, pi_q1=16, pi_q2=30, **kw))
    n_cum = case['n_cum'] or pi.DAYS[
        'Y' if case['widen'] == 'default' else case['widen']]
    per = max(1, int(n_cum / pi.days(s['freq'])))
    g = out.loc[~out.is_actuals.astype(bool)]
    fut = g.loc[g.date > info['last']]
    w = (fut.q84 - fut.q16).values / s['unit'] / 2.
    for j in range(0, len(w), per):
        blk = w[j:j + per]
        k = 2 + j // per
        # the lattice has steps of 2; the standard deviation is sqrt(k)
        ctx.check(np.abs(blk - np.sqrt(k)).max() <= 1.3 + 0.1 * np.sqrt(k),
                  'period {}: half width {}, expected {}', j // per, blk,
                  np.sqrt(k))
    past = g.loc[~(g.date > info['last'])]
    ctx.check((((past.q84 - past.q16) / s['unit'] - 2.).abs() < 1e-6).all(),
              'past half width is not 1')
    ctx.nontrivial(len(w) > 2 * per)


@st.composite
def fc_cases(draw):
    freq = draw(st.sampled_from(['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS',
                                 'num']))
    return dict(s=draw(gen.series([freq], n_min=9, n_max=30, dups=False,
                                  noisy=True)),
                widen=draw(st.sampled_from(['Y', 'M', 'W', 'D', 'Q', None])),
                n_cum=draw(st.sampled_from([None, None, 1, 20, 60])),
                two=draw(st.booleans()),
                years=draw(st.sampled_from([1.2, 0.5, 2.5])),
                seed=draw(st.integers(0, 999)))


@facet('forecasts', fc_cases(), 350,
       rule='whole forecasts: their interval is that of their data table '
            'with the same options, and reaches the distance of its number '
            'of residuals only; non-trivial: two periods or more')
def f_forecasts(case, ctx):
    s = case['s']
    df = gen.build(s)
    if not oracle.usable(s, df) or gen.n_valid(df) < 5:
        ctx.skip()
    if case['two']:
        b = df.copy()
        b['y'] = b.y * 3 + 1
        df = pd.concat([df.assign(source='a'), b.assign(source='b')],
                       ignore_index=True)
    opts = dict(trend=['linear'], season=['null'], naive=[],
                extrapolate_years=case['years'])
    kw = {}
    if case['widen'] is not None:
        opts['pi_widening_freq'] = kw['widening_freq'] = case['widen']
    if case['n_cum'] is not None:
        opts['n_cum'] = kw['n_cum'] = case['n_cum']
    out = ctx.got(run.seeded_run(case['seed'], df, **opts))
    fc, data = out['forecast'], out['data']
    n_cum = case['n_cum'] or pi.DAYS[case['widen'] or 'Y']
    per = max(1, int(n_cum / pi.days(s['freq'])))
    nt = False
    for src in sorted(set(fc.source)):
        f = fc.loc[(fc.source == src) & ~fc.is_actuals.astype(bool)]
        d = data.loc[data.source == src].reset_index(drop=True)
        a = d.loc[d.is_actuals & d.y.notnull() & (d.weight > 0)]
        last = a.date.max()
        m = a.merge(d.loc[~d.is_actuals, ['date', 'y']], on='date',
                    suffixes=('', '_fc'))
        c = (m.y - m.y_fc).values
        c = c - c.mean()
        # 100 samples each: the spread of rows of one period, pooled
        fut = f.loc[f.date > last]
        sd = c.std()
        if sd < 1e-6 * (1 + np.abs(d.y).max()):
            continue
        iqr = ((fut.q95 - fut.q5) / sd).values
        past = ((f.q95 - f.q5) / sd)[~(f.date > last)].values
        for j in range(0, len(iqr), per):
            k = 2 + j // per
            blk = iqr[j:j + per]
            # 90 % of any distribution is within 3.17 standard deviations
            ctx.check(blk.max() <= 2 * 5. * np.sqrt(k) + 1e-6,
                      'period {}: width of {} standard deviations', k - 2,
                      blk.max())
            if k >= 6:  # close to normal: 3.29 standard deviations
                r = np.median(blk) / np.sqrt(k)
                if len(blk) >= 5:
                    ctx.check(1.6 < r < 5.2, 'period {}: width {} standard '
                              'deviations of its residuals', k - 2, r)
        if len(past):
            ctx.check(past.max() <= 10, 'past width {}', past.max())
        nt = nt or len(iqr) > per
    if not case['two']:
        np.random.seed(case['seed'])
        ref = forecast.get_pi(data, n_sims=100, **kw)
        a, b = ref.loc[~ref.is_actuals.astype(bool)], \
            fc.loc[~fc.is_actuals.astype(bool)]
        ctx.eq(list(a.date), list(b.date), 'dates')
        # same spread, if not the same random numbers
        wa, wb = [(v.q95 - v.q5).values for v in (a, b)]
        r = wb.mean() / wa.mean() if wa.mean() > 1e-6 * (
            1 + np.abs(a.y).max()) else 1.
        ctx.check(1 / 2.5 < r < 2.5, 'mean width is {} in the forecast, {} '
                  'by its data table', wb.mean(), wa.mean())
    ctx.nontrivial(nt)


FACETS = [f_tables, f_growth, f_forecasts]
