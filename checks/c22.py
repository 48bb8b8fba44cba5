"""C22: prediction intervals are ordered and built from the residuals"""
from vlib.runner import facet
from vlib import cmp, gen, oracle, pi, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast

LEVEL = 'exploration'
ASSUMPTIONS = ['percentiles of n bootstrap samples are judged with the '
               'Dvoretzky-Kiefer-Wolfowitz bound at 1e-14 per row']
COLS = ['date', 'source', 'is_actuals', 'model', 'y']

qs = st.one_of(
    st.just([5, 20]), st.just([5, 20]),
    st.lists(st.integers(1, 99), min_size=2, max_size=2, unique=True).filter(
        lambda q: sum(q) != 100 and 50 not in q),
    st.lists(st.sampled_from([2.5, 12.5, 0.8, 97.5, 33.25, 40.]), min_size=2,
             max_size=2, unique=True).filter(lambda q: sum(q) != 100))


@st.composite
def table_cases(draw):
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return dict(sources=[draw(pi.one_source(max_future=12, long=True))
                         for _ in range(k)],
                q=draw(qs), n_sims=draw(st.sampled_from([4000, 4000, 100])),
                n_cum=draw(st.sampled_from([None, None, 1, 2, 30])),
                other=draw(st.booleans()), flag=draw(st.booleans()))


def check_source(ctx, tab, info, got, s, case, n_cum):
    """One source of the result against its exact distribution"""
    q1, q2 = case['q']
    names = pi.q_names(q1, q2)
    best = tab if 'is_best_fit' not in tab else \
        tab.loc[tab.is_actuals | tab.is_best_fit]
    act = best.loc[best.is_actuals & best.y.notnull()]
    fc = best.loc[~best.is_actuals]
    g_act = got.loc[got.is_actuals.astype(bool)]
    g_fc = got.loc[~got.is_actuals.astype(bool)]
    for a, b, what in ((act, g_act, 'actuals'), (fc, g_fc, 'forecast')):
        ctx.eq([(d, m, y) for d, m, y in zip(a.date, a.model, a.y)],
               [(d, m, y) for d, m, y in zip(b.date, b.model, b.y)],
               what + ' rows')
    res = info['res']
    if not len(res):
        return 0
    for c in names:
        ctx.check(c in got, 'column {} is missing', c)
        ctx.check(g_act[c].isnull().all(), 'actuals have {}', c)
        ctx.check(g_fc[c].notnull().all(), 'forecast without {}', c)
    order = sorted(names, key=lambda c: float(c[1:]))
    for a, b in zip(order, order[1:]):
        ctx.check((g_fc[a] <= g_fc[b] + 1e-9 * (1 + g_fc[b].abs())).all(),
                  '{} is above {}', a, b)
    u = s['unit']
    c = res - res.mean()
    eps = pi.eps_for(case['n_sims'])
    per = max(1, int(n_cum / pi.days(s['freq'])))
    i = 0
    for d, y, vals in zip(g_fc.date, g_fc.y, g_fc[names].values):
        k = 1
        if d > info['last']:
            k = 2 + i // per
            i += 1
        tol = 1e-9 * (1 + abs(y) + k * u * 10)
        lo, hi = y + k * c.min() * u, y + k * c.max() * u
        if not (vals.min() >= lo - tol and vals.max() <= hi + tol):
            ctx.fail('interval {} of {} (forecast {}) out of the reach '
                     '{}, {} of {} residuals', vals, d, y, lo, hi, k)
        for q, v in zip((q1, 100 - q1, q2, 100 - q2), vals):
            a, b = pi.bracket(res, k, q, eps)
            if not (y + a * u - tol <= v <= y + b * u + tol):
                ctx.fail('q{} of {} (forecast {}) is {}, should be within '
                         '{}, {}: percentile of {} residuals', q, d, y, v,
                         y + a * u, y + b * u, k)
    return int(len(set(res)) > 1)


@facet('tables', table_cases(), 900,
       rule='forecast tables of 1 to 3 sources (8 frequencies and numeric; '
            'null, ignored and repeated actuals, non-optimal models, missing '
            'first forecasts; some of hundreds of samples) with any percentiles; every bound against the '
            'exact distribution of sums of residuals; non-trivial: residuals '
            'differ')
def f_tables(case, ctx):
    tabs, infos = [], []
    for i, s in enumerate(case['sources']):
        t, info = pi.build(s, 's{}'.format(i),
                           other=case['other'] and case['flag'],
                           flag=case['flag'])
        tabs.append(t)
        infos.append(info)
    if len(tabs) > 1 and len({s['freq'] == 'num'
                              for s in case['sources']}) > 1:
        ctx.skip('dates and numbers')
    if any(not len(i['res']) for i in infos):
        ctx.skip('no residuals')
    df = pd.concat(tabs, ignore_index=True)
    before = df.copy()
    kw = {} if case['n_cum'] is None else dict(n_cum=case['n_cum'])
    out = ctx.got(forecast.get_pi(
        df, n_sims=case['n_sims'], pi_q1=case['q'][0], pi_q2=case['q'][1],
        **kw))
    cmp.untouched(ctx, df, before, 'forecast table')
    ctx.eq(sorted(out.columns), sorted(COLS + pi.q_names(*case['q'])),
           'columns')
    ctx.eq(len(out), sum((t.y.notnull() & (
        t.is_actuals | (t.model == 'linear'))).sum() for t in tabs), 'rows')
    nt = 0
    for i, (t, info, s) in enumerate(zip(tabs, infos, case['sources'])):
        nt += check_source(ctx, t, info,
                           out.loc[out.source == 's{}'.format(i)], s, case,
                           case['n_cum'] or 365)
    ctx.label('{} sources'.format(len(tabs)))
    ctx.nontrivial(nt)


@st.composite
def fc_cases(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    freq = draw(st.sampled_from([['D'], ['W'], ['MS'], ['num'], ['QS']]))
    return dict(sources=[draw(gen.series(freq, n_min=8, n_max=30, dups=False))
                         for _ in range(k)], q=draw(qs),
                years=draw(st.sampled_from([0.05, 0.3, 0, 1.])),
                trend=draw(st.sampled_from([['linear'], ['constant'],
                                            ['linear', 'constant']])),
                naive=draw(st.sampled_from([None, [], ['naive']])),
                widen=draw(st.sampled_from(['Y', 'M', 'W', 'D'])),
                seed=draw(st.integers(0, 999)), all=draw(st.booleans()),
                plain=draw(st.booleans()))


@facet('forecasts', fc_cases(), 450,
       rule='whole forecasts: interval columns, order, values unchanged, '
            'reach of the residuals in the output; non-trivial: a best fit '
            'with residuals')
def f_forecasts(case, ctx):
    parts = []
    for i, s in enumerate(case['sources']):
        d = gen.build(s, 's{}'.format(i))
        if not oracle.usable(s, d) or gen.n_valid(d) < 5:
            ctx.skip()
        parts.append(d)
    df = pd.concat(parts, ignore_index=True)
    if 'weight' in df:
        df['weight'] = df.weight.fillna(1.)
    opts = dict(trend=case['trend'], season=['null'],
                extrapolate_years=case['years'], pi_q1=case['q'][0],
                pi_q2=case['q'][1], pi_widening_freq=case['widen'],
                include_all_fits=case['all'])
    if case['naive'] is not None:
        opts['naive'] = case['naive']
    if case['plain'] and len(parts) == 1:
        df = df.drop(columns='source')
        opts['source_id'] = 's0'
    out = ctx.got(run.seeded_run(case['seed'], df, **opts))
    fc, data = out['forecast'], out['data']
    names = pi.q_names(*case['q'])
    ctx.eq(sorted(fc.columns), sorted(COLS + names), 'columns')
    nt = 0
    for i, s in enumerate(case['sources']):
        src = 's{}'.format(i)
        f = fc.loc[fc.source == src]
        d = data.loc[data.source == src]
        act = d.loc[d.is_actuals.astype(bool)]
        best = d.loc[~d.is_actuals.astype(bool) & d.is_best_fit]
        g = f.loc[~f.is_actuals.astype(bool)]
        ctx.eq(list(g.date), list(best.date), 'forecast dates')
        ctx.eq(list(g.y), list(best.y), 'forecast values')
        ctx.check(f.loc[f.is_actuals.astype(bool), names].isnull().all(
            axis=None), 'actuals have an interval')
        ctx.check(g[names].notnull().all(axis=None), 'interval is missing')
        order = sorted(names, key=lambda c: float(c[1:]))
        for a, b in zip(order, order[1:]):
            ctx.check((g[a] <= g[b] + 1e-9 * (1 + g[b].abs())).all(),
                      '{} is above {}', a, b)
        ok = act.loc[act.y.notnull() & (act.weight > 0)]
        m = ok.merge(best[['date', 'y']], on='date', suffixes=('', '_fc'))
        res = (m.y - m.y_fc).values
        c = res - res.mean()
        per = max(1, int(pi.DAYS[case['widen']] / pi.days(s['freq'])))
        last = ok.date.max()
        k = np.where(g.date > last, 2 + (
            (g.date > last).cumsum() - 1) // per, 1)
        tol = 1e-9 * (1 + g.y.abs().max() + np.abs(c).max())
        lo = g[names].min(axis=1) - g.y
        hi = g[names].max(axis=1) - g.y
        bad = (lo < k * c.min() - tol) | (hi > k * c.max() + tol)
        if bad.any():
            r = g.loc[bad].iloc[0]
            ctx.fail('interval {} of {} (forecast {}) out of reach of '
                     'residuals in {}, {}', r[names].tolist(), r.date, r.y,
                     c.min(), c.max())
        eps = pi.eps_for(100)
        past = g.loc[~(g.date > last)]
        sc = np.sort(c)
        for q, nm in zip((case['q'][0], 100 - case['q'][0], case['q'][1],
                          100 - case['q'][1]), names):
            a = sc[int(np.clip(np.floor((q / 100. - eps) * len(sc)), 0,
                               len(sc) - 1))]
            b = sc[int(np.clip(np.ceil((q / 100. + eps) * len(sc)), 0,
                               len(sc) - 1))]
            v = past[nm] - past.y
            ctx.check(((v >= a - tol) & (v <= b + tol)).all(),
                      'past {} within {}, {}', nm, a, b)
        nt += np.abs(c).max() > 1e-6
    ctx.label('{} sources'.format(len(case['sources'])))
    ctx.nontrivial(nt)


@st.composite
def perfect_cases(draw):
    s = draw(pi.one_source(max_future=20))
    s['res'] = [draw(st.integers(-3, 3))]
    s.pop('dup', None)
    return dict(s=s, q=draw(qs), scale=draw(st.sampled_from([1., 1e6, 1e-6])))


@facet('zero width', perfect_cases(), 400,
       rule='tables whose residuals are all equal; non-trivial: future dates')
def f_perfect(case, ctx):
    t, info = pi.build(case['s'])
    t['y'] = t.y * case['scale']
    if not len(info['res']):
        ctx.skip()
    out = ctx.got(forecast.get_pi(t, pi_q1=case['q'][0], pi_q2=case['q'][1]))
    g = out.loc[~out.is_actuals.astype(bool)]
    tol = 1e-11 * (1 + case['s']['future']) * (
        np.abs(g.y).max() + case['scale'])
    for c in pi.q_names(*case['q']):
        ctx.check((np.abs(g[c] - g.y) <= tol).all(), 'width of {}', c)
    ctx.nontrivial(case['s']['future'] > 0)


@st.composite
def level_cases(draw):
    s = draw(pi.one_source(min_past=10, max_future=12))
    s['future'] = max(s['future'], 6)
    for k in ('null', 'zero', 'dup', 'no_fc'):
        s.pop(k, None)
    q = st.one_of(st.integers(1, 99).map(float), st.floats(0.25, 99.75).map(
        lambda v: round(v, 2)))
    return dict(s=s, q=sorted(draw(st.lists(q, min_size=2, max_size=4,
                                            unique=True))),
                nseed=draw(st.integers(0, 999)),
                seed=draw(st.integers(0, 999)),
                n_cum=draw(st.sampled_from([1, 1, 1, 30])))


@facet('levels', level_cases(), 150,
       rule='tables with residuals that are all different; whole and '
            'fractional percentiles from the same random state: a higher '
            'level is never below, and above where it may be told apart; '
            'non-trivial: a fractional level')
def f_levels(case, ctx):
    t, info = pi.build(case['s'])
    act = t.is_actuals.astype(bool)
    t.loc[act, 'y'] += case['s']['unit'] * 3 * gen.noise(case['nseed'],
                                                         act.sum())
    case['q'] = [q for q in case['q'] if q != 50 and 100 - q not in case['q']]
    out = []
    for q in case['q']:
        q2 = 33.3 if q not in (33.3, 66.7) else 21.1
        np.random.seed(case['seed'])
        r = forecast.get_pi(t, n_sims=4000, n_cum=case['n_cum'], pi_q1=q,
                            pi_q2=q2)
        r = ctx.got(r).loc[lambda d: ~d.is_actuals.astype(bool)]
        future = (r.date > info['last']).values
        out += [(q, r['q{}'.format(q)].values),
                (100 - q, r['q{}'.format(100 - q)].values)]
    out.sort(key=lambda v: v[0])
    tol = 1e-9 * (1 + np.abs(r.y).max())
    for (a, va), (b, vb) in zip(out, out[1:]):
        ctx.check((va <= vb + tol).all(), 'q{} is above q{}', a, b)
        if b - a >= 0.2 and case['n_cum'] == 1:
            ctx.check((va < vb)[future].any(), 'q{} and q{} are the same: {}',
                      a, b, va[future])
    ctx.nontrivial(any(q % 1 for q in case['q']))


FACETS = [f_tables, f_forecasts, f_perfect, f_levels]
