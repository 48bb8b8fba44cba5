"""C02: best fit is the candidate with the lowest AICc, all candidates tried"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

TRENDS = ['linear', 'constant', 'linear_nondec', ['+', 'linear', 'constant'],
          'step', ['+', 'constant', 'linear']]
SEASONS = ['null', 'wday', 'wday2', ['dates', 'd1', ['2018-01-05']],
           ['dates', '1d', ['2018-01-06']]]
CANDS = st.fixed_dictionaries(dict(
    trend=st.lists(st.sampled_from(TRENDS), min_size=1, max_size=3,
                   unique_by=str),
    season=st.lists(st.sampled_from(SEASONS), min_size=0, max_size=3,
                    unique_by=str),
    naive=st.one_of(st.none(), st.lists(
        st.sampled_from(['naive', 'snaive']), max_size=2, unique=True)),
    season_add_mult=st.sampled_from(['add', 'mult', 'both', 'both']),
    extrapolate_years=st.sampled_from([0, 0.05])))


def compose(trend, season, ops):
    """Names of all combinations"""
    if not season:
        return {models.build(t).name for t in trend}
    return {models.build([op, t, s]).name
            for t in trend for s in season for op in ops}


def expected_names(o, freq):
    out = set()
    ops = {'add': '+', 'mult': '*', 'both': '+*'}[o['season_add_mult']]
    out |= compose(o['trend'], o['season'], ops)
    nv = o['naive']
    if nv is None:
        nv = ['snaive'] if freq == 'D' else ['naive']
    return out | {models.LEAVES[m].name for m in nv}


def check_best(ctx, meta, what):
    fit = meta.loc[meta.is_fit.astype(bool)]
    best = meta.loc[meta.is_best_fit.astype(bool)]
    if fit.empty:
        ctx.eq(len(best), 0, what + ': best fit without any fit')
        return None
    ctx.eq(len(best), 1, what + ': number of best fits')
    ctx.check(bool(best.is_fit.iloc[0]), what + ': best model is not fitted')
    ctx.eq(float(best.aic_c.iloc[0]), float(fit.aic_c.min()),
           what + ': aic_c of best model is not the minimum')
    ctx.check(not fit.aic_c.isnull().any(), what + ': fitted without aic_c')
    return best.model.iloc[0]


def check_case(case, ctx):
    spec, o = case['s'], case['o']
    df = gen.build(spec)
    if not oracle.usable(spec, df) or gen.n_valid(df) < 2:
        ctx.skip()
    if spec['freq'] == 'num' or (o['naive'] and 'snaive' in o['naive'] and
                                 spec['freq'] != 'D'):
        if any(models.dated(s) for s in o['season']) or \
                'snaive' in (o['naive'] or []):
            ctx.skip()
    a = ctx.got(run.seeded_run(7, df, include_all_fits=True, **o))
    meta, data = a['metadata'], a['data']
    want = expected_names(o, spec['freq'])
    ctx.eq(sorted(meta.model), sorted(want), 'candidate models')
    ctx.eq(len(a['optimize_info']), len(want), 'rows in optimize_info')
    best = check_best(ctx, meta, 'all fits')
    # data has every fitted model and only these, flagged consistently
    fitted = set(meta.loc[meta.is_fit.astype(bool)].model)
    g = oracle.fcast_rows(data)
    ctx.check(set(g.model) <= fitted, 'forecast of models without fit: {}',
              set(g.model) - fitted)
    ctx.check(fitted - set(g.model) == set(), 'fitted models without '
              'forecast: {}', fitted - set(g.model))
    ctx.eq(set(g.loc[g.is_best_fit.astype(bool)].model),
           {best} if best else set(), 'is_best_fit in data')
    ops = o['season_add_mult']
    if ops != 'both':
        ctx.eq(set(meta.add_mult), {ops}, 'add_mult')
    else:
        add = compose(o['trend'], o['season'], '+')
        for r in meta.to_dict('records'):
            if r['model'] in ('naive', 'snaive_wday'):
                continue
            ctx.eq(r['add_mult'], 'add' if r['model'] in add else 'mult',
                   'add_mult of ' + r['model'])
    f = oracle.fcast_rows(a['forecast'])
    ctx.eq(set(f.model), {best} if best else set(), 'model in forecast')
    if best:
        t = g.loc[g.model == best]
        ctx.eq(list(f.date), list(t.date), 'dates of best model')
        ctx.close(f.y.values, t.y.values, 'values of best model',
                  rtol=1e-12, atol=0)
    # only the best without include_all_fits
    b = ctx.got(run.seeded_run(7, df, include_all_fits=False, **o))
    ctx.eq(list(b['metadata'].model), [best] if best else [],
           'metadata without include_all_fits')
    gb = oracle.fcast_rows(b['data'])
    ctx.eq(set(gb.model), {best} if best else set(),
           'data without include_all_fits')
    ctx.eq(len(oracle.actual_rows(b['data'])),
           len(oracle.actual_rows(data)), 'actuals without include_all_fits')
    if best:
        t = g.loc[g.model == best]
        ctx.eq(list(gb.date), list(t.date), 'dates without all fits')
        ctx.close(gb.y.values, t.y.values, 'values without all fits',
                  rtol=1e-9, atol=1e-9)
    statuses = set(meta.status)
    ctx.check(statuses <= {'FIT', 'NO-FIT', 'TS_TOO_SHORT', 'INPUT_ERR',
                           'EMPTY_TS'}, 'status: {}', statuses)
    ctx.eq(list(meta.status == 'FIT'), list(meta.is_fit.astype(bool)),
           'status and is_fit')
    ctx.label(*sorted(statuses))
    ctx.label('{} fitted'.format(min(len(fitted), 4)), ops)
    ctx.nontrivial(len(fitted) >= 2 and
                   meta.loc[meta.is_fit.astype(bool)].aic_c.nunique() >= 2)


@facet('candidate lists', st.fixed_dictionaries(dict(
    s=gen.series(['D', 'D', 'W', 'MS', 'num'], n_min=4, n_max=40),
    o=CANDS)), 420,
    rule='random series and random lists of trend, season and naive '
         'candidates, add/mult/both; non-trivial: at least two fitted models '
         'with different AICc')
def f_lists(case, ctx):
    check_case(case, ctx)


AUTO = st.fixed_dictionaries(dict(
    freq=st.sampled_from(['D', 'D', 'D', 'W', 'MS', 'QS', '2D']),
    start=gen.dates,
    days=st.sampled_from([9, 12, 40, 364, 366, 400, 545, 549, 600, 730, 731,
                          740, 800]),
    calendar=st.sampled_from([None, ['cal_uk'], ['cal_us', 'cal_ita']]),
    seed=st.integers(0, 999),
    yearly=st.sampled_from([[], []]),
    weekly=st.sampled_from([None, [], ['wday2', 'null'], ['wday2']]),
    add_mult=st.sampled_from(['add', 'mult']),
    step=st.sampled_from([7, 1, 30])))


@facet('default candidates', AUTO, 90,
       rule='series with spans around the documented thresholds; candidate '
            'set against the documented selection rules; non-trivial: more '
            'than one candidate')
def f_auto(case, ctx):
    per = {'D': 1, 'W': 7, 'MS': 30, 'QS': 91, '2D': 2}[case['freq']]
    n = case['days'] // per + 1
    if n < 5:
        ctx.skip()
    i = pd.date_range(case['start'], periods=n, freq='2D') \
        if case['freq'] == '2D' else \
        gen.date_index(case['freq'], case['start'], n)
    y = 200 + np.arange(n) * 0.1 + 5 * gen.noise(case['seed'], n)
    df = pd.DataFrame({'date': i, 'y': y})
    span = (i.max() - i.min()).days
    # documented rules
    trend = ['linear']
    if span > 2 * 365:
        trend.append(['+', 'linear', 'ramp'])
    weekly = ['null']
    if case['freq'] == 'D' and span > 1.5 * 7:
        weekly = ['wday', 'null'] if case['weekly'] is None else \
            (case['weekly'] or ['null'])
    yearly = ['null']
    op = '+' if case['add_mult'] == 'add' else '*'
    names = {models.build([op, t, s]).name for t in trend
             for s in weekly + ['null']}
    if case['calendar'] and case['freq'] == 'D' and span > 365:
        out = set()
        for t in trend:
            for s in weekly + ['null']:
                for c in case['calendar']:
                    out.add(models.build([op, [op, t, s], c]).name)
        names = out
    names.add('snaive_wday' if case['freq'] in ('D', '2D') else 'naive')
    d = ctx.got(run.run(
        df, include_all_fits=True, calendar=case['calendar'],
        season_yearly=case['yearly'], season_weekly=case['weekly'],
        season_add_mult=case['add_mult']))
    ctx.eq(sorted(d['metadata'].model), sorted(names), 'default candidates')
    check_best(ctx, d['metadata'], 'default candidates')
    ctx.label(case['freq'], 'calendar' if case['calendar'] else 'plain',
              'ramp' if len(trend) > 1 else 'linear')
    ctx.nontrivial(len(names) > 2)


HARD = st.fixed_dictionaries(dict(
    n=st.integers(10, 60), scale=st.integers(20, 300),
    start=st.integers(-90, -10), noise=st.sampled_from([1e-3, 0.1, 3.]),
    wave=st.sampled_from([1., 50., 1000., 30000.]),
    others=st.lists(st.sampled_from(['constant', 'linear', 'step', 'naive']),
                    min_size=0, max_size=3, unique=True),
    am=st.sampled_from(['add', 'mult', 'both']),
    seed=st.integers(0, 999), dated=st.booleans()))


@facet('no convergence', HARD, 200,
       rule='a candidate in whose curved valley the optimizer stops early, '
            'next to others: it is listed with its AICc but never selected; '
            'non-trivial: it is not fitted and has the lowest AICc')
def f_hard(case, ctx):
    n = case['n']
    i = np.arange(n)
    base = case['wave'] * np.sin(i * 2.3)

    def f(a_x, a_date, params, is_mult=False, **kwargs):
        a, b = params
        j = np.arange(len(a_x))
        return case['wave'] * np.sin(j * 2.3) + np.where(
            j % 2 == 0, case['scale'] * (b - a ** 2), 1 - a)
    a0 = float(case['start'])
    valley = fm.ForecastModel(
        'valley', 2, f, lambda a_x=None, a_y=None, a_date=None,
        is_mult=False: np.array([a0, a0 ** 2]))
    df = pd.DataFrame({'y': base + case['noise'] *
                       gen.noise(case['seed'], n)})
    if case['dated']:
        df['date'] = pd.date_range('2019-02-01', periods=n)
    else:
        df['x'] = i
    naive = [models.build('naive')] if 'naive' in case['others'] else []
    trend = [valley] + [models.build(t) for t in case['others']
                        if t != 'naive']
    np.random.seed(case['seed'])
    d = ctx.got(forecast.run_forecast(
        df, l_model_trend=trend, l_model_season=[fm.model_null],
        l_model_naive=naive, season_add_mult=case['am'],
        include_all_fits=True, simplify_output=False))
    m = d['metadata']
    ctx.eq(sorted(m.model), sorted(t.name for t in trend + naive),
           'candidates')
    best = check_best(ctx, m, 'no convergence')
    g = oracle.fcast_rows(d['data'])
    ctx.eq(set(g.model), set(m.loc[m.is_fit.astype(bool)].model),
           'models with a forecast')
    ctx.eq(set(oracle.fcast_rows(d['forecast']).model),
           {best} if best else set(), 'model in forecast')
    v = m.loc[m.model == 'valley'].iloc[0]
    ctx.eq(v.status, 'FIT' if v.is_fit else 'NO-FIT', 'status')
    ctx.label(v.status)
    ctx.nontrivial(not v.is_fit and float(v.aic_c) <= m.aic_c.min())


FACETS = [f_lists, f_auto, f_hard]
