"""C07: forecasts are equivariant to units, dates and row order"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
from checks import c25
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm, model_utils

TR_D = ['linear', 'constant', ['+', 'linear', 'wday2'],
        ['+', 'constant', 'wday'], ['+', 'linear', 'wday']]
TR = ['linear', 'constant']


@st.composite
def cases(draw, freqs, dups=False, n_min=9, models_=None):
    fr = draw(st.sampled_from(freqs))
    s = draw(gen.series([fr], n_min=n_min, n_max=40, dups=dups, noisy=True,
                        scale=False))
    tr = draw(st.lists(st.sampled_from(
        models_ or (TR_D if fr == 'D' else TR)), min_size=1, max_size=2,
        unique_by=str))
    return dict(s=s, tr=tr, seed=draw(st.integers(0, 10 ** 6)),
                a=draw(st.sampled_from(
                    [2., 0.5, 10., 0.01, 37., 1000., 1., 1e4, 1e7])),
                b=draw(st.sampled_from([0., 0., 50., -20., 1e3, -500.])),
                weeks=draw(st.integers(-600, 600)),
                off=draw(st.sampled_from([1, 3, 7, 50, 1000, -4, -13])),
                naive=draw(st.sampled_from([[], ['naive'], None])),
                years=draw(st.sampled_from([0.1, 0.3])))


def setup(case, ctx, linear=True):
    df = gen.build(case['s'])
    if not oracle.usable(case['s'], df) or gen.n_valid(df) < 8:
        ctx.skip()
    v = gen.valid(df).y
    amp = 1e-6 + float(v.max() - v.min()) + 1e-3 * float(np.abs(v).max())
    if linear:
        col = 'x' if case['s']['freq'] == 'num' else 'date'
        tr = [e for e in case['tr'] if models.identified(e, df, col)]
        if case['tr'] and not tr:
            ctx.skip('parameters are not determined')
        case.update(tr=tr)
    return df, amp


def opts(case):
    return dict(trend=case['tr'], season=[], naive=case['naive'],
                extrapolate_years=case['years'], include_all_fits=True)


def compare(ctx, ra, rb, fy, fd, tol, fq=None, exact=False):
    """Forecast b is forecast a with values mapped by fy and dates by fd"""
    ma, mb = ra['metadata'], rb['metadata']
    ctx.eq(list(ma.model), list(mb.model), 'candidates')
    ctx.eq(list(ma.status), list(mb.status), 'status')
    fit = ma.loc[ma.is_fit.astype(bool)].sort_values('aic_c')
    # near-perfect fits of any scale have no reliable order
    clear = exact or len(fit) < 2 or (
        fit.aic_c.iloc[1] - fit.aic_c.iloc[0] > 0.05 and
        (fit.cost > 1e-6 * tol ** 2 * 1e8).all())
    ga, gb = oracle.fcast_rows(ra['data']), oracle.fcast_rows(rb['data'])
    ctx.eq([(m, fd(t)) for m, t in zip(ga.model, ga.date)],
           list(zip(gb.model, gb.date)), 'rows')
    r = 1e-9 if exact else 1e-4
    ctx.close(gb.y.values, fy(ga.y.values), 'forecast values', r, tol)
    if clear:
        ctx.eq(list(ma.is_best_fit), list(mb.is_best_fit), 'selected model')
        fa, fb = [oracle.fcast_rows(x['forecast']) for x in (ra, rb)]
        ctx.eq([fd(t) for t in fa.date], list(fb.date), 'forecast dates')
        ctx.close(fb.y.values, fy(fa.y.values), 'forecast', r, tol)
        for q in ('q5', 'q20', 'q80', 'q95') if len(fa) else ():
            ctx.close(fb[q].values, fy(fa[q].values), 'interval ' + q,
                      r, 20 * tol)
    return clear and len(fit) > 0


@facet('units', cases(['D', 'D', 'W', 'MS', 'num', 'QS'], dups=True), 320,
       rule='values a*y+b: forecasts and intervals a*f+b; non-trivial: clear '
            'winner')
def f_units(case, ctx):
    df, amp = setup(case, ctx)
    a, b = case['a'], case['b']
    if a > 1e3:   # precision of the optimizer
        case = dict(case, tr=['constant'])
    if abs(b) > 100 * amp * a:   # precision of the optimizer
        b = 0.
    t = df.assign(y=a * df.y + b)
    ra = ctx.got(run.seeded_run(case['seed'], df, **opts(case)))
    rb = ctx.got(run.seeded_run(case['seed'], t, **opts(case)))
    ok = compare(ctx, ra, rb, lambda y: a * y + b, lambda d: d,
                 max(1e-4 * amp * a, 1e-4))
    ctx.nontrivial(ok and (a != 1 or b))
    ctx.label(case['s']['freq'])


@facet('negated values', cases(['D', 'W', 'num']), 120,
       rule='values -y: forecasts -f; non-trivial: a fit')
def f_neg(case, ctx):
    df, amp = setup(case, ctx)
    ra = ctx.got(run.seeded_run(case['seed'], df, **opts(case)))
    rb = ctx.got(run.seeded_run(case['seed'], df.assign(y=-df.y),
                                **opts(case)))
    ga, gb = oracle.fcast_rows(ra['data']), oracle.fcast_rows(rb['data'])
    ctx.eq(list(zip(ga.model, ga.date)), list(zip(gb.model, gb.date)), 'rows')
    ctx.close(gb.y.values, -ga.y.values, 'forecast values', 1e-4, 1e-4 * amp)
    ctx.nontrivial(len(ga) > 0)


ANY_D = ['linear', 'step', ['+', 'linear', 'wday'], ['*', 'linear', 'wday2'],
         ['+', 'linear', 'ramp'], 'linear_nondec', ['*', 'constant', 'wday']]
ANY = ['linear', 'step', 'linear_nondec', ['+', 'linear', 'step']]


@facet('week shift', st.one_of(
    cases(['D'], n_min=14, models_=ANY_D), cases(['W'], models_=ANY)), 300,
    rule='all dates moved by whole weeks: same values and intervals at moved '
         'dates, models without calendar; non-trivial: moved')
def f_week(case, ctx):
    df, amp = setup(case, ctx, False)
    sh = pd.Timedelta(days=7 * case['weeks'])
    t = df.assign(date=df.date + sh)
    ra = ctx.got(run.seeded_run(case['seed'], df, **opts(case)))
    rb = ctx.got(run.seeded_run(case['seed'], t, **opts(case)))
    compare(ctx, ra, rb, lambda y: y, lambda d: d + sh, 1e-9 * amp,
            exact=True)
    ctx.nontrivial(case['weeks'] != 0)
    ctx.label(case['s']['freq'])


@facet('index offset', cases(['num']), 200,
       rule='numeric index moved by a constant: same values at the moved '
            'index; non-trivial: clear winner')
def f_offset(case, ctx):
    df, amp = setup(case, ctx)
    k = case['off']
    ra = ctx.got(run.seeded_run(case['seed'], df, **opts(case)))
    rb = ctx.got(run.seeded_run(case['seed'], df.assign(x=df.x + k),
                                **opts(case)))
    ok = compare(ctx, ra, rb, lambda y: y, lambda d: d + k, 1e-3 * amp)
    ctx.nontrivial(ok)


@facet('row order', cases(['D', 'W', 'MS', 'QS', 'num'], models_=None), 300,
       rule='rows permuted: the same output tables; non-trivial: order '
            'changed')
def f_order(case, ctx):
    df, amp = setup(case, ctx, False)
    p = np.argsort(gen.noise(case['seed'], len(df)))
    t = df.iloc[p]
    if case['seed'] % 2:
        t = t.reset_index(drop=True)
    ra = ctx.got(run.seeded_run(case['seed'], df, **opts(case)))
    rb = ctx.got(run.seeded_run(case['seed'], t, **opts(case)))
    compare(ctx, ra, rb, lambda y: y, lambda d: d, 1e-9 * amp, exact=True)
    aa, ab = [oracle.actual_rows(r['data']) for r in (ra, rb)]
    ctx.eq(list(aa.date), list(ab.date), 'order of actuals')
    ctx.close(aa.y, ab.y, 'actuals', 0, 0)
    ctx.close(aa.weight, ab.weight, 'weights of actuals', 0, 0)
    ctx.nontrivial(list(p) != sorted(p))


@st.composite
def choice_cases(draw):
    return dict(c=draw(c25.specs(55, 130)), k=draw(st.sampled_from(
        [-17, -14, -14, -7, -1, 1, 9, 20])),
        spikes=draw(st.lists(st.integers(0, 54), max_size=3, unique=True)),
        out=draw(st.booleans()), seed=draw(st.integers(0, 999)))


@facet('choices', choice_cases(), 120,
       rule='values in other units (a power of two): the same outliers, '
            'composition, candidates and samples used; non-trivial: '
            'multiplicative, or with outliers')
def f_choices(case, ctx):
    df = c25.build(case['c'], dup=not case['out'])
    df.loc[[i for i in case['spikes'] if i < len(df)], 'y'] *= 4
    if len(df) < 9 or c25.rule(df) is None or not oracle.one_period_apart(
            dict(freq='D', start=df.date.min(), n=400), df):
        ctx.skip()
    t = df.assign(y=df.y * 2. ** case['k'])
    na, nb = forecast.normalize_df(df), forecast.normalize_df(t)
    mult = bool(model_utils.is_multiplicative(na))
    ctx.eq(bool(model_utils.is_multiplicative(nb)), mult, 'composition')
    n_out = 0
    if not na.date.duplicated().any():
        oa = ctx.got(fm.get_model_outliers(na))
        ob = fm.get_model_outliers(nb)
        for i, what in enumerate(('steps', 'spikes')):
            ctx.eq(list(oa[i]), list(ob[i]), what)
            n_out += int(np.sum(oa[i]))
    elif (na.date.diff().dt.days > 1).any():
        ctx.skip('gaps and several samples')
    o = dict(trend=['linear'], season=['wday2'], naive=[],
             season_add_mult='auto', find_outliers=case['out'],
             extrapolate_years=0, include_all_fits=True)
    ra = ctx.got(run.seeded_run(case['seed'], df, **o))
    rb = ctx.got(run.seeded_run(case['seed'], t, **o))
    for c in ('model', 'add_mult', 'weights', 'actuals_x_range'):
        ctx.eq(list(ra['metadata'][c]), list(rb['metadata'][c]), c)
    aa, ab = [oracle.actual_rows(r['data']) for r in (ra, rb)]
    ctx.close(aa.weight, ab.weight, 'weights of actuals', 0, 0)
    ctx.nontrivial(mult or n_out > 0)


FACETS = [f_choices, f_units, f_neg, f_week, f_offset, f_order]
