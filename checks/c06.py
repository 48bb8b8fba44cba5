"""C06: only relative weights matter"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st

TR_D = ['linear', 'constant', ['+', 'linear', 'wday2'],
        ['+', 'constant', 'wday'], 'linear_nondec']
TR = ['linear', 'constant', 'linear_nondec']


@st.composite
def cases(draw, weights=True):
    fr = draw(st.sampled_from(['D', 'D', 'W', 'MS', 'num']))
    s = draw(gen.series([fr], n_min=9, n_max=40, dups=True, noisy=True,
                        weights=weights, scale=False))
    tr = draw(st.lists(st.sampled_from(TR_D if fr == 'D' else TR), min_size=1,
                       max_size=3, unique_by=str))
    return dict(s=s, tr=tr, c=draw(st.sampled_from(
        [2., 4., 0.5, 3., 10., 0.1, 7.3, 0.25, 100., 1e-3, 1e-5, 1e-9, 1e4])),
        # large values for small weights: the optimizer stops at an absolute
        # size of the gradient
        up=draw(st.sampled_from([1., 1., 100.])),
        naive=draw(st.sampled_from([[], ['naive'], None])),
        i=draw(st.integers(0, 39)), k=draw(st.sampled_from([1.5, 3., 10.])))


def usable(case, ctx):
    df = gen.build(case['s'])
    if case['c'] < 1e-3:   # models without parameters
        case.update(tr=[], naive=['naive'])
    elif case['c'] < 0.1:
        df['y'] = df.y * 1e4
    elif case['c'] >= 0.1:
        df['y'] = df.y * case['up']
    if not oracle.usable(case['s'], df) or gen.n_valid(df) < 8:
        ctx.skip()
    col = 'x' if case['s']['freq'] == 'num' else 'date'
    tr = [e for e in case['tr'] if models.identified(e, df, col)]
    if case['tr'] and not tr:
        ctx.skip('parameters are not determined')
    case.update(tr=tr)
    return df


def amp(df):
    v = gen.valid(df).y
    return 1e-6 + float(v.max() - v.min()) + 1e-3 * float(np.abs(v).max())


def compare(ctx, ra, rb, c, df, pi=True):
    ma, mb = ra['metadata'], rb['metadata']
    ctx.eq(list(ma.model), list(mb.model), 'candidates')
    ctx.eq(list(ma.status), list(mb.status), 'status')
    tol = 1e-4 * amp(df)
    w2 = float(gen.valid(df).get('weight', pd.Series([1.])).max()) ** 2
    for r, t in zip(ma.to_dict('records'), mb.to_dict('records')):
        if not r['is_fit']:
            continue
        if r['model'] in ('naive', 'snaive_wday') or \
                r['cost'] > 1e-6 * amp(df) ** 2:
            ctx.close(t['cost'], r['cost'] * c * c, 'cost of ' + r['model'],
                      1e-4, 1e-7 * max(w2, 1) * c * c if c < 1e-3 else
                      1e-7 * max(w2, 1) * max(c * c, 1))
    fit = ma.loc[ma.is_fit.astype(bool)].sort_values('aic_c')
    clear = len(fit) < 2 or (
        fit.aic_c.iloc[1] - fit.aic_c.iloc[0] > 0.05 and
        fit.cost.min() > 1e-6 * amp(df) ** 2)
    ga, gb = oracle.fcast_rows(ra['data']), oracle.fcast_rows(rb['data'])
    ctx.eq(list(zip(ga.model, ga.date)), list(zip(gb.model, gb.date)), 'rows')
    ctx.close(gb.y.values, ga.y.values, 'forecast values', 1e-4, tol)
    if clear:
        ctx.eq(list(ma.is_best_fit), list(mb.is_best_fit), 'selected model')
        fa, fb = [oracle.fcast_rows(r['forecast']) for r in (ra, rb)]
        ctx.close(fb.y.values, fa.y.values, 'forecast', 1e-4, tol)
        for q in ('q5', 'q20', 'q80', 'q95') if len(fa) else ():
            ctx.close(fb[q].values, fa[q].values, q, 1e-3, 20 * tol)
    return clear


@facet('scaled weights', cases(), 420,
       rule='all weights times a constant: same forecasts, selection and '
            'intervals, cost times its square; non-trivial: clear winner '
            'among several candidates')
def f_scale(case, ctx):
    df = usable(case, ctx)
    b = df.copy()
    b['weight'] = b.weight * case['c']
    kw = dict(trend=case['tr'], season=[], naive=case['naive'],
              extrapolate_years=0.1, include_all_fits=True)
    ra = ctx.got(run.seeded_run(5, df, **kw))
    rb = ctx.got(run.seeded_run(5, b, **kw))
    clear = compare(ctx, ra, rb, case['c'], df)
    ctx.nontrivial(clear and len(ra['metadata']) > 1)
    ctx.label(case['s']['freq'])


@facet('equal weights', cases(weights=False), 240,
       rule='one weight for all samples against no weight column; '
            'non-trivial: clear winner among several candidates')
def f_equal(case, ctx):
    df = usable(case, ctx)
    b = df.assign(weight=case['c'] if case['i'] % 3 else 1.)
    kw = dict(trend=case['tr'], season=[], naive=case['naive'],
              extrapolate_years=0.1, include_all_fits=True)
    ra = ctx.got(run.seeded_run(5, df, **kw))
    rb = ctx.got(run.seeded_run(5, b, **kw))
    clear = compare(ctx, ra, rb, b.weight.iloc[0], df)
    ctx.nontrivial(clear and len(ra['metadata']) > 1)


@facet('larger weight', cases(), 260,
       rule='a larger weight for one sample does not increase its residual; '
            'non-trivial: the residual gets smaller')
def f_more(case, ctx):
    df = usable(case, ctx)
    col = 'x' if case['s']['freq'] == 'num' else 'date'
    v = gen.valid(df)
    i = v.index[case['i'] % len(v)]
    if (v[col] == v.loc[i, col]).sum() > 1:
        ctx.skip('repeated sample')
    b = df.copy()
    b.loc[i, 'weight'] *= case['k']
    m = (case['tr'] or ['constant'])[0]
    kw = dict(trend=[m], season=[], naive=[], extrapolate_years=0)
    res = []
    for t in (df, b):
        r = ctx.got(run.seeded_run(5, t, **kw))
        f = oracle.fcast_rows(r['data'])
        if f.empty:
            ctx.skip('not fitted')
        res.append(abs(float(f.loc[f[
            'date'] == df.loc[i, col]].y.iloc[0]) - df.loc[i, 'y']))
    tol = 1e-3 * amp(df)
    ctx.check(res[1] <= res[0] + tol, 'residual {} with weight {}, {} with '
              'weight {}', res[0], df.loc[i, 'weight'], res[1],
              b.loc[i, 'weight'])
    # weighted by a factor: for one parameter the residual shrinks exactly
    if m == 'constant':
        vv, w = oracle.effective_weights(b, col)
        mean = float((w ** 2 * vv.y).sum() / (w ** 2).sum())
        ctx.close(res[1], abs(df.loc[i, 'y'] - mean), 'weighted mean', 1e-4,
                  tol)
    ctx.nontrivial(res[1] < res[0] - tol)


FACETS = [f_scale, f_equal, f_more]
