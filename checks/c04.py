"""C04: fits of linear-in-parameter models are weighted least squares"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast

D_MODELS = ['constant', 'linear', 'linear_nondec', ['+', 'wday2', 'constant'],
            ['+', 'linear', 'wday'], ['+', 'linear', 'wday2'],
            ['+', 'constant', 'wday'], ['+', 'linear', ['+', 'wday', 'wday2']],
            ['+', 'constant', 'mstart']]
DATED = ['constant', 'linear', 'linear_nondec']
NUM = ['constant', 'linear', 'linear_nondec',
       ['+', ['nums', 'n', [1, 3, 8, 13]], 'constant'],
       ['+', 'linear', ['nums', 'n', [4, 5, 6, 11]]],
       ['+', 'constant', ['+', ['nums', 'n', [2, 7]], ['nums', 'm', [9]]]]]


@st.composite
def case(draw):
    fr = draw(st.sampled_from(['D', 'D', 'num', 'W', 'MS', 'QS']))
    fourier = draw(st.integers(0, 9)) == 0 and fr in ('D', 'W')
    long = draw(st.integers(0, 15)) == 0
    s = draw(gen.series([fr], n_min=300 if long else 120 if fourier else 6,
                        n_max=500 if long else 160 if fourier else 60,
                        dups=True,
                        noisy=draw(st.sampled_from([True, True, None]))))
    if fourier:
        fr = s['freq'] = 'W'
        m = draw(st.sampled_from([['+', 'linear', 'fourier'],
                                  ['+', 'fourier', 'constant']]))
    elif fr == 'num':
        m = draw(st.sampled_from(NUM))
    else:
        m = draw(st.sampled_from(D_MODELS if fr == 'D' else DATED))
        if draw(st.integers(0, 2)) == 0:
            dd = [d.strftime('%Y-%m-%d') for d in gen.date_index(
                fr, s['start'], s['n'])]
            i = draw(st.integers(2, s['n'] - 3))
            j = draw(st.integers(i + 1, s['n'] - 2))
            e = draw(st.sampled_from([
                ['step_date', dd[i]], ['spike_date', dd[i], dd[j]],
                ['dates', 'dl', dd[i:j]], ['dates', 'dl', [dd[1]], dd[i:j]],
                'cal_uk', 'cal_us', 'cal_ita', 'xmas']))
            if m != 'linear_nondec':
                m = ['+', m, e] if draw(st.booleans()) else ['+', e, m]
    return dict(s=s, m=m, ext=draw(st.sampled_from([0, 0.05, 0.3])),
                scale=draw(st.sampled_from([1, 1, 1, 100])))


@facet('optimum', case(), 900,
       rule='random weighted series with nulls, gaps and repeated samples; '
            'linear-in-parameter models; cost against an independent '
            'least-squares solution, forecasts where it is unique; '
            'non-trivial: noisy, unique solution')
def f_opt(case, ctx):
    spec, m = case['s'], case['m']
    df = gen.build(spec)
    df['y'] = df.y * case['scale']
    # the optimizer uses finite differences with steps relative to parameters
    # that start around 1: larger values are beyond its precision
    if not oracle.usable(spec, df) or np.nanmax(np.abs(df.y)) > 1e5:
        ctx.skip()
    col = 'x' if spec['freq'] == 'num' else 'date'
    v, w = oracle.effective_weights(df, col)
    k = models.n_params(m)
    if len(v) < k + 2:
        ctx.skip('too short')
    x_all = df.x.values if col == 'x' else oracle.norm_x(df.date)
    xv = x_all[v.index.values].astype(float)
    dv = None if col == 'x' else pd.DatetimeIndex(v.date)
    if 'wday' in models.leaves(m) and dv.weekday.nunique() < 7:
        ctx.skip('weekdays')
    d = ctx.got(run.run(df, trend=[m], season=[], naive=[],
                        extrapolate_years=case['ext'], include_all_fits=True))
    r = d['metadata'].iloc[0]
    ctx.check(r.status in ('FIT', 'NO-FIT'), 'status {}', r.status)
    if not r.is_fit:
        ctx.label('NO-FIT')
        return
    X, b0 = models.design(m, xv, dv)
    y = v.y.values - b0
    if m == 'linear_nondec':
        p, cost, rank = oracle.wls(X, y, w)
        if p[0] < 0:
            p1, cost, rank = oracle.wls(X[:, 1:], y, w)
            p = np.array([0, p1[0]])
            rank += 1
            ctx.label('bound active')
        ctx.check(r.params[0] >= 0, 'slope of linear_nondec: {}', r.params)
    else:
        p, cost, rank = oracle.wls(X, y, w)
    scale = 1 + float(np.abs(v.y).max())
    tot = 0.5 * float(((w * y) ** 2).sum())
    got = float(r.cost)
    # the optimizer stops at gradients of 1e-8 or relative changes of 1e-8,
    # which is far from the optimum only for ill-conditioned problems
    if rank == k and np.linalg.cond(X * w[:, None] / np.maximum(np.abs(
            X * w[:, None]).max(axis=0), 1e-12)) > 1e4:
        ctx.skip('ill-conditioned')
    excess = 1e-5 * cost + 1e-9 * tot + 1e-7
    ctx.check(got <= cost + excess,
              'cost {} over the minimum {} of {}', got, cost,
              models.build(m).name)
    ctx.check(got >= cost * (1 - 1e-6) - 1e-9 * tot - 1e-12 * scale ** 2,
              'cost {} below the minimum {}', got, cost)
    unique = rank == k
    if unique:
        # error of the fit at the forecast dates, for the excess cost allowed
        f = oracle.fcast_rows(d['data'])
        if col == 'date':
            x0 = df.date.min() - pd.Timedelta(days=df.date.min().weekday())
            fx = ((f.date - x0) / pd.Timedelta(days=1)).values
            fd = pd.DatetimeIndex(f.date)
        else:
            fx, fd = f.date.values.astype(float), None
        Xf, bf = models.design(m, fx, fd)
        Xw = X * w[:, None]
        if np.linalg.cond(Xw / np.maximum(
                np.abs(Xw).max(axis=0), 1e-12)) < 1e5:
            lev = np.sqrt(np.einsum('ij,jk,ik->i', Xf, np.linalg.pinv(
                Xw.T @ Xw), Xf))
            tol = lev * np.sqrt(2 * excess) \
                + 1e-6 * scale
            diff = np.abs(f.y.values - (Xf @ p + bf))
            ctx.check((diff <= tol).all(), 'forecast of {} differs from the '
                      'least-squares solution: {} {}', models.build(m).name,
                      f.y.values[diff > tol][:3],
                      (Xf @ p + bf)[diff > tol][:3])
            ctx.label('forecast compared')
    ctx.label('unique' if unique else 'not unique', spec['freq'],
              'weighted' if 'weight' in df else 'unweighted')
    ctx.nontrivial(unique and cost > 1e-9)


@facet('unaligned fits', st.fixed_dictionaries(dict(
    n=st.integers(5, 30), seed=st.integers(0, 9999),
    w=st.booleans(), slope=st.one_of(st.integers(-5, 5), st.sampled_from(
        [20, 50, -30])), x0=st.one_of(st.integers(-50, 50), st.sampled_from(
            [150, -300])),
    model=st.sampled_from(['linear', 'constant', 'linear_nondec']))), 500,
    rule='fit_model() on x values at random positions; non-trivial: noisy')
def f_fit(case, ctx):
    n = case['n']
    x = case['x0'] + np.unique(np.round(
        40 * (1 + gen.noise(case['seed'], n))))
    n = len(x)
    k = models.n_params(case['model'])
    if n < k + 2:
        ctx.skip()
    y = case['slope'] * x + 20 * gen.noise(case['seed'] + 1, n)
    df = pd.DataFrame({'x': x, 'y': y})
    w = np.ones(n)
    if case['w']:
        w = 1.5 + gen.noise(case['seed'] + 2, n)
        df['weight'] = w
    m = ctx.got(forecast.fit_model(models.build(case['model']), df)
                )['metadata'].iloc[0]
    ctx.eq(m.status, 'FIT', 'status')
    X, b = models.design(case['model'], x, None)
    p, cost, rank = oracle.wls(X, y, w)
    if case['model'] == 'linear_nondec' and p[0] < 0:
        p1, cost, rank = oracle.wls(X[:, 1:], y, w)
        p = np.array([0, p1[0]])
    tot = 0.5 * float(((w * y) ** 2).sum())
    ctx.check(abs(m.cost - cost) <= 1e-5 * cost + 1e-9 * tot + 1e-7,
              'cost {} minimum {}', m.cost, cost)
    ctx.nontrivial(True)


FACETS = [f_opt, f_fit]
