"""C30: fixing parameters equals substituting them"""
from vlib.runner import facet
from vlib import cmp, gen, mgen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm


def ev(m, x, date, p, **kw):
    return np.broadcast_to(np.asarray(m(x, date, p, **kw), dtype=float),
                           x.shape)


@st.composite
def cases(draw):
    expr = draw(mgen.exprs(max_leaves=3, null=False))
    return dict(expr=expr, mask=draw(st.lists(st.booleans(), min_size=1,
                                              max_size=9)),
                pts=draw(mgen.points()), seed=draw(st.integers(0, 9999)),
                other=draw(mgen.leaf(null=False)),
                op=draw(st.sampled_from('+*')), left=draw(st.booleans()))


@facet('fixed models', cases(), 1300,
       rule='models and compositions with any subset of parameters fixed, '
            'alone and within sums and products; non-trivial: some, but not '
            'all parameters are fixed')
def f_fixed(case, ctx):
    m = models.build(case['expr'])
    x, date = mgen.build_points(case['pts'])
    full = mgen.pick_params(case['expr'], case['seed'])
    k = m.n_params
    fix = np.array([case['mask'][i % len(case['mask'])] for i in range(k)],
                   dtype=bool)
    spec = [full[i] if fix[i] else (None if case['seed'] % 2 else np.nan)
            for i in range(k)]
    spec = [np.nan if s is None else s for s in spec]
    spec0 = list(spec)
    f = ctx.got(fm.fix_params_fmodel(m, spec))
    ctx.eq(f.n_params, int((~fix).sum()), 'number of parameters')
    ctx.check(f.name.startswith(m.name + '_fixed'), 'name {}', f.name)
    p1 = full[~fix]
    p2 = mgen.pick_params(case['expr'], case['seed'] + 7)[~fix]
    full2 = full.copy()
    full2[~fix] = p2
    for is_mult in (False, True):
        want1 = models.ref(case['expr'], x, date, full, is_mult)
        want2 = models.ref(case['expr'], x, date, full2, is_mult)
        e = mgen.scale_of(want1) + mgen.scale_of(want2)
        got1 = f(x, date, p1, is_mult=is_mult)
        got2 = f(x, date, p2, is_mult=is_mult)
        again = f(x, date, p1, is_mult=is_mult)
        # results of earlier evaluations stay
        ctx.close(got1, want1, 'value', 1e-9, e)
        ctx.close(got2, want2, 'value for other parameters', 1e-9, e)
        ctx.close(again, want1, 'value of repeated evaluation', 1e-9, e)
        c = f.init_cache(x, date)
        ctx.close(ev(f, x, date, p1, is_mult=is_mult, **c), want1,
                  'value with cache', 1e-9, e)
    ctx.check(np.array_equal(spec, spec0, equal_nan=True),
              'list of fixed parameters was modified')
    # bounds and guesses of the remaining parameters
    n = 40
    xs, ys = np.arange(float(n)), 50 + 9 * gen.noise(case['seed'], n)
    lo, hi = m.f_bounds(xs, ys)
    flo, fhi = f.f_bounds(xs, ys)
    ctx.close(flo, np.asarray(lo, dtype=float)[~fix], 'lower bounds', 0, 0)
    ctx.close(fhi, np.asarray(hi, dtype=float)[~fix], 'upper bounds', 0, 0)
    days = pd.DatetimeIndex(date[0] + pd.to_timedelta(np.arange(n) * (
        1 + case['seed'] % 11), 'D'))
    for a_date, kw in ((None, {}), (days, {}), (days, dict(is_mult=True)),
                       (days, dict(is_mult=False))):
        if a_date is None and models.dated(case['expr']):
            continue
        np.random.seed(case['seed'])
        g = np.asarray(m.f_init_params(xs, ys, a_date, **kw), dtype=float)
        np.random.seed(case['seed'])
        ctx.close(f.f_init_params(xs, ys, a_date, **kw), g[~fix], 'guess', 0,
                  0)
    # composition
    o = models.build(case['other'])
    po = mgen.pick_params(case['other'], case['seed'] + 3)
    a, b = (f, o) if case['left'] else (o, f)
    pa, pb = (p1, po) if case['left'] else (po, p1)
    ea, eb = (case['expr'], case['other']) if case['left'] else (
        case['other'], case['expr'])
    fa, fb = (full, po) if case['left'] else (po, full)
    comp = a + b if case['op'] == '+' else a * b
    want = models.ref([case['op'], ea, eb], x, date, np.concatenate([fa, fb]))
    got = ev(comp, x, date, np.concatenate([pa, pb]),
             **comp.init_cache(x, date))
    va = np.abs(models.ref(ea, x, date, fa, case['op'] == '*')).max()
    ctx.close(got, want, 'value of composition', 1e-9,
              mgen.scale_of(want) + 1e-9 * va)
    # all parameters fixed
    if case['expr'] != 'null':
        g = fm.get_fixed_model(m, list(full))
        ctx.eq(g.n_params, 0, 'parameters of fixed model')
        ctx.close(ev(g, x, date, []), models.ref(
            case['expr'], x, date, full), 'value of fixed model', 1e-9,
            mgen.scale_of(want1))
        try:
            fm.get_fixed_model(m, list(full) + [1.])
        except ValueError:
            pass
        else:
            if k:
                ctx.fail('wrong number of fixed parameters is accepted')
    ctx.nontrivial(0 < fix.sum() < k)


@st.composite
def bound_cases(draw):
    s = draw(gen.series(['D', 'W', 'num'], n_min=10, n_max=30, noisy=True,
                        scale=False))
    return dict(s=s, base=draw(st.sampled_from(
        ['linear', 'constant', ['+', 'linear', 'step_date'], 'linear3'])),
        which=draw(st.sampled_from([[0], [1], [0, 1], []])),
        vals=draw(st.lists(st.integers(-20, 20).map(float), min_size=2,
                           max_size=2)),
        seed=draw(st.integers(0, 999)), years=draw(st.sampled_from([0, .2])),
        other=draw(st.sampled_from([None, 'constant', 'ramp'])))


def bounded(which, vals):
    """Linear model whose bounds leave some parameters one value"""
    lo, hi = [-np.inf] * 2, [np.inf] * 2
    for i in which:
        lo[i] = hi[i] = vals[i]

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        p = [0.5, 0.5] if a_y is None else [0.5, float(np.mean(a_y))]
        return np.array([lo[i] if lo[i] == hi[i] else p[i]
                         for i in range(2)])
    return fm.ForecastModel(
        'lin', 2, lambda a_x, a_date, params, is_mult=False, **kw:
        params[0] * a_x + params[1], f_init,
        lambda a_x=None, a_y=None, a_date=None: (lo, hi))


@facet('equal bounds', bound_cases(), 260,
       rule='linear models whose bounds leave one or both parameters a '
            'single value, alone and in a sum, fitted and forecast; '
            'non-trivial: one of two parameters')
def f_bounds(case, ctx):
    df = gen.build(case['s'])
    if not oracle.usable(case['s'], df) or gen.n_valid(df) < 6:
        ctx.skip()
    which, vals = case['which'], case['vals']
    m = bounded(which, vals)
    if case['other'] == 'constant' and 1 in which:
        m = m + fm.model_constant
    np.random.seed(case['seed'])
    res = ctx.got(forecast.run_forecast(
        df, [m], [], l_model_naive=[], extrapolate_years=case['years'],
        simplify_output=False, include_all_fits=True))
    meta = res['metadata'].iloc[0]
    ctx.check(bool(meta.is_fit), 'not fitted: {}', meta.status)
    col = 'x' if case['s']['freq'] == 'num' else 'date'
    d, w = oracle.effective_weights(df, col)
    x = d.x.values.astype(float) if col == 'x' else None
    f = oracle.fcast_rows(res['forecast'])
    if col == 'date':
        allx = oracle.norm_x(pd.concat([df.date, f.date]))
        x = pd.Series(allx[:len(df)], index=df.index).loc[d.index].values
        fx = allx[len(df):]
    else:
        fx = f.date.values.astype(float)
    y = d.y.values
    X = np.column_stack([x, np.ones(len(x))])
    F = np.column_stack([fx, np.ones(len(fx))])
    free = [i for i in range(2) if i not in which]
    if case['other'] == 'constant' and 1 in which:
        free = sorted(set(free) | {1})
        off = vals[1]
        base = np.array([0. if i in free else vals[i] for i in range(2)])
        base[1] = off
    else:
        base = np.array([0. if i in free else vals[i] for i in range(2)])
    fix_y, fix_f = X @ base, F @ base
    if free:
        b, _, rank = oracle.wls(X[:, free], y - fix_y, w)
        want, fit = fix_f + F[:, free] @ b, fix_y + X[:, free] @ b
    else:
        want, fit = fix_f, fix_y
    amp = np.abs(y).max() + np.abs(want).max() + 1e-6
    ctx.close(f.y.values, want, 'forecast', 1e-4, 1e-4 * amp)
    cost = 0.5 * float(((w * (y - fit)) ** 2).sum())
    ctx.close(meta.cost, cost, 'cost', 1e-4, 1e-6 * amp ** 2)
    ctx.close(f.y.values, ev(meta.model_obj, fx.astype(float), pd.DatetimeIndex(
        f.date) if col == 'date' else None, meta.params), 'model', 1e-9,
        1e-9 * amp)
    ctx.label('{} fixed'.format(len(which)))
    ctx.nontrivial(len(which) == 1)


@st.composite
def narrow_cases(draw):
    return dict(n=draw(st.integers(6, 30)), seed=draw(st.integers(0, 999)),
                slope=draw(st.integers(-9, 9)), base=draw(
                    st.integers(-20, 20)),
                at=draw(st.sampled_from([0.2, 0.5, 0.9])),
                width=draw(st.sampled_from([1e-4, 1e-3, 8e-3, 0.05, 0.5])),
                which=draw(st.sampled_from([0, 1])),
                off=draw(st.sampled_from([0., 0.3, -0.4, 3., -5.])))


@facet('narrow bounds', narrow_cases(), 200,
       rule='linear model with one parameter in a narrow interval that '
            'contains more than one value: the parameter is fitted, within '
            'the interval, to the constrained optimum; non-trivial: optimum '
            'inside of the interval')
def f_narrow(case, ctx):
    n, i, width = case['n'], case['which'], case['width']
    x = np.arange(float(n))
    y = case['slope'] * x + case['base'] + gen.noise(case['seed'], n)
    X = np.column_stack([x, np.ones(n)])
    best = np.linalg.lstsq(X, y, rcond=None)[0]
    lo, hi = np.array([-np.inf] * 2), np.array([np.inf] * 2)
    # the best value is at off times the width from the middle
    mid = best[i] - case['off'] * width
    lo[i], hi[i] = mid - width / 2, mid + width / 2

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        p = np.array([1., 1.])
        p[i] = lo[i] + case['at'] * width
        return p
    m = fm.ForecastModel(
        'nar', 2, lambda a_x, a_date, params, is_mult=False, **kw:
        params[0] * a_x + params[1], f_init,
        lambda a_x=None, a_y=None, a_date=None: (list(lo), list(hi)))
    s = fm.simplify_model(m, x, y)
    ctx.eq(s.n_params, 2, 'parameters of model with non-empty intervals')
    r = ctx.got(forecast.fit_model(m, pd.DataFrame(dict(x=x, y=y))))[
        'metadata'].iloc[0]
    ctx.check(bool(r.is_fit), 'not fitted: {}', r.status)
    ctx.eq(len(r.params), 2, 'parameters')
    ctx.check(lo[i] <= r.params[i] <= hi[i], 'parameter {} out of {}',
              r.params[i], (lo[i], hi[i]))
    want = best.copy()
    if not lo[i] <= best[i] <= hi[i]:
        want[i] = min(max(best[i], lo[i]), hi[i])
        j = 1 - i
        want[j] = np.linalg.lstsq(X[:, [j]], y - X[:, i] * want[i],
                                  rcond=None)[0][0]
    cost, start = [0.5 * float(((y - X @ p) ** 2).sum()) for p in (
        want, f_init())]
    ctx.close(r.cost, 0.5 * float(((y - X @ r.params) ** 2).sum()), 'cost',
              1e-9, 1e-9)
    # bounds are approached by steps into the interior
    ctx.check(r.cost <= cost * (1 + 1e-4) + 1e-6 + 1e-3 * (start - cost),
              'cost {}, {} at the optimum, parameter {} of {}', r.cost, cost,
              r.params[i], (lo[i], hi[i]))
    ctx.nontrivial(abs(case['off']) < 0.5)


@st.composite
def step_cases(draw):
    return dict(pts=draw(mgen.points()), diff=draw(st.integers(-9, 9)),
                x=draw(st.integers(0, 30)), dur=draw(st.integers(1, 9)))


@facet('fixed steps', step_cases(), 300,
       rule='step models with fixed position and size; non-trivial: any')
def f_steps(case, ctx):
    x, date = mgen.build_points(case['pts'])
    m = ctx.got(fm.create_fixed_step(float(case['diff']), case['x']))
    ctx.eq(m.n_params, 0, 'parameters')
    want = np.where(x >= case['x'], float(case['diff']), 0.)
    ctx.close(ev(m, x, date, []), want, 'fixed step', 0, 0)
    c = m + fm.model_constant
    ctx.close(ev(c, x, date, [3.]), want + 3., 'sum with fixed step', 0, 0)
    c = fm.model_constant * m
    ctx.close(ev(c, x, date, [3.]), np.where(
        x >= case['x'], 3. * case['diff'], 3.), 'product', 0, 1e-12)
    n = len(x)
    pos = np.arange(n)
    a, b = case['x'], case['x'] + case['dur']
    if b <= n:
        s = fm.create_fixed_spike(float(case['diff']), a, case['dur'])
        on = (pos >= a) & (pos < b)
        ctx.close(ev(s, x, date, []), on * float(case['diff']),
                  'fixed spike', 0, 0)
        s = fm.create_fixed_spike_ignored(a, case['dur'])
        ctx.close(ev(fm.model_linear * s, x, date, [2., 1.]),
                  np.where(on, 0., 2 * x + 1), 'ignored spike', 0, 0)
    ctx.nontrivial(True)


FACETS = [f_fixed, f_bounds, f_narrow, f_steps]
SCALE = 1.5
ASSUMPTIONS = ['parameters of moderate size']
