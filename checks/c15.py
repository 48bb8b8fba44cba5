"""C15: each model computes its documented formula"""
from vlib.runner import facet
from vlib import gen, mgen, models
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

ALL = mgen.UNDATED + mgen.DATED + ['null']


@st.composite
def cases(draw):
    return dict(expr=draw(st.one_of(
        st.sampled_from(ALL), st.sampled_from(ALL),
        mgen.generated_leaf())), pts=draw(mgen.points(n_max=60)),
        seed=draw(st.integers(0, 9999)), sub=draw(st.lists(
            st.integers(0, 59), min_size=1, max_size=30)),
        zero=draw(st.integers(0, 9)), at=draw(st.integers(0, 59)))


@facet('formulas', cases(), 4000,
       rule='every predefined and generated model alone, additive and '
            'multiplicative, at any dates and parameters, and at any choice '
            'of these dates; non-trivial: a value is not constant over the '
            'points')
def f_formulas(case, ctx):
    expr = case['expr']
    m = models.build(expr)
    x, date = mgen.build_points(case['pts'])
    p = mgen.pick_params(expr, case['seed'])
    if case['zero'] == 0 and expr not in ('quasilinear', 'exp'):
        p = p * 0
    if expr in ('step', 'two_steps', 'ramp') and case['zero'] % 2:
        p[0] = x[case['at'] % len(x)]  # the step is at a sample
    ctx.eq(m.n_params, len(p), 'number of parameters')
    vary = False
    for is_mult in (False, True):
        want = models.ref(expr, x, date, p, is_mult)
        y = ctx.got(m(x, date, p, is_mult=is_mult))
        if expr != 'null':
            ctx.eq(np.shape(y), x.shape, 'shape of ' + m.name)
        y = np.broadcast_to(np.asarray(y, dtype=float), x.shape)
        ctx.check(np.isfinite(y).all(), 'value that is not finite')
        ctx.close(y, want, '{} {}'.format(
            m.name, 'product' if is_mult else 'sum'), 1e-9,
            mgen.scale_of(want))
        # the model is a function of the point
        i = np.array(case['sub']) % len(x)
        z = np.broadcast_to(np.asarray(m(
            x[i], date[i], p, is_mult=is_mult), dtype=float), i.shape)
        ctx.close(z, y[i], m.name + ': other points', 1e-12,
                  mgen.scale_of(want))
        vary |= bool(np.ptp(y) > 0)
        # parameters of other types
        w = np.broadcast_to(np.asarray(m(
            x, date, list(p), is_mult=is_mult), dtype=float), x.shape)
        ctx.close(w, y, m.name + ': parameter list', 0, 0)
    default = np.broadcast_to(np.asarray(m(x, date, p), dtype=float), x.shape)
    ctx.close(default, models.ref(expr, x, date, p, False),
              'default is additive', 1e-9, mgen.scale_of(default))
    if not models.dated(expr):
        y = np.broadcast_to(np.asarray(m(x, None, p), dtype=float), x.shape)
        ctx.close(y, default, 'without dates', 0, 0)
    ctx.label(expr if isinstance(expr, str) else expr[0])
    ctx.nontrivial(vary)


@st.composite
def period_cases(draw):
    return dict(leaf=draw(st.sampled_from(
        ['wday', 'wday2', 'month', 'fourier'])), seed=draw(
            st.integers(0, 9999)), start=draw(gen.dates),
        k=draw(st.integers(1, 30)))


@facet('periods', period_cases(), 300,
       rule='seasonal models repeat with their period over decades; '
            'non-trivial: any')
def f_periods(case, ctx):
    m = models.build(case['leaf'])
    p = mgen.pick_params(case['leaf'], case['seed'])
    a = pd.date_range(case['start'], periods=400)
    x = np.arange(400.)
    if case['leaf'] in ('wday', 'wday2'):
        b = a + pd.Timedelta(days=7 * case['k'])
    elif case['leaf'] == 'month':
        b = a + pd.DateOffset(years=case['k'] % 20)
    else:
        b = a + pd.Timedelta(days=1461 * case['k'])  # 4 years of 365.25 days
    for is_mult in (False, True):
        ya, yb = [m(x, d, p, is_mult=is_mult) for d in (a, b)]
        ctx.close(ya, yb, case['leaf'], 1e-7, 1e-6)
    ctx.nontrivial(True)


@st.composite
def extra_cases(draw):
    return dict(base=draw(st.sampled_from(
        ['linear', 'constant', 'ramp', 'step'])), pts=draw(mgen.points()),
        seed=draw(st.integers(0, 999)))


@facet('extrapolation', extra_cases(), 150,
       rule='models evaluated by the forecast beyond the actuals; '
            'non-trivial: any')
def f_extra(case, ctx):
    m = models.build(case['base'])
    p = mgen.pick_params(case['base'], case['seed'])
    start = pd.Timestamp(case['pts']['start'])
    n = len(case['pts']['off'])
    end = start + pd.Timedelta(days=n)
    df = ctx.got(forecast.extrapolate_model(
        m, p, start, end, 'D', 0.1, x_start_actuals=case['pts']['x0']))
    x = np.arange(len(df), dtype=float) + case['pts']['x0']
    ctx.close(df.y, models.ref(case['base'], x, df.index, p), 'values', 1e-9,
              1e-9)
    # without actuals, naive models are an error
    for name in ('naive', 'snaive'):
        try:
            models.build(name)(x, df.index, [])
        except ValueError:
            pass
        else:
            ctx.fail(name + ' without actuals')
    ctx.nontrivial(True)


FACETS = [f_formulas, f_periods, f_extra]
ASSUMPTIONS = ['parameters for which the formula is finite',
               'multiplicative dummy and calendar models are 1 + A on their '
               'dates, as the tests of the repository fix it']
