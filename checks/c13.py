"""C13: the extrapolation grid is exact"""
import datetime
from vlib.runner import facet
from vlib import gen, models, oracle
import numpy as np
import pandas as pd
from fractions import Fraction
from hypothesis import strategies as st
from anticipy import forecast, forecast_models, model_utils

FREQS = ['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y']
MODELS = ['linear', 'constant', 'naive', 'exp', 'sigmoid', 'sigmoid_step',
          ['+', 'linear', 'wday'], None]


@st.composite
def cases(draw, freqs):
    freq = draw(st.sampled_from(freqs))
    unit = 100 if freq == 'num' else oracle.UNITS[freq[0]]
    # years as a fraction: whole periods, whole hundredths, or any
    how = draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 4]))
    if how == 0:
        ext = [draw(st.integers(0, 3 * unit)), unit]
    elif how == 1:
        ext = [draw(st.integers(0, 400)), 100]
    elif how == 2:
        ext = [draw(st.integers(0, 8)), 2]
    elif how == 4:  # decades
        ext = [draw(st.integers(16, 24 if freq == 'H' else 70)), 2]
    else:
        ext = [draw(st.integers(0, 3000)), 997]
    return dict(freq=freq, n=draw(st.integers(1, 60)), ext=ext,
                start=draw(gen.dates), x0=draw(st.integers(-50, 500)),
                xs=draw(st.one_of(st.none(), st.integers(0, 20))),
                model=draw(st.sampled_from(MODELS)),
                as_text=draw(st.sampled_from(['stamp', 'text', 'datetime'])),
                freq_none=draw(st.booleans()))


def periods(case):
    unit = 100 if case['freq'] == 'num' else oracle.UNITS[case['freq'][0]]
    f = Fraction(*case['ext']) * unit
    return int(f), f


@facet('dates', cases(FREQS), 3000,
       rule='every start date, 1 to 60 actuals and extension, per frequency; '
            'non-trivial: extended')
def f_dates(case, ctx):
    freq, n = case['freq'], case['n']
    act = gen.date_index(freq, case['start'], n)
    k, exact = periods(case)
    name = oracle.freq_name(freq, act[0])
    use = None if freq == 'W' and case['freq_none'] else name
    a, b = act[0], act[-1]
    if case['as_text'] == 'text':
        a, b = str(a.date()), str(b.date())
    elif case['as_text'] == 'datetime':
        a, b = a.to_pydatetime(), b.to_pydatetime()
    model = None if case['model'] is None else models.build(case['model'])
    kw = {} if case['xs'] is None else dict(x_start_actuals=case['xs'])
    s = ctx.got(model_utils.get_s_x_extrapolate(
        a, b, model=model, freq=use,
        extrapolate_years=case['ext'][0] / case['ext'][1], **kw))
    want = gen.date_index(freq, act[0], n + k)
    ctx.eq(list(s.index), list(want), 'dates')
    x = np.array([(d - act[0]).days for d in want]) + (case['xs'] or 0)
    div = 100. if case['model'] == 'sigmoid' else 1.
    ctx.close(s.values, x / div, 'x', 1e-12, 1e-12)
    ctx.label(freq, 'whole periods' if exact == k else 'part of a period')
    ctx.nontrivial(k > 0)


@facet('numbers', cases(['num']), 1500,
       rule='every numeric start, length and extension; non-trivial: extended')
def f_nums(case, ctx):
    k, exact = periods(case)
    a, n = case['x0'], case['n']
    model = None if case['model'] is None else models.build(case['model'])
    xs = a if case['xs'] is None else case['xs']
    s = ctx.got(model_utils.get_s_x_extrapolate(
        a, a + n - 1, model=model, freq=None, x_start_actuals=xs,
        extrapolate_years=case['ext'][0] / case['ext'][1]))
    ctx.eq(list(s.index), list(range(a, a + n + k)), 'index')
    div = 100. if case['model'] == 'sigmoid' else 1.
    ctx.close(s.values, (np.arange(n + k) + xs) / div, 'x', 1e-12, 1e-12)
    ctx.label('whole' if exact == k else 'part')
    ctx.nontrivial(k > 0)


@facet('wrong weekday', st.fixed_dictionaries(dict(
    start=gen.dates, day=st.integers(0, 6))), 150,
    rule='weekly grid of another weekday is rejected; non-trivial: another '
         'weekday')
def f_weekday(case, ctx):
    d = pd.Timestamp(case['start'])
    f = 'W-' + oracle.WD[case['day']]
    other = case['day'] != d.weekday()
    try:
        s = model_utils.get_s_x_extrapolate(d, d, freq=f,
                                            extrapolate_years=0.1)
    except AssertionError:
        ctx.check(other, 'weekday rejected')
    else:
        ctx.check(not other, 'grid of another weekday')
        ctx.eq(s.index[0], d, 'first date')
    ctx.nontrivial(other)


@facet('extrapolated models', cases(FREQS + ['num', 'num']), 500,
       rule='values of a model with given parameters over the grid; '
            'non-trivial: extended')
def f_models(case, ctx):
    freq, n = case['freq'], case['n']
    k, _ = periods(case)
    num = freq == 'num'
    expr = ['linear', ['+', 'constant', 'step'], ['*', 'linear', 'ramp'],
            'constant'][case['x0'] % 4]
    model = models.build(expr)
    act = np.arange(n) + case['x0'] if num else \
        gen.date_index(freq, case['start'], n)
    xs = case['xs'] or 0
    np_ = models.n_params(expr)
    p = np.round(gen.noise(case['n'], np_) * 20, 1)
    df = ctx.got(forecast.extrapolate_model(
        model, p, act[0], act[-1], oracle.freq_name(freq, act[0]),
        case['ext'][0] / case['ext'][1], x_start_actuals=xs))
    want = list(range(act[0], act[0] + n + k)) if num else \
        list(gen.date_index(freq, case['start'], n + k))
    ctx.eq(list(df.index), want, 'index')
    x = np.arange(n + k) if num else np.array(
        [(d - act[0]).days for d in want])
    dates = None if num else want
    ctx.close(df.y, models.ref(expr, x + xs, dates, p), 'values', 1e-9, 1e-9)
    ctx.nontrivial(k > 0)


FACETS = [f_dates, f_nums, f_weekday, f_models]
