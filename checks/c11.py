"""C11: sampling frequency is recognized from any regular series"""
from vlib.runner import facet
from vlib import gen, oracle
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, model_utils

FREQS = ['H', 'D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y']


@st.composite
def cases(draw):
    freq = draw(st.sampled_from(FREQS))
    return dict(freq=freq, n=draw(st.integers(2, 60)), start=draw(st.one_of(
        gen.dates, st.sampled_from(
            ['2016-02-28', '2019-12-31', '2020-02-29', '2011-01-01',
             '2015-01-31', '2012-03-31', '2010-10-01', '2017-01-01']))),
        hour=draw(st.sampled_from([0, 0, 0, 9, 23])) if freq in 'HDW' else 0,
        keep=draw(st.integers(0, 58)), drops=draw(st.sets(
            st.integers(0, 59), max_size=30)),
        dups=draw(st.lists(st.integers(0, 59), max_size=20)),
        order=draw(st.integers(0, 999)))


@facet('regular series', cases(), 3000,
       rule='hourly to yearly series from any date, 2 to 60 samples, with '
            'repeated, unordered and missing dates, in any container; '
            'non-trivial: three or more dates')
def f_regular(case, ctx):
    freq, n = case['freq'], case['n']
    start = pd.Timestamp(case['start']) + pd.Timedelta(hours=case['hour'])
    full = pd.date_range(start, periods=n, freq='7D' if freq == 'W' else freq)
    # two neighbours stay, other dates are lost
    k = case['keep'] % (n - 1)
    left = [d for i, d in enumerate(full)
            if i in (k, k + 1) or i not in case['drops']]
    for dates in (list(full), left):
        many = dates + [dates[i % len(dates)] for i in case['dups']]
        many = [many[i] for i in np.argsort(
            gen.noise(case['order'], len(many)))]
        got = ctx.got(model_utils.detect_freq(pd.Series(many)))
        grid = pd.date_range(min(dates), max(dates), freq=got)
        want = [d for d in full if min(dates) <= d <= max(dates)]
        ctx.eq(list(grid), want, 'dates of frequency {}'.format(got))
        if freq == 'W':
            ctx.eq(got, oracle.freq_name('W', start), 'weekly frequency')
        for d in (pd.DatetimeIndex(many), np.array(
                many, dtype='datetime64[ns]'), many, pd.Series(
                dates, index=['i'] * len(dates)), pd.DataFrame(
                dict(y=1., date=many)), pd.DataFrame(dict(date=dates, x=0))):
            ctx.eq(model_utils.detect_freq(d), got, 'frequency of {}'.format(
                type(d).__name__))
    ctx.label(freq)
    ctx.nontrivial(n > 2)


@st.composite
def other_cases(draw):
    return dict(step=draw(st.sampled_from([1, 3, 12])),
                year=draw(st.integers(1990, 2035)),
                month=draw(st.integers(1, 12)),
                day=draw(st.sampled_from([1, 1, 1, 2, 15, 28])),
                n=draw(st.integers(2, 25)))


@facet('other days', other_cases(), 300,
       rule='monthly, quarterly and yearly series on any day and from any '
            'month: called start of the period just if every date is one; '
            'non-trivial: it is not the start of a period')
def f_other(case, ctx):
    k, step = case['year'] * 12 + case['month'] - 1, case['step']
    dates = [pd.Timestamp((k + i * step) // 12, (k + i * step) % 12 + 1,
                          case['day']) for i in range(case['n'])]
    got = ctx.got(model_utils.detect_freq(pd.Series(dates)))
    name = {1: 'M', 3: 'Q', 12: 'Y'}[step]
    starts = case['day'] == 1 and (case['month'] - 1) % step == 0
    ctx.eq(got, name + 'S' if starts else name, 'frequency')
    if not starts:
        ctx.check(len(pd.date_range(dates[0], dates[-1], freq=got)) in (
            case['n'], case['n'] - 1), 'dates of frequency {}', got)
    ctx.label(name)
    ctx.nontrivial(not starts)


@st.composite
def few_cases(draw):
    return dict(start=draw(gen.dates), n=draw(st.integers(0, 5)),
                minutes=draw(st.sampled_from([1, 15, 30, 120, 360, 720,
                                              1200])))


@facet('no frequency', few_cases(), 150,
       rule='no date, one date any number of times, tables without dates; '
            'non-trivial: repeated dates')
def f_none(case, ctx):
    d = pd.Series([pd.Timestamp(case['start'])] * case['n'],
                  dtype='datetime64[ns]')
    ctx.eq(model_utils.detect_freq(d), None, 'frequency of one date')
    ctx.eq(model_utils.detect_freq(pd.DataFrame(dict(date=d))), None,
           'frequency of table with one date')
    ctx.eq(model_utils.detect_freq(pd.DataFrame(
        dict(x=np.arange(case['n']), y=1.))), None, 'frequency without dates')
    # other intervals: no frequency, rather than one with other dates
    d = pd.Series(pd.date_range(
        case['start'], periods=case['n'] + 2,
        freq='{}min'.format(case['minutes'])))
    got = model_utils.detect_freq(d)
    ctx.check(got is None or list(pd.date_range(
        d.min(), d.max(), freq=got)) == list(d), 'frequency {} of samples '
        'every {} minutes', got, case['minutes'])
    ctx.nontrivial(case['n'] > 1)


@st.composite
def zone_cases(draw):
    return dict(start=draw(gen.dates), n=draw(st.integers(2, 400)),
                tz=draw(st.sampled_from(
                    ['UTC', 'Europe/London', 'US/Eastern', 'Asia/Tokyo'])),
                freq=draw(st.sampled_from(['D', 'D', 'MS', 'M', 'YS'])))


@facet('time zones', zone_cases(), 200,
       rule='local midnights of daily to yearly series, over clock changes; '
            'non-trivial: zones with clock changes')
def f_zones(case, ctx):
    n = min(case['n'], 400 if case['freq'] == 'D' else 30)
    d = pd.date_range(case['start'], periods=n, freq=case['freq'])
    want = model_utils.detect_freq(d)
    got = model_utils.detect_freq(pd.Series(d.tz_localize(case['tz'])))
    if case['freq'] == 'D':
        ctx.eq(got, 'D', 'daily frequency in zone ' + case['tz'])
    elif case['tz'] in ('UTC', 'Asia/Tokyo'):
        ctx.eq(got, want, 'frequency in zone ' + case['tz'])
    ctx.nontrivial('/' in case['tz'])


@st.composite
def fc_cases(draw):
    s = draw(gen.series(['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y'], n_min=3,
                        n_max=24, season=False, weights=False))
    return dict(s=s, name=draw(st.sampled_from(['date', 'index'])))


@facet('forecasts', fc_cases(), 100,
       rule='frequency reported and used by a forecast; non-trivial: fitted')
def f_forecast(case, ctx):
    s = case['s']
    df = gen.build(s)
    if not oracle.usable(s, df) or gen.n_valid(df) < 3:
        ctx.skip()
    from vlib import run
    want = model_utils.detect_freq(df.date)
    d = df.set_index('date') if case['name'] == 'index' else df
    r = ctx.got(run.run(d, trend=['constant'], season=[], naive=[],
                        extrapolate_years=2))
    ctx.eq(set(r['metadata'].freq), {want}, 'frequency of metadata')
    f = oracle.fcast_rows(r['forecast'])
    ctx.eq(list(f.date), oracle.expected_grid(s, df, 2), 'forecast dates')
    ctx.nontrivial(True)


FACETS = [f_regular, f_other, f_none, f_zones, f_forecast]
