"""C20: automatic seasonality depends only on span and sampling"""
from vlib.runner import facet
from vlib import gen, models, run
import datetime
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

DAY = pd.Timedelta(days=1)
FORMS = ['series', 'index', 'array', 'list', 'other index']


def n_days(td):
    return td / DAY


def reference(dates, add_mult, yearly=None, weekly=None, min_periods=1.5):
    """Names of the candidates: the rules of the documentation"""
    u = sorted(set(dates))
    if len(u) < 2:
        return ['null']
    span = n_days(u[-1] - u[0])
    step = min(n_days(b - a) for a, b in zip(u, u[1:]))
    no = [fm.model_null]
    if not (span > min_periods * 365 and step <= 92):
        ys = no
    elif yearly is None:
        ys = [fm.model_season_fourier_yearly] + no
    else:
        ys = yearly or no
    if not (span > min_periods * 7 and step <= 1):
        ws = no
    elif weekly is None:
        ws = [fm.model_season_wday] + no
    else:
        ws = weekly or no
    out = {'null'}
    for w in ws:
        for y in ys:
            if 'null' in (w.name, y.name):
                out |= {w.name, y.name}
            else:
                out.add('({}{}{})'.format(
                    w.name, '+' if add_mult == 'add' else '*', y.name))
    return sorted(out)


@st.composite
def date_specs(draw):
    k = draw(st.integers(0, 3))
    start = draw(gen.dates)
    if k == 0:  # near the weekly limit
        step = draw(st.sampled_from([6, 12, 24, 24, 25, 36, 48]))
        span = draw(st.sampled_from([240, 246, 252, 258, 264, 288, 168]))
        n = span // step + 1
    elif k == 1:  # near the yearly limit of 547.5 days
        step = draw(st.sampled_from([24, 24, 48, 7 * 24, 30 * 24, 91 * 24,
                                     92 * 24, 93 * 24, 365 * 24]))
        days = draw(st.sampled_from([545, 547, 548, 549, 560, 365, 730]))
        n = max(2, days * 24 // step + draw(st.integers(0, 1)))
        if n > 900:
            n = 900
    else:
        step = draw(st.sampled_from([1, 6, 24, 24, 48, 168, 720, 2208, 2232]))
        n = draw(st.integers(1, 40))
    s = dict(start=start, step=step, n=n,
             order=draw(st.sampled_from(['in order', 'reversed', 'shuffled'])),
             seed=draw(st.integers(0, 99)),
             form=draw(st.sampled_from(FORMS)),
             repeat=draw(st.lists(st.integers(0, n - 1), max_size=3)))
    if draw(st.booleans()):
        s['drop'] = draw(st.lists(st.integers(0, max(0, n - 1)), max_size=4))
    if draw(st.integers(0, 3)) == 0:
        s['last'] = draw(st.integers(-24, 24))  # shift of the last, in hours
    return s


def build_dates(s):
    h = np.arange(s['n']) * s['step']
    if s.get('last') and s['n'] > 1:
        h[-1] = max(h[-2] + 1, h[-1] + s['last'])
    keep = [v for i, v in enumerate(h) if i not in (s.get('drop') or [])]
    h = np.array((keep or [0]) + [h[i] for i in s['repeat']
                                  if h[i] in keep])
    if s['order'] == 'reversed':
        h = h[::-1]
    elif s['order'] == 'shuffled':
        h = h[np.argsort(gen.noise(s['seed'], len(h)), kind='stable')]
    return pd.DatetimeIndex([pd.Timestamp(s['start']) + pd.Timedelta(
        hours=int(v)) for v in h])


def as_form(d, form):
    if form == 'index':
        return d
    if form == 'array':
        return d.values
    if form == 'list':
        return list(d)
    if form == 'other index':
        return pd.Series(d, index=np.arange(len(d))[::-1] * 3)
    return pd.Series(d)


WEEKLY = ['wday', 'wday2', ['+', 'wday2', 'xmas'], 'null']
YEARLY = ['month', 'fourier', ['*', 'cal_uk', 'xmas'], 'null']


def lists(names):
    return st.one_of(st.none(), st.lists(
        st.sampled_from(names), max_size=3, unique_by=str))


@facet('rules', st.fixed_dictionaries(dict(
    d=date_specs(), op=st.sampled_from(['add', 'mult']),
    weekly=lists(WEEKLY), yearly=lists(YEARLY),
    periods=st.sampled_from([None, None, None, 1.5, 1, 2, 0.5]))), 1500,
    rule='date sets around the limits of span and interval, in any order and '
         'repeated, in 5 forms, with default or given candidates; '
         'non-trivial: some seasonality applies')
def f_rules(case, ctx):
    d = build_dates(case['d'])
    weekly, yearly = [None if v is None else [models.build(e) for e in v]
                      for v in (case['weekly'], case['yearly'])]
    before = [None if v is None else [m.name for m in v]
              for v in (weekly, yearly)]
    kw = dict(season_add_mult=case['op'])
    if yearly is not None:
        kw['l_season_yearly'] = yearly
    if weekly is not None:
        kw['l_season_weekly'] = weekly
    if case['periods'] is not None:
        kw['min_periods'] = case['periods']
    got = ctx.got(fm.get_l_model_auto_season(
        as_form(d, case['d']['form']), **kw))
    names = [m.name for m in got]
    want = reference(d, case['op'], yearly, weekly, case['periods'] or 1.5)
    ctx.eq(names, want, 'candidates')
    ctx.eq([None if v is None else [m.name for m in v]
            for v in (weekly, yearly)], before, 'given lists')
    # they evaluate as the composition of their parts
    parts = {m.name: m for m in (weekly or []) + (yearly or []) + [
        fm.model_season_wday, fm.model_season_fourier_yearly]}
    dd = pd.date_range('2019-12-20', periods=30)
    for m in got:
        if m.name in parts or m.name == 'null':
            ctx.eq(m.n_params, parts[m.name].n_params
                   if m.name in parts else 0, 'parameters')
            continue
        for a in parts.values():
            for b in parts.values():
                c = a + b if case['op'] == 'add' else a * b
                if c.name == m.name:
                    p = gen.noise(5, c.n_params)
                    x = np.arange(30.)
                    ctx.close(m(x, dd, p), c(x, dd, p), m.name, 0, 0)
    ctx.label(case['op'], '{} candidates'.format(len(want)))
    ctx.nontrivial(len(want) > 1)


# Candidates of whole forecasts

@st.composite
def fc_specs(draw):
    freq, n = draw(st.sampled_from(
        [('D', 10), ('D', 11), ('D', 12), ('D', 30),
         ('W', 78), ('W', 79), ('W', 80), ('W', 105), ('W', 106), ('W', 107),
         ('MS', 18), ('MS', 19), ('MS', 20), ('MS', 24), ('MS', 25),
         ('MS', 26), ('MS', 40), ('QS', 6), ('QS', 7), ('QS', 8), ('QS', 9),
         ('QS', 10), ('QS', 12), ('YS', 3), ('YS', 5), ('num', 30),
         ('D', 366), ('D', 367)]))
    c = dict(freq=freq, n=n, start=draw(gen.dates),
             op=draw(st.sampled_from(['add', 'mult', 'both'])),
             seed=draw(st.integers(0, 999)))
    if freq not in ('D', 'W', 'num'):
        c['start'] = c['start'][:8] + '01'
    if draw(st.integers(0, 2)) == 0:
        c['zero'] = draw(st.lists(st.sampled_from(
            [0, 1, n - 1, n - 2, n // 2]), min_size=1, max_size=3,
            unique=True))
    c['trend'] = draw(st.sampled_from(
        [None, ['linear'], ['linear', 'constant']])) \
        if n < 300 else ['linear']
    c['weekly'] = draw(st.sampled_from([None, [], ['wday'], ['wday2'],
                                        ['wday2', 'null']]))
    c['yearly'] = draw(st.sampled_from([[], [], ['xmas'], ['mstart'],
                                        ['mstart', 'null']])) \
        if draw(st.integers(0, 5)) or n > 100 else None
    c['season'] = draw(st.sampled_from([None, None, None, ['wday2'],
                                        ['mstart', 'null'], []]))
    if n > 300:
        c['weekly'], c['yearly'] = [], draw(st.sampled_from([[], ['xmas']]))
        c['calendar'] = draw(st.sampled_from([['cal_uk'], ['cal_us'],
                                              ['xmas', 'null']]))
    elif draw(st.integers(0, 3)) == 0:
        c['calendar'] = ['cal_uk']
    c['naive'] = draw(st.sampled_from([None, None, [], ['naive']]))
    if freq == 'num':
        c['weekly'] = c['yearly'] = None
        c['season'] = None
    return c


def join(a, b, op):
    if a == 'null':
        return b
    if b == 'null':
        return a
    return '({}{}{})'.format(a, op, b)


@facet('forecasts', fc_specs(), 220, 1500,
       rule='forecasts of series with spans around the limits of seasonality, '
            'ramps and calendars (zero weights do not count), with the '
            'candidates reported in the metadata; non-trivial: more than one '
            'regression candidate or a limit within two samples')
def f_forecasts(case, ctx):
    n = case['n']
    i = np.arange(n)
    df = pd.DataFrame(dict(y=50. + i * 0.5 + gen.noise(case['seed'], n)))
    if case['freq'] == 'num':
        df['x'] = i
    else:
        df['date'] = gen.date_index(case['freq'], case['start'], n)[:n]
    if case.get('zero'):
        df['weight'] = 1.
        df.loc[case['zero'], 'weight'] = 0.
    used = df.loc[df.weight > 0] if 'weight' in df else df
    if case['freq'] == 'num':
        span, step = 0, 1e9
    else:
        span = n_days(used.date.max() - used.date.min())
        step = n_days(used.date.diff().min())
    opts = dict(season_add_mult=case['op'], include_all_fits=True,
                extrapolate_years=0.)
    for k, name in (('trend', 'trend'), ('weekly', 'season_weekly'),
                    ('yearly', 'season_yearly'), ('season', 'season'),
                    ('calendar', 'calendar'), ('naive', 'naive')):
        if case.get(k) is not None:
            opts[name] = case[k]
    out = ctx.got(run.run(df, **opts))
    got = list(out['metadata'].model)
    trend = ['linear'] if case['trend'] is None else case['trend']
    if case['trend'] is None and span > 2 * 365:
        trend = ['linear', '(linear+ramp)']
    want = set()
    for op, s in (('add', '+'), ('mult', '*')):
        if case['op'] not in (op, 'both'):
            continue
        if case['season'] is not None:
            season = [models.build(e).name for e in case['season']]
        elif case['freq'] == 'num':
            season = []
        else:
            season = reference(
                used.date, op, *[None if case[k] is None else [
                    models.build(e) for e in case[k]]
                    for k in ('yearly', 'weekly')])
        names = {join(t, v, s) for t in trend for v in season or ['null']}
        if case.get('calendar') and span > 365 and step <= 1:
            cal = [models.build(e).name for e in case['calendar']]
            names = {join(t, v, s) for t in names for v in cal}
        want |= names
    n_reg = len(want)
    if case['naive'] is None:
        want.add('snaive_wday' if case['freq'] == 'D' else 'naive')
    else:
        want |= set(case['naive'])
    # names of simplified models have a suffix
    got2 = [g for g in got]
    ctx.eq(len(set(got2)), len(got2), 'repeated candidates')
    ctx.eq(sorted(got2), sorted(want), 'candidates')
    ctx.label(case['freq'], case['op'])
    ctx.nontrivial(n_reg > 1 or any(
        abs(span - lim) <= 2 * max(1, min(step, 31))
        for lim in (10.5, 365, 547.5, 730)))


@st.composite
def list_cases(draw):
    names = st.sampled_from(['linear', 'constant', 'ramp', 'wday', 'month',
                             'null', ['+', 'linear', 'ramp']])
    return dict(trend=draw(st.one_of(st.none(), st.lists(names, max_size=4))),
                season=draw(st.one_of(st.none(), st.lists(
                    names, max_size=4))),
                op=draw(st.sampled_from(['add', 'mult', 'both'])))


@facet('combinations', list_cases(), 400,
       rule='get_list_model on lists of trend and seasonality models, with '
            'repetitions; non-trivial: both lists have two entries or more')
def f_lists(case, ctx):
    tr, se = case['trend'], case['season']
    if not tr and not se:
        ctx.skip()
    a, b = [None if v is None else [models.build(e) for e in v]
            for v in (tr, se)]
    got = [m.name for m in ctx.got(forecast.get_list_model(a, b, case['op']))]
    na, nb = [m.name for m in a or []], [m.name for m in b or []]
    if not na or not nb:
        want = set(na or nb)
    else:
        want = set()
        for op, s in (('add', '+'), ('mult', '*')):
            if case['op'] in (op, 'both'):
                want |= {join(p, q, s) for p in na for q in nb}
    ctx.eq(sorted(got), sorted(want), 'combinations')
    ctx.nontrivial(len(na) > 1 and len(nb) > 1)


FACETS = [f_rules, f_forecasts, f_lists]
