"""C19: calendar and date models mark exactly the right days"""
import datetime

from vlib.runner import facet
from vlib import gen, models, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pandas.tseries.holiday import AbstractHolidayCalendar, Holiday, \
    next_monday, nearest_workday, previous_friday
from pandas.tseries.offsets import DateOffset
from dateutil.relativedelta import MO, TH, SU
from anticipy import forecast_models as fm

ASSUMPTIONS = ['holidays are those of the published rules (moveable feasts by '
               'the Gregorian computus), without one-off decrees']
EXTRA = {'cal_uk': [('uk_xmas', fm.CalendarChristmasUK),
                    ('uk_bank', fm.CalendarBankHolUK)],
         'cal_ita': [('ita_xmas', fm.CalendarChristmasIta),
                     ('ita_bank', fm.CalendarBankHolIta)]}


def marks(ctx, m, x, date, n, is_mult=False, cache=False):
    """Mask of each parameter of a model"""
    kw = m.init_cache(x, date) if cache else {}
    out = []
    for i in range(n):
        p = np.zeros(n)
        p[i] = 1.
        v = ctx.got(m(x, date, p, is_mult, **kw))
        v = np.broadcast_to(np.asarray(v, dtype=float), np.shape(x))
        out.append(v - 1. if is_mult else v)
    return out


def compare(ctx, got, want, date, what):
    for i, (g, w) in enumerate(zip(got, want)):
        bad = np.nonzero(np.asarray(g) != np.asarray(w))[0]
        if len(bad):
            ctx.fail('{}, parameter {}: {} should be {}, is {}', what, i,
                     date[bad[0]] if date is not None else bad[0],
                     w[bad[0]], g[bad[0]])


@st.composite
def year_cases(draw):
    return dict(cal=draw(st.sampled_from(sorted(models.CALS))),
                year=draw(st.integers(1980, 2060)),
                is_mult=draw(st.booleans()), cache=draw(st.booleans()))


@facet('years', year_cases(), 600,
       rule='every day of one year from 1980 to 2060 under one of the '
            'country models; all are non-trivial')
def f_years(case, ctx):
    date = pd.date_range('{}-01-01'.format(case['year']),
                         '{}-12-31'.format(case['year']))
    x = np.arange(float(len(date)))
    cals = models.CALS[case['cal']]
    m = models.LEAVES[case['cal']]
    ctx.eq(m.n_params, len(cals), 'parameters')
    compare(ctx, marks(ctx, m, x, date, len(cals), case['is_mult'],
                       case['cache']),
            [models.holiday_mask(c, date) for c in cals], date, case['cal'])
    # the calendars themselves
    for name, cls in EXTRA.get(case['cal'], []):
        got = list(ctx.got(cls().holidays(date[0], date[-1])))
        want = sorted(h for y in (case['year'] - 1, case['year'],
                                  case['year'] + 1)
                      for h in models.holidays(name, y)
                      if date[0] <= h <= date[-1])
        ctx.eq(sorted(set(got)), sorted(set(want)), name)
    ctx.label(case['cal'])
    ctx.nontrivial()


@st.composite
def spans(draw, lo=1985, hi=2045):
    """Dates in any order, possibly repeated"""
    y = draw(st.integers(lo, hi))
    near = draw(st.sampled_from(
        ['01-01', '12-20', '03-15', '04-01', '05-01', '08-15', '02-27',
         '06-30', '10-30']))
    n = draw(st.integers(1, 40))
    off = draw(st.integers(-6, 6))
    how = draw(st.sampled_from(['in order', 'reversed', 'shuffled',
                                'repeated', 'every 7', 'far']))
    return dict(start='{}-{}'.format(y, near), n=n, off=off, how=how,
                seed=draw(st.integers(0, 99)))


def build_span(s):
    d0 = pd.Timestamp(s['start']) + pd.Timedelta(days=s['off'])
    off = np.arange(s['n'])
    u = gen.noise(s['seed'], s['n'])
    if s['how'] == 'reversed':
        off = off[::-1]
    elif s['how'] == 'shuffled':
        off = off[np.argsort(u, kind='stable')]
    elif s['how'] == 'repeated':
        off = np.abs(u * s['n']).astype(int)
    elif s['how'] == 'every 7':
        off = off * 7
    elif s['how'] == 'far':
        off = (np.abs(u) * 4000).astype(int)
    return off.astype(float), d0 + pd.to_timedelta(off, 'D')


@facet('ranges', st.lists(st.tuples(
    st.sampled_from(sorted(models.CALS)), spans(), st.booleans()).map(list),
    min_size=1, max_size=5), 700,
       rule='histories of 1 to 5 evaluations of the country models on dates '
            'in any order, across ends of years, single days or far apart; '
            'non-trivial: a holiday is among the dates')
def f_ranges(case, ctx):
    hit = 0
    for cal, span, is_mult in case:
        x, date = build_span(span)
        cals = models.CALS[cal]
        want = [models.holiday_mask(c, date) for c in cals]
        compare(ctx, marks(ctx, models.LEAVES[cal], x, date, len(cals),
                           is_mult), want, date, cal)
        hit += sum(w.sum() for w in want)
        ctx.label(span['how'])
    ctx.nontrivial(hit > 0)


# Custom calendars

OBS = dict(next_monday=(next_monday, models.to_monday),
           nearest_workday=(nearest_workday, models.nearest_workday),
           previous_friday=(previous_friday, lambda d: d - pd.Timedelta(
               days={5: 1, 6: 2}.get(d.weekday(), 0))))
WDAYS = dict(MO=(MO, 0), TH=(TH, 3), SU=(SU, 6))


@st.composite
def rules(draw):
    k = draw(st.sampled_from(['fixed', 'fixed', 'observed', 'weekday']))
    r = dict(kind=k, month=draw(st.integers(1, 12)),
             day=draw(st.integers(1, 28)))
    if k == 'observed':
        r['obs'] = draw(st.sampled_from(sorted(OBS)))
    if k == 'weekday':
        r['day'] = 1
        r['wday'] = draw(st.sampled_from(sorted(WDAYS)))
        r['nth'] = draw(st.integers(1, 4))
    if k == 'fixed' and draw(st.booleans()):
        r['from'] = draw(st.integers(2010, 2022))
    return r


def build_rule(r, i):
    name = 'rule{}'.format(i)
    if r['kind'] == 'observed':
        return Holiday(name, month=r['month'], day=r['day'],
                       observance=OBS[r['obs']][0])
    if r['kind'] == 'weekday':
        return Holiday(name, month=r['month'], day=1, offset=DateOffset(
            weekday=WDAYS[r['wday']][0](r['nth'])))
    kw = {}
    if 'from' in r:
        kw['start_date'] = '{}-01-01'.format(r['from'])
    return Holiday(name, month=r['month'], day=r['day'], **kw)


def rule_days(r, years):
    for y in years:
        d = pd.Timestamp(y, r['month'], r['day'])
        if r['kind'] == 'observed':
            yield OBS[r['obs']][1](d)
        elif r['kind'] == 'weekday':
            yield models.nth_weekday(y, r['month'], WDAYS[r['wday']][1],
                                     r['nth'])
        elif r.get('from', 0) <= y:
            yield d


def rules_mask(rs, date):
    years = range(date.min().year - 1, date.max().year + 2)
    hs = {d for r in rs for d in rule_days(r, years)}
    return np.array([float(d in hs) for d in date])


@st.composite
def custom_cases(draw):
    return dict(cals=draw(st.lists(st.lists(rules(), max_size=4), min_size=1,
                                   max_size=3)),
                names=draw(st.sampled_from(['same', 'different'])),
                name=draw(st.sampled_from([None, 'my calendar'])),
                as_list=draw(st.booleans()), year=draw(
                    st.integers(2008, 2024)),
                spans=draw(st.lists(spans(2005, 2025), max_size=2)),
                is_mult=draw(st.booleans()), cache=draw(st.booleans()))


@facet('custom calendars', custom_cases(), 400,
       rule='models from 1 to 3 calendars of generated rules (fixed days, '
            'observances, n-th weekdays, first years), also without rules; '
            'non-trivial: two or more calendars with rules')
def f_custom(case, ctx):
    with_rules = [c for c in case['cals'] if c]
    cals = [AbstractHolidayCalendar(
        'cal' if case['names'] == 'same' else 'cal{}'.format(i),
        [build_rule(r, j) for j, r in enumerate(c)])
        for i, c in enumerate(case['cals'])]
    arg = cals if case['as_list'] or len(cals) > 1 else cals[0]
    if not with_rules:
        try:
            fm.get_model_from_calendars(arg, case['name'])
        except Exception:
            return
        ctx.fail('calendars without rules were accepted')
    m = ctx.got(fm.get_model_from_calendars(arg, case['name']))
    ctx.eq(m.n_params, len(with_rules), 'parameters')
    ctx.eq(m.name, case['name'] or [
        c.name for c in cals if c.rules][0], 'name')
    date = pd.date_range('{}-01-01'.format(case['year']), periods=366)
    for x, d in [(np.arange(366.), date)] + [build_span(s)
                                             for s in case['spans']]:
        compare(ctx, marks(ctx, m, x, d, m.n_params, case['is_mult'],
                           case['cache']),
                [rules_mask(c, d) for c in with_rules], d, 'calendar')
        # One dummy model per calendar or holiday
        for c, cal in zip(case['cals'], cals):
            if c:
                compare(ctx, marks(ctx, fm.get_model_dummy('d', cal), x, d, 1,
                                   case['is_mult'], case['cache']),
                        [rules_mask(c, d)], d, 'dummy of calendar')
                compare(ctx, marks(ctx, fm.get_model_dummy(
                    'd', cal.rules[0]), x, d, 1, case['is_mult'],
                    case['cache']),
                    [rules_mask(c[:1], d)], d, 'dummy of holiday')
    ctx.label('{} calendars'.format(len(with_rules)))
    ctx.nontrivial(len(with_rules) > 1)


# Lists and functions

near = st.dates(datetime.date(2019, 11, 1), datetime.date(2020, 2, 10)).map(
    lambda d: d.isoformat())
DATE_FORMS = {
    'text': list, 'timestamps': lambda li: [pd.Timestamp(d) for d in li],
    'index': pd.DatetimeIndex, 'series': lambda li: pd.Series(
        pd.DatetimeIndex(li)),
    'datetimes': lambda li: [datetime.datetime.fromisoformat(d) for d in li],
    'days': lambda li: [datetime.date.fromisoformat(d) for d in li],
    'array': lambda li: np.array(li, dtype='datetime64[ns]')}
NUM_FORMS = {
    'list': list, 'tuple': tuple, 'array': np.array, 'series': pd.Series,
    'floats': lambda li: [float(v) for v in li],
    'range': lambda li: range(min(li), max(li) + 1)}


@st.composite
def list_cases(draw):
    kind = draw(st.sampled_from(['dates', 'dates', 'numbers', 'function',
                                 'datelists', 'datelists']))
    c = dict(kind=kind, start=draw(near), n=draw(st.integers(1, 60)),
             x0=draw(st.sampled_from([0, 0, 3, -5])),
             order=draw(st.sampled_from(['in order', 'reversed', 'shuffled'])),
             seed=draw(st.integers(0, 99)), is_mult=draw(st.booleans()),
             cache=draw(st.booleans()),
             name=draw(st.sampled_from(['d', 'my_dates'])))
    if kind == 'numbers':
        c['form'] = draw(st.sampled_from(sorted(NUM_FORMS)))
        c['lists'] = [draw(st.lists(st.integers(-6, 62), min_size=1,
                                    max_size=8))]
        if draw(st.integers(0, 2)) == 0:
            c['step'] = draw(st.sampled_from([0.5, 0.25, 0.1]))
            if c['form'] in ('list', 'tuple', 'array', 'series'):
                c['lists'] = [[v * 0.5 for v in c['lists'][0]]]
    elif kind == 'function':
        c['lists'] = [draw(st.lists(st.integers(1, 31), min_size=1,
                                    max_size=8))]
    else:
        c['form'] = draw(st.sampled_from(sorted(DATE_FORMS)))
        c['lists'] = draw(st.lists(
            st.lists(near, min_size=1, max_size=8), min_size=1,
            max_size=1 if kind == 'dates' else 4))
    return c


@facet('lists', list_cases(), 1200,
       rule='models from lists of dates (7 forms), numbers (6 forms, also '
            'fractional indices) or a function, on dates in any order; non-trivial: a listed point is '
            'evaluated, and one that is not')
def f_lists(case, ctx):
    off = np.arange(case['n'])
    if case['order'] == 'reversed':
        off = off[::-1]
    elif case['order'] == 'shuffled':
        off = off[np.argsort(gen.noise(case['seed'], case['n']),
                             kind='stable')]
    x = (off * case.get('step', 1) + case['x0']).astype(float)
    date = pd.Timestamp(case['start']) + pd.to_timedelta(off, 'D')
    li = case['lists']
    if case['kind'] == 'numbers':
        arg = NUM_FORMS[case['form']](li[0])
        m = fm.get_model_dummy(case['name'], arg)
        want = [np.array([float(any(v == k for k in arg)) for v in x])]
    elif case['kind'] == 'function':
        m = fm.get_model_dummy(
            case['name'], lambda a_x, a_date, **kw:
            np.isin(a_date.day, li[0]).astype(float))
        want = [np.array([float(d.day in li[0]) for d in date])]
    else:
        form = DATE_FORMS[case['form']]
        if case['kind'] == 'dates':
            m = fm.get_model_dummy(case['name'], form(li[0]))
        else:
            m = fm.get_model_from_datelist(case['name'],
                                           *[form(v) for v in li])
        want = [np.array([float(d.date().isoformat() in v) for d in date])
                for v in li]
    ctx.got(m)
    ctx.eq(m.n_params, len(li), 'parameters')
    ctx.eq(m.name, case['name'], 'name')
    compare(ctx, marks(ctx, m, x, date, len(li), case['is_mult'],
                       case['cache']), want, date, case['kind'])
    # marks do not depend on the other points
    half = max(1, case['n'] // 2)
    compare(ctx, marks(ctx, m, x[:half], date[:half], len(li),
                       case['is_mult'], case['cache']),
            [w[:half] for w in want], date, 'part of ' + case['kind'])
    if case['kind'] in ('dates', 'datelists'):
        compare(ctx, marks(ctx, m, x + 1000, date, len(li), case['is_mult']),
                want, date, 'other index')
    if case['kind'] == 'numbers':
        compare(ctx, marks(ctx, m, x, None, 1, case['is_mult']), want, None,
                'without dates')
    # all parameters at once
    p = np.round(gen.noise(case['seed'], len(li)) * 4, 2)
    if not case['is_mult']:
        ctx.close(m(x, date, p), sum(a * w for a, w in zip(p, want)),
                  'sum of marks', 1e-12, 1e-12)
    else:
        ctx.close(m(x, date, p, True),
                  np.prod([1 + a * w for a, w in zip(p, want)], axis=0),
                  'product of marks', 1e-12, 1e-12)
    ctx.label(case['kind'])
    ctx.nontrivial(any(0 < w.sum() < len(w) for w in want))


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(['empty', 'values', 'not an array', 'text',
                                 'no lists', 'no calendars']))
    return dict(kind=kind, v=draw(st.sampled_from([2., -1., 0.5, 3.])),
                at=draw(st.integers(0, 9)),
                form=draw(st.sampled_from(['list', 'series', 'index'])))


@facet('refused', bad_cases(), 100,
       rule='empty lists, functions that are no mask, text that is no date; '
            'all are non-trivial')
def f_refused(case, ctx):
    k = case['kind']

    def bad_values(a_x, a_date, **kw):
        a = np.zeros(len(a_x))
        a[case['at'] % len(a_x)] = case['v']
        return a
    try:
        if k == 'empty':
            fm.get_model_dummy('d', {'list': [], 'series': pd.Series(
                [], dtype=float), 'index': pd.DatetimeIndex([])}[case['form']])
        elif k == 'values':
            fm.get_model_dummy('d', bad_values)
        elif k == 'not an array':
            fm.get_model_dummy('d', lambda a_x, a_date, **kw: [1.] * len(a_x))
        elif k == 'text':
            fm.get_model_dummy('d', ['2020-01-01', 'no date'])
        elif k == 'no lists':
            fm.get_model_from_datelist('d')
        else:
            fm.get_model_from_calendars([])
    except Exception:
        ctx.nontrivial()
        return
    ctx.fail('{} was accepted', k)


@st.composite
def fc_cases(draw):
    kind = draw(st.sampled_from(['cal_uk', 'cal_us', 'cal_ita', 'dates']))
    c = dict(kind=kind, start=draw(st.sampled_from(
        ['2017-05-01', '2018-12-20', '2019-04-10', '2016-02-29'])),
        n=draw(st.integers(368, 460)), amp=draw(
            st.integers(10, 60)), base=draw(st.integers(100, 300)),
        slope=draw(st.sampled_from([0.0, 0.5, 1.])))
    if kind == 'dates':
        c['off'] = draw(st.lists(st.integers(3, 480), min_size=3, max_size=8,
                                 unique=True))
    return c


@facet('forecast', fc_cases(), 40, 300,
       rule='daily series of over a year with an effect on marked days, '
            'forecast with that calendar; non-trivial: marked days after the '
            'end of the series')
def f_forecast(case, ctx):
    n, k = case['n'], 120
    date = pd.date_range(case['start'], periods=n + k)
    if case['kind'] == 'dates':
        days = [str((pd.Timestamp(case['start']) + pd.Timedelta(
            days=o)).date()) for o in case['off']]
        if min(case['off']) >= n - 5:
            ctx.skip('no marked day in the series')
        expr, masks = ['dates', 'my_dates', days], [np.isin(
            np.arange(n + k), case['off']).astype(float)]
    else:
        expr = case['kind']
        masks = [models.holiday_mask(c, date) for c in models.CALS[expr]]
    y = case['base'] + case['slope'] * np.arange(n + k) + sum(
        case['amp'] * (-1) ** i * m for i, m in enumerate(masks))
    df = pd.DataFrame(dict(date=date[:n], y=y[:n]))
    out = ctx.got(run.seeded_run(
        1, df, trend=['linear'], season=['null'], naive=[], calendar=[expr],
        extrapolate_years=k / 365. + 1e-6))
    fc = out['data'].loc[~out['data'].is_actuals]
    ctx.eq(len(fc), n + k, 'forecast rows')
    ctx.close(fc.y.values, y, 'forecast', 1e-3, 0.05 * case['amp'])
    ctx.label(case['kind'])
    ctx.nontrivial(sum(m[n:].sum() for m in masks) > 0)


FACETS = [f_years, f_ranges, f_custom, f_lists, f_refused, f_forecast]
