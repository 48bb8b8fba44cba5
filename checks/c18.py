"""C18: naive forecasts repeat the last valid samples"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, model_utils

FREQS = ['D', 'D', 'D', 'W', 'MS', 'M', 'QS', 'Y', 'num']


@st.composite
def cases(draw, freqs=FREQS, n_max=40):
    s = draw(gen.series(freqs, n_min=2, n_max=n_max, noisy=True,
                        weights='maybe'))
    # more missing samples, also at the ends
    n = s['n']
    for k in ('null', 'drop'):
        if draw(st.integers(0, 1)):
            s[k] = sorted(draw(st.sets(st.integers(0, n - 1),
                                       max_size=n // 2)))
    if draw(st.integers(0, 3)) == 0:
        tail = list(range(max(0, n - draw(st.integers(1, 9))), n))
        s['null'] = sorted(set(s.get('null') or []) | set(tail))
    return dict(s=s, years=draw(st.sampled_from([0, 0.05, 0.1, 0.5, 1.])),
                all=draw(st.booleans()), tr=draw(st.sampled_from(
                    [[], ['constant']])), seed=draw(st.integers(0, 99)))


def key_col(s):
    return 'x' if s['freq'] == 'num' else 'date'


def naive(v, col, grid):
    """Last valid value before each point; before the first one, that one"""
    t, y = list(v[col]), list(v.y)
    out, j = [], 0
    for g in grid:
        while j < len(t) and t[j] < g:
            j += 1
        out.append(y[max(j - 1, 0)])
    return out


def snaive(v, grid):
    """Last valid value on the same weekday before each point, or None"""
    t, y = list(v.date), list(v.y)
    out = []
    for g in grid:
        c = [b for a, b in zip(t, y)
             if a < g and a.weekday() == g.weekday()]
        out.append(c[-1] if c else None)
    return out


def prepare(case, ctx):
    s = case['s']
    df = gen.build(s)
    if not oracle.usable(s, df) or gen.n_valid(df) < 2:
        ctx.skip()
    return s, df, gen.valid(df)


@facet('naive', cases(), 500,
       rule='naive forecast of dated and numeric series with missing, null '
            'and ignored samples; non-trivial: a sample is skipped')
def f_naive(case, ctx):
    s, df, v = prepare(case, ctx)
    res = ctx.got(run.seeded_run(
        case['seed'], df, trend=['constant'], season=[], naive=['naive'],
        extrapolate_years=case['years'], include_all_fits=True))
    meta = run.meta_by_model(res['metadata'])
    col = key_col(s)
    ctx.check(bool(meta['naive']['is_fit']), 'naive model is not fitted')
    d = run.series_of(res['data'], 'naive')
    grid = oracle.expected_grid(s, df, case['years'])
    ctx.eq(list(d.date), grid, 'dates')
    want = naive(v, col, grid)
    ctx.eq(list(d.y), want, 'naive forecast')
    end = [y for g, y in zip(grid, d.y) if g > v[col].max()]
    ctx.check(all(y == v.y.iloc[-1] for y in end), 'end of the forecast')
    # its error: one step ahead
    own = dict(zip(grid, want))
    w = v.weight.values if 'weight' in v else 1.
    r = w * (v.y.values - np.array([own[t] for t in v[col]]))
    ctx.close(meta['naive']['cost'], 0.5 * float(r @ r), 'cost', 1e-9,
              1e-12 * (1 + float(np.abs(v.y).max()) ** 2))
    ctx.label(s['freq'])
    ctx.nontrivial(len(v) < len(grid))


@facet('weekly naive', cases(['D', 'D', 'D', 'W'], 60), 500,
       rule='weekly naive forecast of daily (or weekly) series with missing, '
            'null and ignored samples; non-trivial: a sample is skipped')
def f_snaive(case, ctx):
    s, df, v = prepare(case, ctx)
    res = ctx.got(run.seeded_run(
        case['seed'], df, trend=['constant'], season=[], naive=['snaive'],
        extrapolate_years=case['years'], include_all_fits=True))
    meta = run.meta_by_model(res['metadata'])['snaive_wday']
    grid = oracle.expected_grid(s, df, case['years'])
    want = dict(zip(grid, snaive(v, grid)))
    w = v.weight.values if 'weight' in v else np.ones(len(v))
    d = run.series_of(res['data'], 'snaive_wday')
    some = any(want[t] is not None for t in v.date)
    ctx.eq(bool(meta['is_fit']), some, 'is fitted')
    if not some:
        ctx.eq(meta['status'], 'TS_TOO_SHORT', 'status')
        ctx.eq(len(d), 0, 'rows of a model that is not fitted')
        ctx.label('no output')
        return
    got = {g: (None if y != y else y) for g, y in zip(d.date, d.y)}
    for g in grid:
        ctx.eq(got.get(g), want[g], 'weekly naive forecast of {}'.format(g))
    ctx.check(set(got) <= set(grid), 'other dates')
    ctx.eq(len(got), len(d), 'number of rows')
    r = [b * (a - want[t]) for a, b, t in zip(v.y, w, v.date)
         if want[t] is not None]
    ctx.close(meta['cost'], 0.5 * float(np.dot(r, r)), 'cost', 1e-9,
              1e-12 * (1 + float(np.abs(v.y).max()) ** 2))
    ctx.label(s['freq'])
    ctx.nontrivial(len(v) < len(df) or oracle.has_gap(s, df))


@st.composite
def direct_cases(draw):
    c = draw(cases(['D', 'num', 'W']))
    c['pick'] = draw(st.lists(st.integers(0, 59), min_size=1, max_size=20,
                              unique=True))
    return c


@facet('evaluation', direct_cases(), 700,
       rule='naive models evaluated at any choice of dates, for given '
            'actuals; non-trivial: past and future dates')
def f_direct(case, ctx):
    s, df, v = prepare(case, ctx)
    full = model_utils.interpolate_df(
        forecast.normalize_df(df), interpolate_y=False)
    if 'weight' in full:
        full['y'] = full.y.where(full.weight > 0)
    before = full.copy()
    col = key_col(s)
    n = len(full)
    step = 7 if s['freq'] == 'W' else 1
    pick = sorted(i for i in case['pick'] if i < n + 20)
    if not pick:
        ctx.skip()
    x = np.array([int(full.x.iloc[0]) + i * step for i in pick])
    if col == 'x':
        grid, date = list(x), None
    else:
        date = pd.DatetimeIndex([full.date.iloc[0] + pd.Timedelta(
            days=i * step) for i in pick])
        grid = list(date)
        y = ctx.got(models.build('snaive')(x, date, [], df_actuals=full))
        want = snaive(v, grid)
        # dates after the end repeat the last week
        ctx.eq([None if a != a else a for a in y], want, 'weekly naive')
    y = ctx.got(models.build('naive')(
        x, date if date is not None else x, [], df_actuals=full)) \
        if date is not None else None
    if y is not None:
        ctx.eq(list(y), naive(v, col, grid), 'naive')
    pd.testing.assert_frame_equal(full, before)
    ctx.nontrivial(pick[0] < n <= pick[-1])


@st.composite
def rep_cases(draw):
    s = draw(gen.series(['D', 'D', 'D', 'W', 'num'], n_min=3, n_max=40,
                        noisy=True, weights='maybe', dups=True, gaps=False))
    n = s['n']
    if not s.get('dup') or draw(st.booleans()):
        kinds = ['', 'null', 'null0'] + (['zero', 'zero0'] if s.get('w')
                                         else [])
        s['dup'] = draw(st.lists(st.tuples(
            st.integers(max(0, n - 10), n - 1), st.integers(1, 3),
            st.sampled_from(kinds)).map(list), min_size=1, max_size=6,
            unique_by=lambda t: t[0]))
    return dict(s=s, years=draw(st.sampled_from([0, 0.05, 0.1])),
                model=draw(st.sampled_from(['naive', 'snaive'])),
                seed=draw(st.integers(0, 99)))


@facet('repeated samples', rep_cases(), 250,
       rule='several samples on a date, some of them null or ignored: the '
            'forecast is one of the valid ones; non-trivial: a null or '
            'ignored sample shares its date with a valid one')
def f_repeated(case, ctx):
    s, df, v = prepare(case, ctx)
    col = key_col(s)
    if case['model'] == 'snaive' and col == 'x':
        ctx.skip()
    res = ctx.got(run.seeded_run(
        case['seed'], df, trend=['constant'], season=[],
        naive=[case['model']], extrapolate_years=case['years'],
        include_all_fits=True))
    name = models.build(case['model']).name
    d = run.series_of(res['data'], name)
    grid = oracle.expected_grid(s, df, case['years'])
    at = {}
    for t, y in zip(v[col], v.y):
        at.setdefault(t, []).append(y)
    days = sorted(at)
    got = dict(zip(d.date, d.y))
    ctx.eq(len(got), len(d), 'number of rows')
    meta = run.meta_by_model(res['metadata'])[name]
    if not meta['is_fit']:
        ctx.eq(case['model'], 'snaive', 'model without fit')
        ctx.eq(len(d), 0, 'rows')
        return
    for g in grid:
        if case['model'] == 'naive':
            c = [t for t in days if t < g] or days[:1]
        else:
            c = [t for t in days
                 if t < g and t.weekday() == g.weekday()]
        if not c:
            ctx.check(g not in got, 'forecast of {}', g)
        else:
            ctx.check(got.get(g) in at[c[-1]], 'forecast of {}: {}, not one '
                      'of {}', g, got.get(g), at[c[-1]])
    bad = set(df[col]) & {t for t, y in zip(df[col], df.y) if y != y}
    if 'weight' in df:
        bad |= set(df.loc[~(df.weight > 0), col])
    ctx.label(case['model'])
    ctx.nontrivial(bool(bad & set(days)))


FACETS = [f_naive, f_snaive, f_direct, f_repeated]
ASSUMPTIONS = ['with several samples on a date, the naive models may use '
               'any of the valid ones, and their reported error is not '
               'checked']
