"""C12: gap filling adds the missing samples and changes no other"""
from vlib.runner import facet
from vlib import cmp, gen, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, model_utils

DATED = ['D', 'D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y', 'H']


@st.composite
def cases(draw):
    freq = draw(st.sampled_from(DATED + ['num'] * 4))
    n = draw(st.integers(2, 50))
    return dict(
        freq=freq, n=n,
        # a long gap after some of the samples
        long=[draw(st.integers(1, 49)), draw(st.integers(40, 400))]
        if draw(st.integers(0, 7)) == 0 and freq[0] not in 'YQ' else None,
        # daily samples without neighbours, maybe of one constant step
        sparse=draw(st.sampled_from([
            [s] for s in (2, 3, 4, 5, 6, 8, 10, 14, 20, 27)]) | st.lists(
                st.sampled_from([2, 3, 4, 5, 6, 8, 10, 14, 20, 45]),
                min_size=2, max_size=7))
        if freq == 'D' and draw(st.integers(0, 2)) == 0 else None,
        start=draw(gen.dates), x0=draw(st.integers(-5, 30)),
        keep=draw(st.integers(0, 48)),
        drops=sorted(draw(st.sets(st.integers(0, 49), max_size=25)))
        if draw(st.integers(0, 4)) else [],
        nulls=sorted(draw(st.one_of(
            st.sets(st.integers(0, 49), max_size=5),
            st.sets(st.integers(0, 4), min_size=1))))
        if draw(st.integers(0, 2)) == 0 else [],
        weight=draw(st.booleans()), with_x=draw(st.booleans()),
        nseed=draw(st.integers(0, 999)), mask=draw(st.booleans()),
        dups=draw(st.lists(st.integers(0, 49), max_size=3))
        if draw(st.integers(0, 3)) == 0 else [],
        y=draw(st.booleans()), scale=draw(st.sampled_from([1., 1e6, 1e-5])))


def table(case):
    """All samples, and the ones left"""
    freq, n = case['freq'], case['n']
    cut, more = case.get('long') or (0, 0)
    sparse = None
    if case.get('sparse'):
        g = (case['sparse'] * n)[:max(1, min(n - 1, 25))]
        if min(g) < 45:
            more, sparse = 0, [0] + [int(i) for i in np.cumsum(g)]
            n = sparse[-1] + 1
    cut = cut % n if more else n
    n += more
    if freq == 'num':
        full = pd.DataFrame(dict(x=np.arange(n) + case['x0']))
    else:
        d = pd.date_range(case['start'], periods=n,
                          freq='7D' if freq == 'W' else freq)
        full = pd.DataFrame(dict(date=d))
        if case['with_x']:
            full['x'] = model_utils.get_normalized_x_from_date(full.date)
    full['y'] = gen.noise(case['nseed'], n) * 10 * case['scale']
    full.loc[[i for i in case['nulls'] if i < n], 'y'] = np.nan
    if case['weight']:
        full['weight'] = 1. + np.arange(n) % 3
    if sparse:
        return full, sparse
    # two neighbours stay, so that the frequency shows
    n -= more
    k = case['keep'] % (n - 1)
    drops = {i % n for i in case['drops']}
    left = [i for i in range(n) if i in (k, k + 1) or i not in drops]
    if cut != k + 1:
        left = [i + more * (i >= cut) for i in left]
    return full, left


@facet('gaps', cases(), 2600,
       rule='dated (hourly to yearly) and numeric series of 2 to 50 samples '
            'with gaps, nulls, weights, several samples per date, also daily '
            'samples without neighbours; non-trivial: there is a gap')
def f_gaps(case, ctx):
    full, left = table(case)
    col = 'x' if case['freq'] == 'num' else 'date'
    df = full.loc[left].reset_index(drop=True)
    dups = [i % len(left) for i in case['dups']]
    if dups:
        extra = df.loc[dups].assign(y=lambda d: d.y + 1)
        df = pd.concat([df, extra]).sort_values(
            col, kind='mergesort').reset_index(drop=True)
    lo, hi = left[0], left[-1]
    gap = len(left) < hi - lo + 1
    before = df.copy()
    kw = dict(include_mask=case['mask'], interpolate_y=case['y'])
    if gap and dups:
        try:
            model_utils.interpolate_df(df, **kw)
        except ValueError as e:
            ctx.check('multiple samples' in str(e), 'other error: {}', e)
        else:
            ctx.fail('gaps of a series with repeated dates were not rejected')
        ctx.nontrivial(True)
        return
    out = ctx.got(model_utils.interpolate_df(df, **kw))
    cmp.untouched(ctx, df, before, 'input')
    if not gap:
        ctx.eq(set(out.columns) - {'is_gap_filled'}, set(df.columns),
               'columns')
        same = out[list(df.columns)].reset_index(drop=True)
        if case['y']:  # null values may be interpolated, too
            same['y'] = same.y.where(df.y.notnull())
        cmp.frame(ctx, same, df, 'series without gaps')
        ctx.label('no gap, repeated' if dups else 'no gap')
        return
    grid = full.loc[lo:hi].reset_index(drop=True)
    ctx.eq(list(out[col]), list(grid[col]), col)
    here = np.array([lo + i in left for i in range(len(grid))])
    y = out.y.values
    orig = grid.y.values
    ok = here & ~np.isnan(orig)
    ctx.eq(list(y[ok]), list(orig[ok]), 'values of the input')
    if case['weight']:
        ctx.eq(list(out.weight[here]), list(grid.weight[here]), 'weights')
    first = int(np.argmax(ok)) if ok.any() else len(ok)
    ctx.check(np.isnan(y[:first]).all(),
              'values before the first sample with a value: {}', y[:first])
    if not case['y']:
        ctx.check(np.isnan(y[~ok]).all(), 'added or null sample has a value')
        if case['weight']:
            ctx.check(out.weight[~here].isnull().all(), 'added weight')
    else:
        pos = np.nonzero(ok)[0]
        for i in np.nonzero(~ok)[0]:
            a, b = pos[pos < i], pos[pos > i]
            if len(a) and len(b):
                a, b = a[-1], b[0]
                want = orig[a] + (orig[b] - orig[a]) * (i - a) / (b - a)
                ctx.close(y[i], want, 'interpolated value', 1e-9,
                          1e-9 * np.abs(orig[ok]).max())
    if 'x' in df:
        if case['freq'] in ('num', 'D', 'W'):
            ctx.eq(list(out.x), list(grid.x), 'x')
        else:
            ctx.eq(list(out.x[here]), list(grid.x[here]), 'x of the input')
            d = np.diff(out.x)
            ctx.check((d > 0).all() if case['freq'] != 'H'
                      else (d >= 0).all(), 'x out of order')
        ctx.eq(out.x.dtype, df.x.dtype, 'type of x')
        if case['mask'] and case['freq'] != 'H':
            ctx.eq(list(out.is_gap_filled), list(~here), 'mask')
    again = model_utils.interpolate_df(out, interpolate_y=False)
    cmp.frame(ctx, again[list(out.columns)], out, 'filled twice')
    ctx.label('sparse' if case.get('sparse') else case['freq'])
    ctx.nontrivial(True)


@st.composite
def fc_cases(draw):
    s = draw(gen.series(['D', 'W', 'MS', 'Q', 'num'], n_min=6, n_max=30,
                        weights=False, nulls=False, noisy=True))
    s['drop'] = sorted(draw(st.sets(st.integers(1, s['n'] - 2), min_size=1,
                                    max_size=s['n'] // 3)))
    return dict(s=s, naive=draw(st.booleans()), seed=draw(st.integers(0, 99)))


@facet('gaps in forecasts', fc_cases(), 100,
       rule='forecast of a series with missing samples against the series '
            'with these samples present, null; non-trivial: any')
def f_forecast(case, ctx):
    s = case['s']
    df = gen.build(s)
    if not oracle.usable(s, df):
        ctx.skip()
    full = gen.build(dict(s, drop=[]))
    full.loc[s['drop'], 'y'] = np.nan
    kw = dict(trend=['linear', 'constant'], season=[], extrapolate_years=0.25,
              naive=['naive'] if case['naive'] else [], include_all_fits=True)
    a = ctx.got(run.seeded_run(case['seed'], df, **kw))
    b = ctx.got(run.seeded_run(case['seed'], full, **kw))
    cmp.frame(ctx, a['forecast'], b['forecast'], 'forecast', rtol=1e-9,
              atol=1e-9)
    cmp.frame(ctx, a['metadata'], b['metadata'], 'metadata', rtol=1e-9,
              atol=1e-9)
    ctx.nontrivial(True)


FACETS = [f_gaps, f_forecast]
ASSUMPTIONS = ['at least two samples one period apart']
