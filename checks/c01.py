"""C01: the forecast echoes the actuals and covers its whole date grid"""
from vlib.runner import facet
from vlib import gen, oracle, run
import pandas as pd
from hypothesis import strategies as st

ALL = ['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y', 'num']


def check_actuals(ctx, out, df, source, null_rows, what):
    col = 'x' if 'x' in df else 'date'
    a = oracle.actual_rows(out)
    d = df if null_rows else df.loc[~df.y.isnull()]
    ctx.eq(len(a), len(d), what + ': number of actuals rows')
    ctx.eq(list(a.date), list(d[col]), what + ': actuals dates')
    ctx.close(a.y.values, d.y.values, what + ': actuals values',
              rtol=0, atol=0)
    ctx.eq(set(a.model), {'actuals'} if len(a) else set(),
           what + ': actuals model name')
    ctx.eq(set(a.source), {source} if len(a) else set(),
           what + ': actuals source')


def check_case(case, ctx, grid_exact=True):
    spec, o = case['s'], dict(case['o'])
    df = gen.build(spec)
    if not oracle.usable(spec, df) or gen.n_valid(df) < 6 or \
            df.y.isnull().all():
        ctx.skip()
    src = case.get('src', 'src')
    years = o['extrapolate_years']
    before = df.copy(deep=True)
    d = ctx.got(run.seeded_run(1, df, source_id=src, **o))
    ctx.check(set(d) == {'forecast', 'data', 'metadata', 'optimize_info'},
              'output tables: {}', sorted(d))
    pd.testing.assert_frame_equal(df, before)
    f, data = d['forecast'], d['data']
    check_actuals(ctx, f, df, src, False, 'forecast')
    check_actuals(ctx, data, df, src, True, 'data')
    for c in ('date', 'source', 'is_actuals', 'model', 'y', 'q5', 'q95',
              'q20', 'q80'):
        ctx.check(c in f.columns, 'forecast has no column {}', c)
    # weights of the actuals, 1 by default
    a = oracle.actual_rows(data)
    w = df.weight if 'weight' in df else pd.Series(1., index=df.index)
    ctx.close(a.weight.values, w.values, 'data: weights', rtol=0, atol=0)

    grid = oracle.expected_grid(spec, df, years)
    g = oracle.fcast_rows(f)
    ctx.eq(g.model.nunique(), 1, 'number of models in forecast')
    ctx.eq(set(g.source), {src}, 'forecast source')
    col = 'x' if spec['freq'] == 'num' else 'date'
    end = df[col].max()
    if grid_exact:
        ctx.eq(list(g.date), grid, 'forecast dates')
        for m, t in oracle.fcast_rows(data).groupby('model'):
            ctx.eq(list(t.date), grid, 'dates of model ' + m)
    else:
        # naive models may have no value at the start of the series
        have = list(g.date)
        ctx.check(have == sorted(set(have)), 'dates repeated or unordered')
        ctx.check(set(have) <= set(grid), 'dates out of the grid: {}',
                  sorted(set(have) - set(grid)))
        ctx.check(set(t for t in grid if t > end) <= set(have),
                  'future dates missing: {}',
                  [t for t in grid if t > end and t not in set(have)])
    ctx.check(not g.y.isnull().any(), 'null forecast values')
    ctx.check(g.is_actuals.isin([False]).all(), 'is_actuals of forecast')
    simple = run.seeded_run(1, df, source_id=src,
                            **dict(o, simplify_output=True))
    ctx.eq(list(simple.columns), list(f.columns), 'simplified output columns')
    ctx.eq(list(simple.date), list(f.date), 'simplified output dates')
    ctx.close(simple.y.values, f.y.values, 'simplified output values',
              rtol=1e-6, atol=1e-6 * (1 + abs(df.y.max() - df.y.min())))
    n_fut = sum(t > end for t in grid)
    ctx.label(spec['freq'], 'future' if n_fut else 'no future',
              'gap' if oracle.has_gap(spec, df) else 'regular',
              'null' if df.y.isnull().any() else 'full',
              'zero weight' if 'weight' in df and (df.weight == 0).any()
              else 'weighted' if 'weight' in df else 'unweighted')
    ctx.nontrivial(n_fut > 0 and (oracle.has_gap(spec, df) or
                                  df.y.isnull().any() or 'weight' in df))


def opts(trend):
    return st.fixed_dictionaries(dict(
        extrapolate_years=st.sampled_from(oracle.EXT),
        trend=st.just(trend) if trend is None else st.sampled_from(trend),
        include_all_fits=st.booleans(),
        season_add_mult=st.sampled_from(['add', 'both']),
    ))


fixed = st.fixed_dictionaries(dict(
    s=gen.series(ALL, n_min=7, n_max=30, noisy=True, dups=True),
    o=opts([['linear'], ['constant'], ['linear', 'constant']]).map(
        lambda o: dict(o, season=[], naive=[])),
    src=st.sampled_from(['src', 'a b', 'x:1'])))

default = st.fixed_dictionaries(dict(
    s=gen.series(ALL, n_min=7, n_max=45, noisy=True, weights='maybe'),
    o=opts(None)))


@facet('regression models', fixed, 480,
       rule='random regular series (9 frequencies, gaps, nulls, zero weights, '
            'several samples per date), linear/constant candidates, exact '
            'date grid; non-trivial: has future samples and a gap, null or '
            'weights')
def f_fixed(case, ctx):
    check_case(case, ctx)


@facet('default models', default, 160,
       rule='as above with the default candidate models')
def f_default(case, ctx):
    check_case(case, ctx, grid_exact=False)


FACETS = [f_fixed, f_default]
