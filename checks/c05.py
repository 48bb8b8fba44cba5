"""C05: null and zero-weight samples never influence the forecast"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
from anticipy import forecast
import numpy as np
import pandas as pd
from hypothesis import strategies as st

TR_D = ['linear', 'constant', ['+', 'linear', 'wday2'], 'step',
        ['+', 'constant', 'wday'], 'linear_nondec',
        ['step_date', '2018-01-01']]
TR = ['linear', 'constant', 'step', 'linear_nondec']
JUNK = [0., -1., 1e6, -1e6, 3.5, 'nan', 1e-3]


@st.composite
def cases(draw, default=False):
    fr = draw(st.sampled_from(['D', 'D', 'W', 'MS', 'num', 'QS']))
    n_min = 10 if not default else 12
    s = draw(gen.series([fr], n_min=n_min, n_max=70 if default else 40,
                        zeros=False, dups=True, nulls=False, gaps=True,
                        noisy=True, positive=draw(st.booleans())))
    n = s['n']
    lo = 0 if draw(st.booleans()) else 1
    idx = st.integers(lo, n - 1 - lo)
    if draw(st.integers(0, 3)) == 0:   # a run of ignored samples
        a = draw(idx)
        ign = list(range(a, min(n - lo, a + draw(st.integers(1, n // 3)))))
    else:
        ign = sorted(draw(st.sets(idx, min_size=1, max_size=max(2, n // 3))))
    o = dict(extrapolate_years=draw(st.sampled_from([0.1, 0.02, 0.3])),
             include_all_fits=True)
    if default:
        o['season_add_mult'] = draw(st.sampled_from(['auto', 'add', 'mult']))
    else:
        o['season'] = []
        o['trend'] = draw(st.lists(st.sampled_from(
            TR_D if fr == 'D' else TR), min_size=1, max_size=2,
            unique_by=str))
        o['naive'] = draw(st.sampled_from(
            [[], ['naive'], None, ['naive', 'snaive']]
            if fr == 'D' else [[], ['naive'], None]))
    return dict(s=s, ign=ign, o=o, how=draw(st.lists(st.sampled_from(
        ['junk', 'junk', 'nully', 'nullw', 'nully0']),
        min_size=len(ign), max_size=len(ign))),
        junk=draw(st.lists(st.sampled_from(JUNK), min_size=1, max_size=4)),
        dupzero=draw(st.booleans()))


def variants(case, df, mask):
    """Base: zero weights at the ignored samples. The other table ignores the
    same samples, each in some other way"""
    a = df.copy()
    if 'weight' not in a:
        a['weight'] = 1.
    a.loc[mask, 'weight'] = 0.
    b = df.copy()
    if 'weight' not in b:
        b['weight'] = 1.
    rows = np.nonzero(mask)[0]
    for k, i in enumerate(rows):
        how = case['how'][k % len(case['how'])]
        j = case['junk'][k % len(case['junk'])]
        j = np.nan if j == 'nan' else j
        if how == 'junk':
            b.loc[i, ['y', 'weight']] = [j, 0.]
        elif how == 'nully':
            b.loc[i, 'y'] = np.nan
        elif how == 'nullw':
            b.loc[i, ['y', 'weight']] = [j, np.nan]
        else:
            b.loc[i, ['y', 'weight']] = [np.nan, 0.]
    return a, b


def ignored_mask(case, df, spec):
    if spec['freq'] == 'num':
        pos = (df.x - spec['x0']).astype(int)
    else:
        full = list(gen.date_index(spec['freq'], spec['start'], spec['n']))
        pos = df.date.map({d: i for i, d in enumerate(full)})
    m = pos.isin(case['ign'])
    if case['dupzero']:  # of several samples, ignore just the first or last
        col = 'x' if spec['freq'] == 'num' else 'date'
        d = df[col].duplicated(keep=False)
        m = m & (~d | ~df[col].duplicated(
            keep='first' if len(case['ign']) % 2 else 'last'))
    return m.values


def compare(ctx, case, df, mask, a, b, exact_candidates=True):
    spec, o = case['s'], case['o']
    col = 'x' if spec['freq'] == 'num' else 'date'
    ok = df.loc[~mask]
    if len(ok) < 5:
        ctx.skip()
    first, last = ok[col].min(), ok[col].max()
    ra = ctx.got(run.seeded_run(3, a, **o))
    rb = ctx.got(run.seeded_run(3, b, **o))
    keep = ['model', 'status', 'is_fit', 'is_best_fit', 'add_mult', 'freq',
            'actuals_x_range']
    ma, mb = ra['metadata'], rb['metadata']
    ctx.eq(ma[keep].values.tolist(), mb[keep].values.tolist(), 'metadata')
    ctx.close(ma.cost, mb.cost, 'cost', 1e-9, 1e-9)
    ctx.close(ma.aic_c, mb.aic_c, 'aic_c', 1e-9, 1e-9)
    for p, q in zip(ma.params, mb.params):
        ctx.close(p, q, 'params', 1e-9, 1e-9)
    for name in ('data', 'forecast'):
        fa, fb = oracle.fcast_rows(ra[name]), oracle.fcast_rows(rb[name])
        fa, fb = [t.loc[t.date >= first] for t in (fa, fb)]
        ctx.eq(list(zip(fa.model, fa.date)), list(zip(fb.model, fb.date)),
               name + ' rows')
        ctx.close(fa.y.values, fb.y.values, name + ' values', 1e-9, 1e-9)
    # Intervals: the same residuals, drawn in the same order after the end
    same = lambda t: t.loc[t.date > last]  # noqa
    fa, fb = [oracle.fcast_rows(r['forecast']) for r in (ra, rb)]
    if len(fa) != len(fb):  # leading ignored samples
        fa, fb = same(fa), same(fb)
    for q in ('q5', 'q20', 'q80', 'q95') if len(fa) else ():
        ctx.close(fa[q].values, fb[q].values, 'interval ' + q, 1e-7, 1e-7)


def left_out(ctx, case, used, b):
    """Ignored samples before the first and after the last used one may as
    well be left out"""
    first, last = used.x.min(), used.x.max()
    c = b.loc[(b.x >= first) & (b.x <= last)]
    if len(c) == len(b) or c.x.diff().max() != b.x.diff().max() or len(
            used) < 5:
        return
    rb, rc = [ctx.got(run.seeded_run(3, t, **case['o'])) for t in (b, c)]
    ctx.eq(list(rb['metadata'].model), list(rc['metadata'].model),
           'models without the ends')
    fb, fc = [oracle.fcast_rows(r['data']) for r in (rb, rc)]
    m = fb.merge(fc, on=['model', 'date'], suffixes=('', '_c'))
    ctx.check(len(m) and m.date.max() >= last, 'common rows {}', len(m))
    ctx.close(m.y.values, m.y_c.values, 'values without the ends', 1e-9, 1e-9)


@facet('candidate lists', cases(), 420,
       rule='random series and ignored samples (runs, ends, one of several '
            'samples per date); the same series with junk values, null '
            'values or null weights at these; non-trivial: ignored values '
            'changed')
def f_lists(case, ctx):
    spec = case['s']
    df = gen.build(spec)
    if not oracle.usable(spec, df):
        ctx.skip()
    mask = ignored_mask(case, df, spec)
    if not mask.any():
        ctx.skip()
    a, b = variants(case, df, mask)
    compare(ctx, case, df, mask, a, b)
    if spec['freq'] == 'num':
        left_out(ctx, case, df.loc[~mask], b)
    ctx.label(spec['freq'], *case['how'])
    ctx.nontrivial(True)


@facet('defaults', cases(default=True), 100,
       rule='as above with default candidates and automatic composition; '
            'ignored samples away from the ends')
def f_default(case, ctx):
    spec = case['s']
    df = gen.build(spec)
    if not oracle.usable(spec, df):
        ctx.skip()
    mask = ignored_mask(case, df, spec)
    mask[:1] = mask[-1:] = False
    col = 'x' if spec['freq'] == 'num' else 'date'
    ok = df.loc[~mask]
    # Candidates depend on the dates that are used
    if not mask.any() or ok[col].iloc[0] != df[col].iloc[0] or \
            ok[col].iloc[-1] != df[col].iloc[-1] or \
            not oracle.one_period_apart(spec, ok):
        ctx.skip()
    a, b = variants(case, df, mask)
    compare(ctx, case, df, mask, a, b)
    ctx.label(spec['freq'], case['o']['season_add_mult'])
    ctx.nontrivial(True)


@facet('unused values only', cases(), 200,
       rule='two tables with different values at zero-weight samples give '
            'the same output in every cell; non-trivial: any')
def f_same(case, ctx):
    spec, o = case['s'], dict(case['o'])
    df = gen.build(spec)
    if not oracle.usable(spec, df):
        ctx.skip()
    mask = ignored_mask(case, df, spec)
    if not mask.any() or (~mask).sum() < 5:
        ctx.skip()
    if 'weight' not in df:
        df['weight'] = 1.
    df.loc[mask, 'weight'] = 0.
    b = df.copy()
    ju = [j for j in case['junk'] if j != 'nan'] or [77.]
    b.loc[mask, 'y'] = np.resize(ju, mask.sum())
    ra, rb = [ctx.got(run.seeded_run(9, t, **o)) for t in (df, b)]
    for name in ('data', 'forecast'):
        ta, tb = oracle.fcast_rows(ra[name]), oracle.fcast_rows(rb[name])
        pd.testing.assert_index_equal(ta.columns, tb.columns)
        ctx.eq(list(ta.date), list(tb.date), name + ' dates')
        ctx.eq(list(ta.model), list(tb.model), name + ' models')
        for c in ta.columns:
            if pd.api.types.is_numeric_dtype(ta[c]) and c != 'date':
                ctx.close(ta[c].astype(float), tb[c].astype(float),
                          name + ' ' + c, 1e-9, 1e-9)
    ctx.nontrivial(True)


@st.composite
def span_cases(draw):
    return dict(fr=draw(st.sampled_from(['D', 'W', 'W', 'MS', 'MS'])),
                limit=draw(st.sampled_from([365, 548, 730, 730, 730, 1095])),
                start=draw(gen.dates), under=draw(st.integers(0, 40)),
                head=draw(st.integers(0, 60)), tail=draw(st.integers(0, 60)),
                per=draw(st.integers(20, 60)), seed=draw(st.integers(0, 999)),
                how=draw(st.sampled_from(['zero', 'null', 'nullw', 'mixed'])),
                cal=draw(st.booleans()),
                slope=draw(st.sampled_from([0., 0.1, 1.])))


@facet('spans', span_cases(), 110,
       rule='default candidates for series whose used samples span about 1, '
            '1.5, 2 or 3 years, with ignored samples before and after them: '
            'the candidates of the used samples alone; non-trivial: the '
            'ignored samples cross the limit')
def f_spans(case, ctx):
    fr = case['fr']
    d0 = pd.Timestamp(case['start'])
    lo = d0 + pd.Timedelta(days=case['head'])
    hi = lo + pd.Timedelta(days=case['limit'] - case['under'])
    end = hi + pd.Timedelta(days=case['tail'])
    dates = pd.date_range(d0, end, freq='7D' if fr == 'W' else fr)
    used = (dates >= lo) & (dates <= hi)
    if used.sum() < 10:
        ctx.skip()
    if fr == 'D':   # thinned out: gaps are as good as null values
        pos = np.arange(len(dates))
        keep = pos % max(1, len(pos) // case['per']) == 0
        keep[np.nonzero(used)[0][[0, 1, -1]]] = True
        keep |= ~used
    else:
        keep = np.ones(len(dates), dtype=bool)
    dates, used = dates[keep], used[keep]
    n = len(dates)
    df = pd.DataFrame(dict(
        date=dates, weight=1., y=50 + case['slope'] * np.arange(n) +
        gen.noise(case['seed'], n)))
    want = df.loc[used]
    for k, i in enumerate(np.nonzero(~used)[0]):
        how = case['how']
        if how == 'mixed':
            how = ['zero', 'null', 'nullw'][k % 3]
        if how == 'null':
            df.loc[i, 'y'] = np.nan
        else:
            df.loc[i, 'weight'] = 0. if how == 'zero' else np.nan
    np.random.seed(1)
    kw = dict(extrapolate_years=0, include_all_fits=True,
              simplify_output=False)
    if case['cal']:
        kw['l_model_calendar'] = [models.LEAVES['cal_uk']]
    a = ctx.got(forecast.run_forecast(df, **kw))['metadata']
    b = ctx.got(forecast.run_forecast(want, **kw))['metadata']
    ctx.eq(sorted(a.model), sorted(b.model), 'candidates')
    # (that an optimizer converges may depend on the origin of time)
    a, b = [sorted(zip(t.model, t.status.replace('NO-FIT', 'FIT')))
            for t in (a, b)]
    ctx.eq(a, b, 'status')
    span = pd.Timedelta(days=case['limit'])
    ctx.label(fr, case['limit'])
    ctx.nontrivial(want.date.max() - want.date.min() <= span <
                   df.date.max() - df.date.min())


FACETS = [f_lists, f_default, f_same, f_spans]
