"""C10: input normalization keeps every sample with its day count"""
from vlib.runner import facet
from vlib import cmp, gen
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, model_utils

KINDS = ['date', 'text', 'index', 'x', 'num index', 'position', 'date and x',
         'hours', 'objects', 'minutes', 'seconds', 'text time']
UNIT = {'hours': 'hours', 'minutes': 'minutes', 'seconds': 'seconds',
        'text time': 'minutes'}
PER = {'hours': 24, 'minutes': 24 * 60, 'seconds': 86400,
       'text time': 24 * 60}
SOURCES = ['b', 'a', 'B', 'a1', 'zz', 'src', '10', '9']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    multi = draw(st.booleans())
    n = draw(st.integers(1, 40))
    per = PER.get(kind, 1)
    day = st.integers(0, draw(st.sampled_from([3, 20, 400, 3000])) * per)
    rows = [dict(t=draw(day) * (-1 if kind in ('x', 'num index') and
                                draw(st.integers(0, 9)) == 0 else 1),
                 src=draw(st.integers(0, 3)) if multi else 0,
                 y=draw(st.sampled_from([0., 1., -2., 3.5, None, 7e6, 1e-9])),
                 w=draw(st.sampled_from([1., 0., 0.5, 2., None])))
            for _ in range(n)]
    return dict(
        kind=kind, multi=multi, rows=rows, start=draw(gen.dates),
        weight=draw(st.booleans()), rename=draw(st.booleans()),
        names=draw(st.permutations(SOURCES)),
        extra=draw(st.booleans()), order=draw(st.integers(0, 999)),
        float=draw(st.booleans()))


def table(case):
    """Input table, arguments, and the rows expected in the output"""
    kind, t0 = case['kind'], pd.Timestamp(case['start'])
    recs = []
    for i, r in enumerate(case['rows']):
        rec = dict(y=np.nan if r['y'] is None else r['y'])
        if kind in ('x', 'num index'):
            rec['x'] = r['t']
        elif kind != 'position':
            rec['date'] = t0 + pd.Timedelta(
                **{UNIT.get(kind, 'days'): r['t']})
        if kind == 'date and x':
            rec['x'] = r['t'] * 2 + 11
        if case['weight']:
            rec['weight'] = np.nan if r['w'] is None else r['w']
        if case['multi']:
            rec['source'] = case['names'][r['src']]
        recs.append(rec)
    df = pd.DataFrame(recs)
    want = df.copy()
    if kind == 'position':
        want['x'] = want.groupby('source').cumcount() if case['multi'] \
            else np.arange(len(df))
    if 'x' not in want:
        g = want.groupby('source').date if case['multi'] else None
        first = g.transform('min') if case['multi'] else pd.Series(
            [want.date.min()] * len(want))
        monday = pd.Series([d - pd.Timedelta(days=d.weekday())
                            for d in first])
        want['x'] = [int((d - m) / pd.Timedelta(days=1))
                     for d, m in zip(want.date, monday)]
    if kind in ('text', 'text time'):
        df['date'] = [d.isoformat() for d in df.date]
    elif kind == 'objects':
        df['date'] = [d.date() for d in df.date]
    elif kind == 'index':
        df = df.set_index('date')
        if case['float']:
            df.index.name = None
    elif kind == 'num index':
        df = df.set_index('x')
        if case['float']:
            df.index.name = None
    if kind in ('date', 'x') and case['order'] % 3 == 0:
        df.index = [5] * len(df)
    kw = {}
    if case['rename']:
        names = dict(y='Value', x='the x', date='ds', source='Id',
                     weight='confidence')
        kw = {'col_name_' + k: v for k, v in names.items()}
        df = df.rename(columns=names)
    if case['extra']:
        df['foo'] = 'text'
        df['is_actuals'] = True
        df.insert(0, 'y2', -1.)
        if case['rename']:
            df['sources'] = 'other'
    return df, kw, want


def key(r):
    return tuple('null' if v is None or v != v else v for v in r)


@facet('normalize', cases(), 2400,
       rule='tables of up to 4 sources with dates (also text, objects, index, '
            'hours), numbers or positions, repeated and unordered samples, '
            'renamed and unrelated columns; non-trivial: more than 2 rows')
def f_normalize(case, ctx):
    df, kw, want = table(case)
    if case['kind'] == 'num index' and case['multi']:
        ctx.skip('the index of several sources is no sample number')
    before = df.copy()
    out = ctx.got(forecast.normalize_df(df, **kw))
    cmp.untouched(ctx, df, before, 'input')
    cols = [c for c in ('date', 'source', 'x', 'y', 'weight') if c in want]
    ctx.eq(list(out.columns), cols, 'columns')
    ctx.eq(list(out.index), list(range(len(want))), 'row numbers')
    ctx.eq(sorted(map(repr, map(key, out[cols].values.tolist()))),
           sorted(map(repr, map(key, want[cols].astype(
               {'y': float}).values.tolist()))), 'rows')
    by = [c for c in ('source', 'x', 'date') if c in want]
    order = list(map(tuple, out[by].values.tolist()))
    ctx.eq(order, sorted(order), 'order of rows')
    ctx.check(pd.api.types.is_float_dtype(out.y), 'values are not floats')
    if 'date' in out:
        ctx.check(pd.api.types.is_datetime64_any_dtype(out.date),
                  'dates are not dates')
    twice = forecast.normalize_df(out)
    cmp.frame(ctx, twice, out, 'normalized twice')
    if 'date' in want and not case['multi'] and case['kind'] != 'date and x':
        ctx.eq(sorted(model_utils.get_normalized_x_from_date(out.date)),
               list(out.x), 'x of dates')
        if case['kind'] not in UNIT:
            ctx.eq(list(out.x % 7), list(out.date.dt.weekday),
                   'x modulo 7 and weekdays')
    ctx.label(case['kind'], 'multi' if case['multi'] else 'single')
    ctx.nontrivial(len(want) > 2)


@facet('empty', st.fixed_dictionaries(dict(
    cols=st.lists(st.sampled_from(['date', 'x', 'weight', 'source', 'z']),
                  unique=True), series=st.booleans(), idx=st.booleans())), 60,
       rule='tables and series without rows; non-trivial: any')
def f_empty(case, ctx):
    d = pd.DataFrame({c: [] for c in ['y'] + case['cols']})
    if case['idx']:
        d.index = pd.DatetimeIndex([])
    if case['series']:
        d = d.y
    ctx.check(forecast.normalize_df(d) is None, 'empty input normalized')
    ctx.check(forecast.run_forecast(d) is None, 'empty input forecast')
    ctx.nontrivial(True)


@st.composite
def series_cases(draw):
    return dict(
        n=draw(st.integers(1, 30)), dated=draw(st.booleans()),
        start=draw(gen.dates), step=draw(st.sampled_from([1, 7, 3])),
        name=draw(st.sampled_from([None, 'y', 'value', 5, 'x', 'date'])),
        x0=draw(st.integers(-5, 20)), order=draw(st.integers(0, 99)))


@facet('series objects', series_cases(), 400,
       rule='series with date or numeric index, any name and order; '
            'non-trivial: more than 2 samples')
def f_series(case, ctx):
    n = case['n']
    i = np.arange(n) * case['step']
    idx = pd.Timestamp(case['start']) + pd.to_timedelta(i, 'D') \
        if case['dated'] else i + case['x0']
    s = pd.Series(gen.noise(case['order'], n), index=idx, name=case['name'])
    p = s.iloc[np.argsort(gen.noise(case['order'] + 1, n))]
    before = p.copy()
    out = ctx.got(forecast.normalize_df(p))
    cmp.untouched(ctx, p, before, 'input')
    ctx.eq(list(out.y), list(s), 'values')
    if case['dated']:
        ctx.eq(list(out.columns), ['date', 'x', 'y'], 'columns')
        ctx.eq(list(out.date), list(s.index), 'dates')
        ctx.eq(list(out.x), list(i + s.index[0].weekday()), 'x')
    else:
        ctx.eq(list(out.columns), ['x', 'y'], 'columns')
        ctx.eq(list(out.x), list(s.index), 'x')
    ctx.nontrivial(n > 2)


FACETS = [f_normalize, f_empty, f_series]
ASSUMPTIONS = ['one kind of source identifiers per table; no null source ids']
