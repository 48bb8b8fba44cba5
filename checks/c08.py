"""C08: series in one table are forecast independently of each other"""
from vlib.runner import facet
from vlib import gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast

NAMES = ['a', 'ab', 'A', 'src1', 'src10', 'src2', 'b:c', 'test_source', 'z z']


@st.composite
def cases(draw):
    num = draw(st.integers(0, 3)) == 0
    k = draw(st.integers(2, 4))
    frs = ['num'] if num else ['D', 'D', 'W', 'MS', 'QS']
    ss = [draw(gen.series([draw(st.sampled_from(frs))], n_min=3, n_max=30,
                          noisy=True, dups=True, weights=False))
          for _ in range(k)]
    names = draw(st.permutations(NAMES))[:k]
    return dict(ss=ss, names=list(names), num=num,
                weights=draw(st.booleans()),
                order=draw(st.sampled_from(['concat', 'interleave',
                                            'shuffle'])),
                seed=draw(st.integers(0, 9999)),
                tr=draw(st.sampled_from([['linear'], ['constant'],
                                         ['linear', 'constant'],
                                         ['linear_nondec', 'constant']])),
                naive=draw(st.sampled_from([[], None, ['naive']])),
                # number of values left in one of the sources
                dead=draw(st.sampled_from([None, None, None, 0, 0, 1, 2])),
                all=draw(st.booleans()),
                # x or date column
                index=draw(st.booleans()),
                years=draw(st.sampled_from([0, 0.1, 0.3])))


def tables(case, ctx):
    parts = []
    for j, (s, name) in enumerate(zip(case['ss'], case['names'])):
        df = gen.build(s)
        if not oracle.usable(s, df) or gen.n_valid(df) < 3:
            ctx.skip()
        if case['weights']:
            w = np.array([1., 2., 0.5, 0.])
            df['weight'] = w[(np.arange(len(df)) + j) % 4]
            if (gen.n_valid(df) < 3):
                ctx.skip()
        if case.get('dead') is not None and j == case['seed'] % len(
                case['ss']):
            df.loc[df.index[case['dead']:], 'y'] = np.nan
        parts.append(df.assign(source=name))
    df = pd.concat(parts, ignore_index=True)
    if case['order'] == 'interleave':
        pos = np.concatenate([np.arange(len(p)) for p in parts])
        df = df.iloc[np.argsort(pos, kind='mergesort')]
    elif case['order'] == 'shuffle':
        # any merge of the sources: rows of a source keep their order, which
        # matters to repeated samples
        who = df.source.values[np.argsort(gen.noise(case['seed'], len(df)))]
        pos = {name: list(df.index[df.source == name])[::-1]
               for name in case['names']}
        df = df.loc[[pos[w].pop() for w in who]]
        if not any(s.get('dup') for s in case['ss']) and case['seed'] % 3:
            df = df.iloc[np.argsort(gen.noise(case['seed'] + 1, len(df)))]
    return parts, df.reset_index(drop=True) if case['seed'] % 2 else df


def amp(df):
    v = gen.valid(df).y
    if not len(v):
        return 1e-6
    return 1e-6 + float(v.max() - v.min()) + 1e-3 * float(np.abs(v).max())


def bounded(ctx, t, df, best, what):
    """Interval bounds of the past are within the residuals of the source"""
    f = oracle.fcast_rows(t)
    if not len(f):
        return
    col = 'x' if 'x' in df else 'date'
    v = gen.valid(df)
    y = dict(zip(f.date, f.y))
    res = np.array([a - y[d] for d, a in zip(v[col], v.y) if d in y])
    if not len(res):
        return
    res = res - res.mean()
    past = f.loc[f.date <= v[col].max()]
    e = 1e-6 * (1 + np.abs(v.y).max())
    for q in ('q5', 'q20', 'q80', 'q95'):
        d = (past[q] - past.y).values
        ctx.check((d >= res.min() - e).all() and (d <= res.max() + e).all(),
                  what + ': interval out of the residuals of the source')


COLS = ['date', 'model', 'y', 'weight', 'is_actuals', 'is_best_fit',
        'source_long']


def same(ctx, ra, rb, df, what, exact=False):
    """Tables of one source, in a multi-source (a) and single run (b)"""
    tol = 1e-9 if exact else 1e-5 * amp(df)
    a, b = ra['data'], rb['data']
    for c in COLS:
        if c not in ('y', 'weight'):
            ctx.eq(list(a[c]), list(b[c]), what + ': data ' + c)
    ctx.close(a.y, b.y, what + ': data values', 1e-6, tol)
    ctx.close(a.weight, b.weight, what + ': data weights', 0, 0)
    a, b = ra['metadata'], rb['metadata']
    for c in ('model', 'status', 'is_fit', 'is_best_fit', 'weights', 'freq',
              'actuals_x_range', 'source_long', 'add_mult'):
        ctx.eq(list(a[c]), list(b[c]), what + ': metadata ' + c)
    ctx.close(a.cost, b.cost, what + ': cost', 1e-5, tol ** 2 + 1e-9)
    ctx.eq(len(ra['optimize_info']), len(rb['optimize_info']),
           what + ': optimize_info')
    a, b = [r['forecast'] for r in (ra, rb)]
    for c in ('date', 'model', 'is_actuals'):
        ctx.eq(list(a[c]), list(b[c]), what + ': forecast ' + c)
    ctx.close(a.y, b.y, what + ': forecast values', 1e-6, tol)
    if 'q5' in b:
        ctx.eq(list(a.q5.isnull()), list(b.q5.isnull()), what + ': interval')


def split(res, name):
    return {k: t.loc[t.source == name].reset_index(drop=True)
            for k, t in res.items()}


@facet('tables', cases(), 200,
       rule='2-4 sources of different frequency, length and dates, '
            'concatenated, interleaved or shuffled, against each source '
            'alone; non-trivial: interleaved sources with forecasts')
def f_tables(case, ctx):
    parts, df = tables(case, ctx)
    before = df.copy()
    kw = dict(trend=case['tr'], season=[], naive=case['naive'],
              extrapolate_years=case['years'], include_all_fits=case['all'])
    res = ctx.got(run.seeded_run(case['seed'], df, **kw))
    pd.testing.assert_frame_equal(df, before)
    for k, t in res.items():
        some = {n for n, p in zip(case['names'], parts)
                if p.y.notnull().any()}
        ctx.check(set(t.source) <= set(case['names']) and (
            k not in ('data', 'forecast') and not case['all'] or
            set(t.source) >= some), 'sources in {}: {}', k, set(t.source))
        ctx.eq(list(t.index), list(range(len(t))), 'index of ' + k)
    for name, p in zip(case['names'], parts):
        one = ctx.got(run.seeded_run(1, p.drop(columns='source'),
                                     source_id=name, **kw))
        mine = split(res, name)
        same(ctx, mine, one, p, 'source ' + name)
        bounded(ctx, mine['forecast'], p, None, 'source ' + name)
        # one source in the table
        if name == case['names'][0]:
            own = ctx.got(run.seeded_run(1, p, **kw))
            same(ctx, own, one, p, 'single source ' + name, exact=True)
    simple = run.seeded_run(case['seed'], df, **dict(
        kw, simplify_output=True))
    ctx.eq(list(zip(simple.source, simple.date)), list(zip(
        res['forecast'].source, res['forecast'].date)), 'simplified output')
    ctx.label(case['order'], 'num' if case['num'] else 'dated',
              '{} sources'.format(len(parts)))
    ctx.nontrivial(case['order'] != 'concat' and
                   len(oracle.fcast_rows(res['forecast'])) > 0)


@facet('renamed source column', cases(), 40,
       rule='the same table with the source column named otherwise, and rows '
            'without index; non-trivial: any')
def f_renamed(case, ctx):
    parts, df = tables(case, ctx)
    kw = dict(trend=case['tr'], season=[], naive=case['naive'],
              extrapolate_years=case['years'], include_all_fits=case['all'])
    res = ctx.got(run.seeded_run(case['seed'], df, **kw))
    t = df.rename(columns={'source': 'the name'})
    ren = ctx.got(run.seeded_run(case['seed'], t, col_name_source='the name',
                                 **kw))
    for name, p in zip(case['names'], parts):
        same(ctx, split(ren, name), split(res, name), p, name, exact=True)
    ctx.nontrivial(True)


@facet('input lists', cases(), 80,
       rule='list of forecast inputs, each with its own candidates, against '
            'separate forecasts; non-trivial: several with forecasts')
def f_lists(case, ctx):
    parts, df = tables(case, ctx)
    trs = [['linear'], ['constant'], ['linear', 'constant'], None]
    ins, ones = [], []
    for j, (name, p) in enumerate(zip(case['names'], parts)):
        p = p.drop(columns='source')
        tr = trs[(j + case['seed']) % 4]
        start = None
        if case['seed'] % 5 == 0 and len(p) > 8:
            start = p['x' if case['num'] else 'date'].iloc[3]
        obj = None if tr is None else [models.build(e) for e in tr]
        make = forecast.ForecastInput
        if obj is not None and case['seed'] % 3 == 0:
            make = forecast.ForecastInput.create
        ins.append(make(name, p, obj, [], date_start_actuals=start))
        ctx.got(str(ins[-1]), 'description')
        ones.append(ctx.got(run.seeded_run(
            1, p, trend=tr or ['linear'], season=[], source_id=name,
            extrapolate_years=case['years'], include_all_fits=case['all'],
            date_start_actuals=start)))
    np.random.seed(case['seed'])
    res = ctx.got(forecast.run_l_forecast(
        ins, extrapolate_years=case['years'], include_all_fits=case['all']))
    for name, p, one in zip(case['names'], parts, ones):
        same(ctx, split(res, name), one, p, 'input ' + name)
    # the sources appear in the order of the list
    ctx.eq(list(res['data'].source.drop_duplicates()), case['names'],
           'order of inputs')
    agg = ctx.got(forecast.aggregate_forecast_dict_results(ones))
    for k in ('forecast', 'data', 'metadata', 'optimize_info'):
        ctx.eq(len(agg[k]), sum(len(o[k]) for o in ones), 'rows of ' + k)
        ctx.eq(list(agg[k].index), list(range(len(agg[k]))), 'index of ' + k)
    for name, p, one in zip(case['names'], parts, ones):
        same(ctx, split(agg, name), one, p, 'aggregated ' + name, exact=True)
    ctx.nontrivial(len(ones) > 1)
    # one input that is not in a list
    np.random.seed(case['seed'])
    one = forecast.run_l_forecast(
        ins[0], extrapolate_years=case['years'], include_all_fits=case['all'])
    same(ctx, one, ones[0], parts[0], 'single input')


@facet('intervals of tables', cases(), 64,
       rule='prediction interval computed for a table of several sources: '
            'each from its own residuals; non-trivial: sources with '
            'different residuals')
def f_pi(case, ctx):
    parts, df = tables(case, ctx)
    kw = dict(trend=case['tr'][:1], season=[], naive=[],
              extrapolate_years=case['years'])
    ones = []
    for j, (name, p) in enumerate(zip(case['names'], parts)):
        p['y'] = p.y * 100 ** (j % 3)
        ones.append(ctx.got(run.seeded_run(
            1, p.drop(columns='source'), source_id=name, **kw)))
    data = pd.concat([o['data'] for o in ones], ignore_index=True)
    if case['num'] is False and len({str(o['data'].date.dtype)
                                     for o in ones}) > 1:
        ctx.skip()
    if any(oracle.fcast_rows(o['data']).empty for o in ones):
        ctx.skip('source without forecast')
    np.random.seed(case['seed'])
    pi = ctx.got(forecast.get_pi(data))
    for name, p, o in zip(case['names'], parts, ones):
        t = pi.loc[pi.source == name].reset_index(drop=True)
        u = o['forecast']
        ctx.eq(sorted(zip(t.is_actuals.astype(bool), t.date)),
               sorted(zip(u.is_actuals.astype(bool), u.date)), 'rows')
        a = oracle.fcast_rows(t).sort_values('date')
        b = oracle.fcast_rows(u).sort_values('date')
        ctx.close(a.y.values, b.y.values, 'values', 1e-12, 0)
        bounded(ctx, t, p, None, name)
    ctx.nontrivial(True)


@st.composite
def option_cases(draw):
    fr = draw(st.sampled_from(['D', 'D', 'D', 'W', 'MS', 'num']))
    c = dict(ss=[draw(gen.series([fr], n_min=20, n_max=60, noisy=True,
                                 weights=True, dups=False, gaps=False,
                                 nulls=False))
                 for _ in range(2)], fr=fr, seed=draw(st.integers(0, 99)))
    o = c['o'] = dict(
        extrapolate_years=draw(st.sampled_from([0.05, 0.2, 0.5])),
        include_all_fits=draw(st.booleans()),
        season_add_mult=draw(st.sampled_from(['add', 'mult', 'both',
                                              'auto'])),
        pi_q1=draw(st.sampled_from([5, 10, 2])),
        pi_q2=draw(st.sampled_from([20, 30, 25])),
        pi_widening_freq=draw(st.sampled_from(['Y', 'M', 'W', 'D'])),
        use_cache=draw(st.booleans()), find_outliers=draw(st.booleans()))
    if fr == 'num':
        o.update(trend=['linear', 'constant'], season=[], naive=[])
        o['season_add_mult'] = 'add'
    else:
        for k, v in (('trend', [['linear'], ['constant', 'linear']]),
                     ('season', [['null'], ['wday2', 'null']]),
                     ('naive', [[], ['naive'], ['snaive']]),
                     ('season_weekly', [[], ['wday2', 'null'], ['wday2']]),
                     ('season_yearly', [['null'], []]),
                     ('calendar', [['cal_uk'], ['cal_us', 'xmas']])):
            if draw(st.booleans()):
                o[k] = draw(st.sampled_from(v))
    if draw(st.booleans()):
        c['start'] = draw(st.integers(1, 6))
    if fr == 'D' and 'calendar' in o:
        c['long'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o.pop('pi_widening_freq')
        o['n_cum'] = draw(st.sampled_from([1, 3, 14]))
    return c


@facet('options', option_cases(), 120,
       rule='any combination of options of a forecast (candidates of every '
            'kind, composition, calendars, outliers, start date, percentiles, '
            'widening, cache) for a table of two sources, for one source '
            'without source column, and for its normalized table: the same '
            'result; non-trivial: three or more options that are not the '
            'default')
def f_options(case, ctx):
    parts, o = [], dict(case['o'])
    for s, name in zip(case['ss'], 'ab'):
        d = gen.build(s)
        if case.get('long'):  # more than a year: calendars are used
            d = pd.DataFrame(dict(
                date=pd.date_range(d.date.min(), periods=420),
                y=np.resize(d.y, 420) + np.arange(420) / 50.))
        if gen.n_valid(d) < 15:
            ctx.skip()
        parts.append(d.assign(source=name))
    if case.get('start') is not None:
        c = 'x' if case['fr'] == 'num' else 'date'
        o['date_start_actuals'] = parts[0][c].iloc[case['start']]
        if o['date_start_actuals'] > parts[1][c].iloc[-8]:
            ctx.skip('nothing left')
    df = pd.concat(parts, ignore_index=True)
    both = ctx.got(run.seeded_run(case['seed'], df, **o))
    alone = parts[0].drop(columns='source')
    one = ctx.got(run.seeded_run(case['seed'], alone, source_id='a', **o))
    kw = run.kwargs(o)
    kw['simplify_output'] = False
    # the default of run_forecast_single() is another one
    kw.setdefault('n_cum', None)
    np.random.seed(case['seed'])
    norm = ctx.got(forecast.run_forecast_single(
        forecast.normalize_df(alone), source_id='a', **kw))
    for what, t in (('source of a table', split(both, 'a')),
                    ('normalized table', norm)):
        same(ctx, t, one, alone, what)
        a, b = t['forecast'], one['forecast']
        q = ['q{}'.format(v) for v in (
            o['pi_q1'], o['pi_q2'], 100 - o['pi_q1'], 100 - o['pi_q2'])]
        if not len(oracle.fcast_rows(b)):
            continue
        for c in q:
            ctx.check(c in a and c in b, what + ': no column {}', c)
            ctx.close(a[c], b[c], what + ': interval ' + c, 1e-6,
                      1e-5 * amp(alone))
    meta = one['metadata']
    m = ctx.got(run.seeded_run(case['seed'], alone, source_id='a',
                               **dict(o, simplify_output=True)))
    ctx.eq(list(m.date), list(one['forecast'].date), 'simplified')
    ctx.label(case['fr'], o['season_add_mult'],
              'start' if 'date_start_actuals' in o else 'whole',
              *['calendar'] * ('calendar' in meta.model.str.cat()))
    ctx.nontrivial(len(o) > 9 or o['season_add_mult'] != 'add')


FACETS = [f_tables, f_options, f_renamed, f_lists, f_pi]
