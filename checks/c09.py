"""C09: all accepted input layouts give the same forecast"""
from vlib.runner import facet
from vlib import cmp, gen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models, model_utils

DATED = ['text', 'text dmy', 'date objects', 'index', 'named index', 'series',
         'unnamed series', 'renamed', 'extra', 'columns', 'row index',
         'int index', 'date index and column', 'repeated index', 'normalized',
         'list', 'renamed list', 'text values', 'shuffled', 'position column']
NUM = ['index', 'named index', 'series', 'unnamed series', 'renamed', 'extra',
       'columns', 'row index', 'int32', 'float x', 'normalized', 'list',
       'renamed list', 'text values', 'shuffled', 'position']


@st.composite
def cases(draw):
    num = draw(st.integers(0, 2)) == 0
    layout = draw(st.sampled_from(NUM if num else DATED))
    s = draw(gen.series(['num'] if num else ['D', 'D', 'W', 'MS', 'QS', 'Y'],
                        n_min=3, n_max=30, noisy=True, dups=True,
                        weights=False if 'series' in layout else 'maybe'))
    if layout == 'shuffled':
        s.pop('dup', None)
    if layout == 'position':
        s['x0'] = 0
        s.pop('dup', None)
        s.pop('drop', None)
    return dict(s=s, layout=layout, num=num,
                names=draw(st.permutations(
                    ['value', 'ds', 'Y', 'w', 'time', 'index', 'q', '1',
                     'target', 'the date'])),
                seed=draw(st.integers(0, 999)),
                tr=draw(st.sampled_from([['linear'], None, ['constant'],
                                         ['linear', ['+', 'linear', 'ramp']]
                                         ])),
                kw=dict(
                    extrapolate_years=draw(st.sampled_from([0, 0.1, 0.5])),
                    include_all_fits=draw(st.booleans())))


def layout(case, df):
    """The same series, in another layout. Returns input and arguments"""
    how, kw = case['layout'], {}
    col = 'x' if case['num'] else 'date'
    d = df.copy()
    if how == 'text':
        d['date'] = d.date.dt.strftime('%Y-%m-%d')
    elif how == 'text dmy':
        d['date'] = d.date.dt.strftime('%d %b %Y')
    elif how == 'date objects':
        d['date'] = d.date.dt.date
    elif how in ('index', 'named index'):
        d = d.set_index(col)
        d.index.name = None if how == 'index' else (
            [col, 'ds', 'Date', 'index', 'the day', 3])[case['seed'] % 6]
    elif how in ('series', 'unnamed series'):
        d = d.set_index(col).y
        if case['seed'] % 2:
            d.index.name = 'when'
        if how == 'unnamed series':
            d.name = None
    elif how in ('renamed', 'renamed list'):
        names = dict(zip(['y', col, 'weight'], case['names']))
        d = d.rename(columns=names)
        kw = {'col_name_y': names['y'], 'col_name_' + col: names[col],
              'col_name_weight': names['weight']}
        # columns of the default names that are not part of the series
        for i, k in enumerate(names):
            if names[k] in d and k not in d and case['seed'] >> i & 1:
                d.insert(i % (len(d.columns) + 1), k,
                         [-7., 'none', None][case['seed'] % 3])
    elif how == 'extra':
        d.insert(0, 'foo', 'text')
        d['bar'] = np.nan
        d['model'] = 'nothing'
        d['is_actuals'] = False
        d['index'] = -1
        d['date2' if case['num'] else 'day'] = pd.Timestamp('1999-01-01')
    elif how == 'columns':
        d = d[list(d.columns)[::-1]]
    elif how == 'row index':
        d.index = ['r{}'.format(i % 7) for i in range(len(d))]
    elif how == 'int index':
        d.index = np.arange(len(d))[::-1] * 3 + 5
    elif how == 'date index and column':
        d.index = d.date + pd.Timedelta(days=400)
    elif how == 'repeated index':
        d.index = np.zeros(len(d), dtype=int)
    elif how == 'normalized':
        d = forecast.normalize_df(d)
    elif how == 'int32':
        d['x'] = d.x.astype('int32')
    elif how == 'float x':
        d['x'] = d.x.astype(float)
    elif how == 'text values':
        d['y'] = pd.Series([repr(float(v)) for v in d.y], index=d.index,
                           dtype=object)
    elif how == 'shuffled':
        d = d.iloc[np.argsort(gen.noise(case['seed'], len(d)))]
    elif how == 'position':
        d = d.drop(columns='x')
        d.index = ['k{}'.format(i) for i in range(len(d))]
    elif how == 'position column':
        d['x'] = np.nan
        d = d.drop(columns='x')
    return d, kw


@facet('layouts', cases(), 640,
       rule='a series as column of dates, of numbers, text, objects, index, '
            'series, renamed and shuffled columns, extra columns, list input; '
            'non-trivial: forecasts a model')
def f_layouts(case, ctx):
    df = gen.build(case['s'])
    if not oracle.usable(case['s'], df):
        ctx.skip()
    # ForecastInput has a default of its own
    tr = case['tr'] or (['linear'] if 'list' in case['layout'] else None)
    opts = run.kwargs(dict(trend=tr, season=[], **case['kw']))
    d, kw = layout(case, df)
    before = d.copy()
    d0 = df.copy()
    np.random.seed(case['seed'])
    a = ctx.got(forecast.run_forecast(df, simplify_output=False, **opts))
    cmp.untouched(ctx, df, d0, 'input')
    np.random.seed(case['seed'])
    if 'list' in case['layout']:
        l_opts = dict(opts)
        tr, se = l_opts.pop('l_model_trend'), l_opts.pop('l_model_season')
        b = forecast.run_l_forecast([forecast.ForecastInput(
            'src', d, tr, se)], **dict(l_opts, **kw))
    else:
        b = forecast.run_forecast(d, simplify_output=False,
                                  **dict(opts, **kw))
    cmp.untouched(ctx, d, before, 'input')
    ign = []
    if case['layout'] == 'float x':
        ign = ['actuals_x_range', 'source_long']
    cmp.result(ctx, b, a, case['layout'], ignore=ign)
    ctx.label(case['layout'], 'num' if case['num'] else 'dated')
    ctx.nontrivial(len(oracle.fcast_rows(a['forecast'])) > 0)


@st.composite
def arg_cases(draw):
    s = draw(gen.series(['D', 'W', 'MS', 'num'], n_min=14, n_max=40,
                        noisy=True, weights='maybe', gaps=True))
    return dict(s=s, seed=draw(st.integers(0, 999)),
                year=draw(st.sampled_from([0.1, 0.3])),
                tr=draw(st.lists(st.sampled_from(
                    ['linear', 'constant', 'ramp', 'step']), min_size=1,
                    max_size=3)),
                start=draw(st.integers(0, 6)),
                outliers=draw(st.booleans()),
                am=draw(st.sampled_from(['add', 'mult', 'both', 'auto'])))


@facet('arguments', arg_cases(), 110,
       rule='every public function that takes a table or a list of models: '
            'arguments stay as they were; non-trivial: any')
def f_args(case, ctx):
    df = gen.build(case['s'])
    if not oracle.usable(case['s'], df) or gen.n_valid(df) < 5:
        ctx.skip()
    num = case['s']['freq'] == 'num'
    frozen = []

    def keep(d, what):
        frozen.append((d, d.copy(), what))
        return d
    df.index = np.arange(len(df)) * 2 + 1
    keep(df, 'table')
    tr = [models.build(e) for e in case['tr']]
    season = [forecast_models.model_season_wday,
              forecast_models.model_null] if not num else []
    cal = [forecast_models.model_calendar_uk]
    naive = [forecast_models.model_naive]
    lists = [(li, list(li)) for li in (tr, season, cal, naive)]
    start = df['x' if num else 'date'].iloc[case['start']]
    np.random.seed(case['seed'])
    res = ctx.got(forecast.run_forecast(
        df, tr, season, date_start_actuals=start, simplify_output=False,
        extrapolate_years=case['year'], include_all_fits=True,
        find_outliers=case['outliers'], l_model_naive=naive,
        l_model_calendar=cal, season_add_mult=case['am']))
    for k, t in res.items():
        keep(t, k)
    norm = keep(forecast.normalize_df(df), 'normalized')
    clean = keep(norm.loc[~norm.y.isnull()].assign(weight=1.), 'clean')
    fits = forecast.fit_model(models.build('linear'), clean, 'D')
    keep(fits['metadata'], 'fit')
    if norm.y.notnull().all():
        forecast_models.get_model_outliers(norm)
    if len(norm) > 3:
        model_utils.is_multiplicative(norm)
    model_utils.interpolate_df(norm, include_mask=True)
    model_utils.detect_freq(norm)
    if not num:
        d = keep(norm.date.copy(), 'dates')
        model_utils.detect_freq(d)
        forecast_models.get_l_model_auto_season(d)
        model_utils.get_normalized_x_from_date(d)
    forecast.get_pi(res['data'])
    forecast.aggregate_forecast_dict_results([res, res])
    s = keep(pd.Series([3., 1., 2.], index=['a', 'b', 'c']), 'criteria')
    model_utils.get_s_aic_c_best_result_key(s)
    forecast.run_forecast(norm, tr, [], extrapolate_years=0.1)
    for d, before, what in frozen:
        cmp.untouched(ctx, d, before, what)
    for li, before in lists:
        ctx.eq(li, before, 'list of models')
    ctx.nontrivial(True)


FACETS = [f_layouts, f_args]
ASSUMPTIONS = ['two or more samples, at least two of them one period apart']
