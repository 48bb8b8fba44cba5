"""C16: cached variables never change results"""
from vlib.runner import facet
from vlib import cmp, gen, mgen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm


@st.composite
def cases(draw):
    return dict(expr=draw(mgen.exprs(max_leaves=5)),
                pts=draw(mgen.points(n_max=60)), other=draw(mgen.points()),
                seed=draw(st.integers(0, 9999)), is_mult=draw(st.booleans()))


def ev(m, x, date, p, **kw):
    return np.broadcast_to(np.asarray(m(x, date, p, **kw), dtype=float),
                           x.shape)


@facet('evaluation', cases(), 1500,
       rule='models and compositions with and without the variables of '
            'init_cache; non-trivial: a variable is cached')
def f_eval(case, ctx):
    m = models.build(case['expr'])
    x, date = mgen.build_points(case['pts'])
    p = mgen.pick_params(models.collapse(case['expr']), case['seed'])
    c = ctx.got(m.init_cache(x, date))
    for k in set(m.l_cache_vars) | set(m.dict_f_cache):
        ctx.check(k in c, 'declared variable {} is not available', k)
    plain = ev(m, x, date, p, is_mult=case['is_mult'])
    for _ in range(2):  # caches are not used up
        ctx.close(ev(m, x, date, p, is_mult=case['is_mult'], **c), plain,
                  'value with cache', 0, 0)
    ctx.close(plain, models.ref(case['expr'], x, date, p, case['is_mult']),
              'value', 1e-9, mgen.scale_of(plain))
    # the cache belongs to the points it was made for
    x2, date2 = mgen.build_points(case['other'])
    m.init_cache(x2, date2)
    ctx.close(ev(m, x, date, p, is_mult=case['is_mult'], **c), plain,
              'value after another cache', 0, 0)
    ctx.close(ev(m, x, date, p, is_mult=case['is_mult']), plain,
              'value without cache', 0, 0)
    ctx.label('{} variables'.format(min(len(c), 3)))
    ctx.nontrivial(len(c) > 0)


days = st.lists(st.integers(0, 50), min_size=1, max_size=5, unique=True)


@st.composite
def name_cases(draw):
    return dict(lists=draw(st.lists(days, min_size=2, max_size=4)),
                kind=draw(st.sampled_from(
                    ['numbers', 'dates', 'date lists', 'functions',
                     'times'])),
                names=draw(st.sampled_from(['same', 'same', 'different'])),
                op=draw(st.sampled_from('+*')), start=draw(mgen.near),
                seed=draw(st.integers(0, 999)))


@facet('same names', name_cases(), 500,
       rule='compositions of 2 to 4 dummy models of the same name with '
            'different marks, evaluated and fitted with cache; non-trivial: '
            'different marks')
def f_names(case, ctx):
    # times of day: several marks of a list may be on one day
    date = pd.date_range(case['start'], periods=51,
                         freq='7H' if case['kind'] == 'times' else 'D')
    x = np.arange(51.)
    ms, masks = [], []
    for j, li in enumerate(case['lists']):
        name = 'd' if case['names'] == 'same' else 'd{}'.format(j)
        mask = np.isin(np.arange(51), li).astype(float)
        if case['kind'] == 'numbers':
            m = fm.get_model_dummy(name, li)
        elif case['kind'] in ('dates', 'times'):
            m = fm.get_model_dummy(name, list(date[li]))
        elif case['kind'] == 'date lists':
            m = fm.get_model_from_datelist(name, list(date[li]))
        else:
            m = fm.get_model_dummy(name, lambda a_x, a_date, li=tuple(
                li), **kw: np.isin(a_x, li).astype(float))
        ms.append(m)
        masks.append(mask)
    m = ms[0]
    for o in ms[1:]:
        m = m + o if case['op'] == '+' else m * o
    p = np.round(gen.noise(case['seed'], len(ms)) * 5, 2)
    want = np.sum([a * k for a, k in zip(p, masks)], axis=0) \
        if case['op'] == '+' else np.prod(
            [1 + a * k for a, k in zip(p, masks)], axis=0)
    ctx.close(ev(m, x, date, p), want, 'value', 1e-12, 1e-9)
    c = m.init_cache(x, date)
    ctx.close(ev(m, x, date, p, **c), want, 'value with cache', 1e-12, 1e-9)
    # each of them with the cache of all
    for a, k, o in zip(p, masks, ms):
        ctx.close(ev(o, x, date, [a], **c), a * k, 'part with cache', 1e-12,
                  1e-9)
    if case['op'] == '+':
        df = pd.DataFrame(dict(date=date, x=x, y=want + 3.))
        t = m + fm.model_constant
        np.random.seed(case['seed'])
        a = forecast.fit_model(t, df, 'D')['metadata']
        np.random.seed(case['seed'])
        b = forecast.fit_model(t, df, 'D', use_cache=False)['metadata']
        cmp.frame(ctx, a, b, 'fit', rtol=1e-6, atol=1e-6)
        if a.is_fit.iloc[0]:
            ctx.check(a.cost.iloc[0] < 1e-6 * (1 + (want ** 2).sum()),
                      'fit with cache: cost {}', a.cost.iloc[0])
    ctx.label(case['kind'])
    ctx.nontrivial(len({tuple(k) for k in masks}) > 1)


@st.composite
def fc_cases(draw):
    s = draw(gen.series(['D'], n_min=25, n_max=60, noisy=True))
    tr = draw(st.sampled_from([['linear'], ['constant'],
                               ['linear', 'constant'],
                               [['+', 'linear', 'ramp']]]))
    return dict(s=s, tr=tr, season=draw(st.lists(st.one_of(
        st.sampled_from(['wday', 'wday2', 'month', 'null', 'cal_uk', 'xmas',
                         'mstart']), mgen.generated_leaf()), min_size=1,
        max_size=2)), am=draw(st.sampled_from(['add', 'mult', 'both'])),
        seed=draw(st.integers(0, 999)))


@facet('forecasts', fc_cases(), 150,
       rule='forecasts with seasonal and dummy models, with and without '
            'cache, from the same random seed; non-trivial: a cached model '
            'is fitted')
def f_forecast(case, ctx):
    df = gen.build(case['s'])
    if not oracle.usable(case['s'], df):
        ctx.skip()
    kw = dict(trend=case['tr'], season=case['season'], extrapolate_years=0.1,
              include_all_fits=True, season_add_mult=case['am'])
    a = ctx.got(run.seeded_run(case['seed'], df, use_cache=True, **kw))
    b = ctx.got(run.seeded_run(case['seed'], df, use_cache=False, **kw))
    amp = float(np.nanmax(np.abs(df.y))) + 1e-9
    cmp.result(ctx, a, b, 'with cache', rtol=1e-7, atol=1e-9 * amp)
    m = a['metadata']
    ctx.nontrivial(bool((m.is_fit & m.model.str.contains(
        r'[+*]')).any()))


FACETS = [f_eval, f_names, f_forecast]
