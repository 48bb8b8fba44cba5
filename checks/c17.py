"""C17: initial guesses are valid for every series"""
from vlib.runner import facet
from vlib import gen, mgen, models, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm

NEED = ['ramp', 'sigmoid_step', 'linear_nondec', 'decay', 'two_steps', 'step',
        'sigmoid_step', 'ramp']


@st.composite
def values(draw, n):
    kind = draw(st.sampled_from(['any', 'constant', 'step', 'falling', 'huge',
                                 'positive', 'positive', 'tiny', 'few']))
    return dict(kind=kind, seed=draw(st.integers(0, 9999)),
                base=draw(st.sampled_from([0., 0., 5., -7., 100., 1e-3])),
                at=draw(st.integers(0, n - 1)))


def build_values(v, n):
    z = gen.noise(v['seed'], n)
    k = v['kind']
    if k == 'constant':
        return np.full(n, v['base'])
    if k == 'step':
        return v['base'] + 10. * (np.arange(n) >= v['at'])
    if k == 'falling':
        return v['base'] - 3. * np.arange(n) + z
    if k == 'huge':
        return v['base'] + 1e12 * z
    if k == 'tiny':
        return 1e-12 * z
    if k == 'positive':
        return 50 * (z + 1.001)
    if k == 'few':
        return np.round(2 * z)
    return v['base'] + 10 * z


@st.composite
def cases(draw):
    expr = draw(st.one_of(mgen.exprs(max_leaves=3),
                          mgen.exprs(max_leaves=4, names=NEED)))
    k = models.n_params(models.collapse(expr))
    n = max(k + 2, 3) + draw(st.sampled_from([0, 0, 1, 2, 5, 20]))
    return dict(expr=expr, n=n, v=draw(values(n)), start=draw(mgen.near),
                x=draw(st.sampled_from(['days', 'weeks', 'gaps', 'repeated',
                                        'offset', 'one'])),
                seed=draw(st.integers(0, 9999)))


def build_x(case):
    n, k = case['n'], case['x']
    off = np.arange(n)
    if k == 'weeks':
        off = off * 7
    elif k == 'gaps':
        off = np.cumsum(1 + (np.floor((gen.noise(
            case['seed'], n) + 1) * 3).astype(int) % 4))
    elif k == 'repeated':
        off = np.sort(np.floor((gen.noise(case['seed'], n) + 1) *
                               n / 4).astype(int))
    elif k == 'offset':
        off = off + 100
    elif k == 'one':
        off = off * 0 + 4
    return off.astype(float), pd.DatetimeIndex(
        pd.Timestamp(case['start']) + pd.to_timedelta(off, 'D'))


def lacking(expr, a_y, date):
    """Documented requirements on the input that are not met"""
    out = []
    for la in models.leaves(models.collapse(expr)):
        if la == 'wday' and len(set(date.weekday)) < 7:
            out.append(la)
        if la == 'decay' and not (a_y > 0).all():
            out.append(la)
    return out


@facet('guesses', cases(), 2600,
       rule='models and compositions, for series of the fewest samples a fit '
            'accepts or more: constant, huge, tiny, stepped, repeated or '
            'irregular x; non-trivial: a bounded parameter')
def f_guesses(case, ctx):
    expr = case['expr']
    m = models.build(expr)
    x, date = build_x(case)
    y = build_values(case['v'], case['n'])
    if lacking(expr, y, date):
        ctx.check(not m.validate_input(x, y, date),
                  'requirements of {} are not checked', m.name)
        ctx.label('input error')
        return
    ctx.check(m.validate_input(x, y, date), 'input of {} rejected', m.name)
    lo, hi = ctx.got(m.f_bounds(x, y))
    lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
    ctx.eq(lo.shape, (m.n_params,), 'lower bounds')
    ctx.eq(hi.shape, (m.n_params,), 'upper bounds')
    ctx.check((lo <= hi).all(), 'bounds out of order: {} {}', lo, hi)
    for is_mult in (False, True):
        g = np.asarray(m.f_init_params(x, y, is_mult=is_mult), dtype=float)
        ctx.eq(g.shape, (m.n_params,), 'initial parameters')
        ctx.check(np.isfinite(g).all(), 'initial parameters {}', g)
        ctx.check(((g >= lo) & (g <= hi)).all(),
                  'initial parameters {} out of bounds {} {}', g, lo, hi)
        ctx.eq(bool(fm.validate_initial_guess(g, (lo, hi))), True,
               'validation of guess')
    bounded = np.isfinite(lo) | np.isfinite(hi)
    if bounded.any():
        g = g.copy()
        i = int(np.nonzero(bounded)[0][0])
        g[i] = hi[i] + 1 if np.isfinite(hi[i]) else lo[i] - 1
        ctx.eq(bool(fm.validate_initial_guess(g, (lo, hi))), False,
               'validation of a guess out of bounds')
    ctx.nontrivial(bounded.any())


@st.composite
def fit_cases(draw):
    c = draw(cases())
    c['n'] = max(1, c['n'] - draw(st.sampled_from([0, 0, 0, 1, 2, 9])))
    return c


def size(e):
    return len(models.leaves(e))


@facet('fits', fit_cases(), 350,
       rule='fits of such models and series, also with too few samples: '
            'status, parameters within bounds; non-trivial: fitted with a '
            'bounded parameter')
def f_fits(case, ctx):
    expr = case['expr']
    core = models.collapse(expr)
    if core == 'null' or 'exp' in models.leaves(core) or \
            'fourier' in models.leaves(core) or \
            'quasilinear' in models.leaves(core):
        ctx.skip('overflows while fitting')
    if case['v']['kind'] == 'huge':
        ctx.skip()
    m = models.build(expr)
    x, date = build_x(case)
    y = build_values(case['v'], case['n'])
    df = pd.DataFrame(dict(x=x.astype(int), date=date, y=y))
    before = df.copy()
    res = ctx.got(forecast.fit_model(m, df, 'D'))
    pd.testing.assert_frame_equal(df, before)
    r = res['metadata'].iloc[0]
    o = res['optimize_info'].iloc[0]
    if case['n'] < m.n_params + 2:
        want = 'TS_TOO_SHORT'
    elif lacking(expr, y, date):
        want = 'INPUT_ERR'
    else:
        want = None
    if want:
        ctx.eq(r.status, want, 'status')
        ctx.check(not r.is_fit, 'unusable model is fitted')
        ctx.check(np.isnan(r.aic_c) and np.isnan(r.cost), 'AICc of no fit')
        ctx.eq(len(r.params), 0, 'parameters of no fit')
        ctx.eq(o.status, want, 'status in optimize_info')
        ctx.eq(bool(o.success), False, 'success in optimize_info')
        ctx.label(want)
        return
    ctx.check(r.status in ('FIT', 'NO-FIT'), 'status {}', r.status)
    ctx.eq(r.status == 'FIT', bool(r.is_fit), 'is_fit')
    lo, hi = r.model_obj.f_bounds(
        *( (x, y) if not model_scaled(m) else (x / 100, y)))
    p = np.asarray(r.params, dtype=float)
    if r.is_fit:
        ctx.eq(p.shape, (r.model_obj.n_params,), 'fitted parameters')
        ctx.check(np.isfinite(p).all(), 'fitted parameters {}', p)
        ctx.check(((p >= lo) & (p <= hi)).all(),
                  'fitted parameters {} out of bounds {} {}', p, lo, hi)
    ctx.label(r.status)
    ctx.nontrivial(bool(r.is_fit) and bool(
        (np.isfinite(lo) | np.isfinite(hi)).any()))


def model_scaled(m):
    return m.name == 'sigmoid'


@st.composite
def req_cases(draw):
    return dict(n=draw(st.integers(8, 40)), start=draw(mgen.near),
                keep=draw(st.sets(st.integers(0, 6), min_size=5)),
                low=draw(st.sampled_from([5., 1e-6, 0., -1e-6, -3., None])),
                at=draw(st.integers(0, 39)), seed=draw(st.integers(0, 999)))


@facet('requirements', req_cases(), 160,
       rule='forecast candidates with unmet requirements: weekdays missing, '
            'values that are not positive; non-trivial: a candidate is '
            'rejected')
def f_req(case, ctx):
    date = pd.date_range(case['start'], periods=case['n'])
    y = 20 + 5 * gen.noise(case['seed'], case['n'])
    if case['low'] is not None:
        y[case['at'] % case['n']] = case['low']
    df = pd.DataFrame(dict(date=date, y=y))
    df = df.loc[df.date.dt.weekday.isin(case['keep'])].reset_index(drop=True)
    if len(df) < 8:
        ctx.skip()
    res = ctx.got(run.seeded_run(
        case['seed'], df, trend=['constant', 'decay'], season=['wday', 'null'],
        naive=[], extrapolate_years=0.05, include_all_fits=True))
    meta = run.meta_by_model(res['metadata'])
    days = set(df.date.dt.weekday)
    n = len(df)
    pos = bool((df.y > 0).all())
    used = set(oracle.fcast_rows(res['data']).model)
    rejected = False
    for name, k, need in (
            ('constant', 1, True), ('decay', 3, pos),
            ('(constant+season_wday)', 7, len(days) == 7),
            ('(decay+season_wday)', 9, len(days) == 7 and pos)):
        st_ = meta[name]['status']
        if n < k + 2:
            ctx.eq(st_, 'TS_TOO_SHORT', 'status of ' + name)
        elif not need:
            ctx.eq(st_, 'INPUT_ERR', 'status of ' + name)
            rejected = True
        else:
            ctx.check(st_ in ('FIT', 'NO-FIT'), 'status of {}: {}', name, st_)
        ctx.eq(name in used, bool(meta[name]['is_fit']),
               'forecast of ' + name)
    ctx.nontrivial(rejected)


# - Requirements of models of the caller

RULES = dict(
    none=lambda x, y, d: None, true=lambda x, y, d: True,
    npos=lambda x, y, d: np.all(y > 0), pos=lambda x, y, d: bool((y > 0).all()),
    few=lambda x, y, d: len(x) < 20, dated=lambda x, y, d: d is not None,
    false=lambda x, y, d: False)


def rule_assert(x, y, d):
    assert x.max() < 25


RULES['short'] = rule_assert


def holds(rule, x, y, d):
    try:
        r = RULES[rule](x, y, d)
    except AssertionError:
        return False
    return r is None or bool(r)


@st.composite
def custom_cases(draw):
    rules = st.lists(st.sampled_from(sorted(RULES)), max_size=3)
    return dict(a=draw(rules), b=draw(rules), n=draw(st.integers(7, 40)),
                low=draw(st.sampled_from([5., 0., -3.])),
                at=draw(st.integers(0, 39)), dated=draw(st.booleans()),
                single=draw(st.booleans()), op=draw(st.sampled_from(
                    ['a', '+', '*', 'fixed', 'simple'])),
                seed=draw(st.integers(0, 999)))


@facet('caller models', custom_cases(), 250,
       rule='models with validation functions of their own (results true, '
            'false, nothing, or failed assertions), alone, in sums, products '
            'and with fixed parameters: rejected just if one is not met; '
            'non-trivial: rejected')
def f_custom(case, ctx):
    def f(a_x, a_date, params, is_mult=False, **kwargs):
        return params[0] + params[1] * a_x

    def make(name, rules):
        v = [RULES[r] for r in rules]
        if case['single'] and len(v) == 1:
            v = v[0]
        return fm.ForecastModel(name, 2, f, l_f_validate_input=v or None)
    m, rules = make('a', case['a']), list(case['a'])
    if case['op'] in '+*':
        b = make('b', case['b'])
        rules += case['b']
        m = m + b if case['op'] == '+' else m * b
    elif case['op'] == 'fixed':
        m = fm.fix_params_fmodel(m, [np.nan, 0.5])
    n = case['n']
    y = 20 + 5 * gen.noise(case['seed'], n)
    y[case['at'] % n] = case['low']
    df = pd.DataFrame(dict(x=np.arange(n), y=y))
    if case['dated']:
        df['date'] = pd.date_range('2019-01-07', periods=n)
    x = df.x.values
    date = pd.DatetimeIndex(df.date) if case['dated'] else None
    ok = all([holds(r, x, y, date) for r in rules])
    ctx.eq(bool(m.validate_input(x, y, date)), ok, 'input of {} with '
           'requirements {}'.format(m.name, rules))
    r = ctx.got(run.forecast.run_forecast(
        df, l_model_trend=[m, fm.model_constant],
        l_model_season=[fm.model_null], l_model_naive=[],
        include_all_fits=True, simplify_output=False))
    meta = run.meta_by_model(r['metadata'])
    ctx.eq(meta[m.name]['status'] != 'INPUT_ERR', ok, 'status of ' + m.name)
    if not ok:
        ctx.check(not meta[m.name]['is_fit'], 'fit of ' + m.name)
        ctx.check(m.name not in set(oracle.fcast_rows(r['data']).model),
                  'forecast of ' + m.name)
    ctx.label(case['op'], 'met' if ok else 'not met')
    ctx.nontrivial(not ok)


@st.composite
def blind_cases(draw):
    expr = draw(st.one_of(
        st.sampled_from(sorted(models.N_PARAMS) + ['spike', 'spike']),
        mgen.exprs(max_leaves=3)))
    return dict(expr=expr, n=draw(st.integers(8, 40)), start=draw(mgen.near),
                x=draw(st.sampled_from(['days', 'weeks', 'gaps', 'offset'])),
                given=draw(st.sampled_from([[], ['x'], ['x', 'date']])),
                mult=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


@facet('without values', blind_cases(), 300,
       rule='initial parameters of models and compositions without values of '
            'a series, with or without its x and dates; non-trivial: the '
            'model has parameters')
def f_blind(case, ctx):
    e = case['expr']
    m = fm.model_spike if e == 'spike' else models.build(e)
    x, date = build_x(case)
    kw = {}
    if 'x' in case['given']:
        kw['a_x'] = x
    if 'date' in case['given']:
        kw['a_date'] = date
    np.random.seed(case['seed'])
    g = np.asarray(ctx.got(m.f_init_params(is_mult=case['mult'], **kw)),
                   dtype=float)
    ctx.eq(g.shape, (m.n_params,), 'initial parameters of ' + m.name)
    ctx.check(np.isfinite(g).all(), 'initial parameters {}', g)
    if isinstance(e, str) and 'x' in case['given']:
        lo, hi = [np.asarray(b, dtype=float) for b in m.f_bounds(x, None)]
        ctx.eq((lo.shape, hi.shape), (g.shape, g.shape), 'bounds')
        ctx.check(((g >= lo) & (g <= hi)).all(),
                  'initial parameters {} out of bounds {} {}', g, lo, hi)
    ctx.label(e if isinstance(e, str) else 'composed')
    ctx.nontrivial(m.n_params > 0)


FACETS = [f_guesses, f_fits, f_req, f_custom, f_blind]
ASSUMPTIONS = ['fits of exponential and quasilinear models are excluded: they '
               'may overflow while fitting; random guesses are checked as '
               'drawn']
