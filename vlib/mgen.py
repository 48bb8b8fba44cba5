"""Strategies for model expressions, parameters and evaluation points"""
import datetime

from vlib import boot  # noqa
from vlib import gen, models
import numpy as np
import pandas as pd
from hypothesis import strategies as st

UNDATED = ['constant', 'linear', 'linear_nondec', 'quasilinear', 'exp',
           'decay', 'step', 'two_steps', 'sigmoid_step', 'sigmoid', 'ramp']
DATED = ['wday', 'wday2', 'month', 'fourier', 'cal_uk', 'cal_us', 'cal_ita',
         'xmas', 'mstart']

near = st.dates(datetime.date(2018, 1, 1), datetime.date(2021, 12, 31)).map(
    lambda d: d.isoformat())


@st.composite
def generated_leaf(draw, dated=True):
    k = draw(st.sampled_from(['step_date', 'spike_date', 'dates', 'dates',
                              'nums'] if dated else ['nums']))
    if k == 'step_date':
        return [k, draw(near)]
    if k == 'spike_date':
        a, b = sorted([draw(near), draw(near)])
        return [k, a, b]
    name = draw(st.sampled_from(['d', 'my dates', 'd+e', 'model_dummy']))
    if k == 'dates':
        return [k, name] + draw(st.lists(st.lists(
            near, min_size=1, max_size=4), min_size=1, max_size=3))
    return [k, name, draw(st.lists(st.integers(0, 60), min_size=1,
                                   max_size=4))]


@st.composite
def fixed_leaf(draw, names):
    """Model with some or all parameters fixed"""
    base = draw(st.one_of(st.sampled_from(names), st.sampled_from([
        ['+', 'linear', 'step'], ['*', 'linear', 'ramp'],
        ['+', 'constant', 'quasilinear']])))
    v = pick_params(base, draw(st.integers(0, 99))).tolist()
    free = draw(st.one_of(st.just(0), st.integers(0, 2 ** len(v) - 1)))
    return ['fixed', base, [None if free >> i & 1 else a
                            for i, a in enumerate(v)]] + (
        [1] if draw(st.booleans()) else [])


def leaf(dated=True, null=True, names=None, fixed=True):
    base = names or (UNDATED + (DATED if dated else []))
    opts = [st.sampled_from(base), st.sampled_from(base),
            generated_leaf(dated)]
    if fixed and not names:
        opts.append(fixed_leaf(base))
    if null:
        opts.append(st.just('null'))
    return st.one_of(opts)


def exprs(dated=True, null=True, max_leaves=5, names=None, fixed=True):
    return st.recursive(
        leaf(dated, null, names, fixed),
        lambda s: st.tuples(st.sampled_from(['+', '*']), s, s).map(list),
        max_leaves=max_leaves)


def pick_params(expr, nseed):
    """Moderate parameter values for which every formula is finite"""
    u = gen.noise(nseed, 64)
    it = iter(np.concatenate([u, gen.noise(nseed + 1, 512)]))

    def one(e):
        if not isinstance(e, str):
            if e[0] in '+*':
                return one(e[1]) + one(e[2])
            if e[0] == 'fixed':
                return [a for a, v in zip(one(e[1]), e[2]) if v is None]
            return [next(it) * 5 for _ in range(models.n_params(e))]
        n = models.n_params(e)
        v = [next(it) for _ in range(n)]
        if e == 'quasilinear':
            return [v[0] * 3, 1 + v[1], v[2] * 50]
        if e == 'exp':
            return [v[0] * 4, 1 + v[1] * 0.05]
        if e == 'decay':
            return [v[0] * 9, -abs(v[1]) * 0.2, v[2] * 9]
        if e == 'step':
            return [v[0] * 20 + 20, v[1] * 9]
        if e == 'two_steps':
            return [v[0] * 20 + 20, v[1] * 9, v[2] * 20 + 20, v[3] * 5]
        if e in ('sigmoid', 'sigmoid_step'):
            return [v[0] * 9, v[1] * 20 + 20, abs(v[2]) * 2]
        if e == 'ramp':
            return [v[0] * 20 + 20, v[1] * 3]
        return [t * 4 for t in v]
    return np.round(np.array(one(expr), dtype=float), 3)


@st.composite
def points(draw, n_min=1, n_max=40):
    """Evaluation points: start, day offsets in any order"""
    n = draw(st.integers(n_min, n_max))
    if n_max > 40 and draw(st.integers(0, 4)) == 0:
        n = draw(st.sampled_from([61, 80, 120, 366]))
    how = draw(st.integers(0, 2))
    if how == 0:
        off = list(range(n))
    elif how == 1:
        step = draw(st.sampled_from([7, 7, 2, 30]))
        off = [step * i for i in range(n)]
    else:
        off = draw(st.lists(st.integers(0, 400), min_size=n, max_size=n)) \
            if n <= 60 else [int(200 + 200 * v) for v in gen.noise(
                draw(st.integers(0, 99)), n)]
    return dict(start=draw(near), off=off, x0=draw(st.integers(0, 6)))


def build_points(p):
    """x (days from some Monday or so), DatetimeIndex"""
    off = np.array(p['off'])
    date = pd.DatetimeIndex(pd.Timestamp(p['start']) +
                            pd.to_timedelta(off, 'D'))
    return (off + p['x0']).astype(float), date


def scale_of(y):
    return 1e-9 * (1 + float(np.abs(np.asarray(y)).max()))
