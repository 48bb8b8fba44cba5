"""
Model specifications: JSON-able expressions over named leaf models, built with
the library's public operators, next to an independent reference evaluation
written from the documentation.
"""
from vlib import boot  # noqa
import numpy as np
import pandas as pd
from anticipy import forecast_models as fm

LEAVES = {
    'null': fm.model_null,
    'constant': fm.model_constant,
    'linear': fm.model_linear,
    'linear_nondec': fm.model_linear_nondec,
    'quasilinear': fm.model_quasilinear,
    'exp': fm.model_exp,
    'decay': fm.model_decay,
    'step': fm.model_step,
    'two_steps': fm.model_two_steps,
    'sigmoid_step': fm.model_sigmoid_step,
    'sigmoid': fm.model_sigmoid,
    'ramp': fm.model_ramp,
    'wday': fm.model_season_wday,
    'wday2': fm.model_season_wday_2,
    'month': fm.model_season_month,
    'fourier': fm.model_season_fourier_yearly,
    'cal_uk': fm.model_calendar_uk,
    'cal_us': fm.model_calendar_us,
    'cal_ita': fm.model_calendar_ita,
    'xmas': fm.model_dummy_christmas,
    'mstart': fm.model_dummy_month_start,
    'naive': fm.model_naive,
    'snaive': fm.model_snaive_wday,
}
N_PARAMS = dict(null=0, constant=1, linear=2, linear_nondec=2, quasilinear=3,
                exp=2, decay=3, step=2, two_steps=4, sigmoid_step=3,
                sigmoid=3, ramp=2, wday=6, wday2=1, month=11, fourier=20,
                cal_uk=2, cal_us=1, cal_ita=2, xmas=1, mstart=1)


def build(expr):
    """expr: leaf name, ['+', a, b], ['*', a, b], ['step_date', d],
    ['spike_date', d0, d1], ['dates', name, [..], ..], ['nums', name, [..]],
    ['fixed', expr, values or null for parameters that are not fixed, any]"""
    if isinstance(expr, str):
        return LEAVES[expr]
    if expr[0] == '+':
        return build(expr[1]) + build(expr[2])
    if expr[0] == '*':
        return build(expr[1]) * build(expr[2])
    if expr[0] == 'step_date':
        return fm.get_model_step_date(expr[1])
    if expr[0] == 'spike_date':
        return fm.get_model_spike_date(pd.Timestamp(expr[1]),
                                       pd.Timestamp(expr[2]))
    if expr[0] == 'dates':
        return fm.get_model_from_datelist(expr[1], *expr[2:])
    if expr[0] == 'nums':
        return fm.get_model_dummy(expr[1], expr[2])
    if expr[0] == 'fixed':
        if None not in expr[2] and len(expr) == 3:
            return fm.get_fixed_model(build(expr[1]), list(expr[2]))
        return fm.fix_params_fmodel(build(expr[1]), [
            np.nan if v is None else v for v in expr[2]])
    raise AssertionError(expr)


def n_params(expr):
    if isinstance(expr, str):
        return N_PARAMS[expr]
    if expr[0] in '+*':
        return n_params(expr[1]) + n_params(expr[2])
    if expr[0] == 'dates':
        return len(expr) - 2
    if expr[0] == 'fixed':
        return sum(v is None for v in expr[2])
    return 1


def is_null(expr):
    if isinstance(expr, str):
        return expr == 'null'
    return expr[0] in '+*' and is_null(expr[1]) and is_null(expr[2])


def dated(expr):
    if isinstance(expr, str):
        return expr in ('wday', 'wday2', 'month', 'fourier', 'cal_uk',
                        'cal_us', 'cal_ita', 'xmas', 'mstart', 'snaive')
    if expr[0] in '+*':
        return dated(expr[1]) or dated(expr[2])
    if expr[0] == 'fixed':
        return dated(expr[1])
    return expr[0] != 'nums'


def leaves(expr):
    if isinstance(expr, str):
        return [expr]
    if expr[0] in '+*':
        return leaves(expr[1]) + leaves(expr[2])
    if expr[0] == 'fixed' and n_params(expr):
        return leaves(expr[1])
    return [expr[0]]


def collapse(expr):
    """Null is the identity of both operators"""
    if isinstance(expr, str) or expr[0] not in '+*':
        return expr
    a, b = collapse(expr[1]), collapse(expr[2])
    if a == 'null':
        return b
    if b == 'null':
        return a
    return [expr[0], a, b]


# Independent holiday rules

def easter(year):
    """Gregorian computus (Meeus/Jones/Butcher)"""
    a, b, c = year % 19, year // 100, year % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    le = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * le) // 451
    month = (h + le - 7 * m + 114) // 31
    day = ((h + le - 7 * m + 114) % 31) + 1
    return pd.Timestamp(year, month, day)


def nth_weekday(year, month, wday, k):
    """k-th (k>0) or last (k=-1) given weekday of a month"""
    if k > 0:
        d = pd.Timestamp(year, month, 1)
        d += pd.Timedelta(days=(wday - d.weekday()) % 7)
        return d + pd.Timedelta(days=7 * (k - 1))
    d = pd.Timestamp(year, month, 1) + pd.offsets.MonthEnd(1)
    return d - pd.Timedelta(days=(d.weekday() - wday) % 7)


def to_monday(d):
    """Saturday or Sunday move to next Monday"""
    return d + pd.Timedelta(days={5: 2, 6: 1}.get(d.weekday(), 0))


def second_of_pair(d):
    """Second of two adjacent holidays: Sat to Mon, Sun and Mon to Tue"""
    return d + pd.Timedelta(days={5: 2, 6: 2, 0: 1}.get(d.weekday(), 0))


def nearest_workday(d):
    return d + pd.Timedelta(days={5: -1, 6: 1}.get(d.weekday(), 0))


def holidays(cal, year):
    T = pd.Timestamp
    day = pd.Timedelta(days=1)
    if cal == 'uk_bank':
        e = easter(year)
        return [e - 2 * day, e + day, nth_weekday(year, 5, 0, 1),
                nth_weekday(year, 5, 0, -1), nth_weekday(year, 8, 0, -1)]
    if cal == 'uk_xmas':
        return [to_monday(T(year, 1, 1)), to_monday(T(year, 12, 25)),
                second_of_pair(T(year, 12, 26))]
    if cal == 'ita_bank':
        return [easter(year) + day, T(year, 4, 25), T(year, 5, 1),
                T(year, 6, 2), T(year, 8, 15), T(year, 11, 1),
                T(year, 12, 8)]
    if cal == 'ita_xmas':
        return [to_monday(T(year, 1, 1)), to_monday(T(year, 12, 25)),
                second_of_pair(T(year, 12, 26)), to_monday(T(year, 1, 6))]
    if cal == 'us':
        out = [nearest_workday(T(year, 1, 1)),
               nth_weekday(year, 2, 0, 3), nth_weekday(year, 5, 0, -1),
               nearest_workday(T(year, 7, 4)),
               nth_weekday(year, 9, 0, 1), nth_weekday(year, 10, 0, 2),
               nearest_workday(T(year, 11, 11)),
               nth_weekday(year, 11, 3, 4),
               nearest_workday(T(year, 12, 25))]
        if year >= 1986:
            out.append(nth_weekday(year, 1, 0, 3))
        if year >= 2021:
            out.append(nearest_workday(T(year, 6, 19)))
        return out
    raise AssertionError(cal)


def holiday_mask(cal, dates):
    dates = pd.DatetimeIndex(dates)
    ys = range(dates.min().year - 1, dates.max().year + 2)
    hs = {h for y in ys for h in holidays(cal, y)}
    return np.array([float(d in hs) for d in dates])


CALS = dict(cal_uk=['uk_xmas', 'uk_bank'], cal_us=['us'],
            cal_ita=['ita_xmas', 'ita_bank'])

EPOCH = pd.Timestamp('1970-01-01')


def ref(expr, x, date, params, is_mult=False):
    """Reference model output"""
    x = np.asarray(x, dtype=float)
    p = [float(v) for v in params]
    n = len(x)
    one = 1. if is_mult else 0.
    if not isinstance(expr, str):
        op = expr[0]
        if op in '+*':
            if is_null(expr[1]):
                return ref(expr[2], x, date, p, is_mult)
            if is_null(expr[2]):
                return ref(expr[1], x, date, p, is_mult)
            k = n_params(expr[1])
            a = ref(expr[1], x, date, p[:k], op == '*')
            b = ref(expr[2], x, date, p[k:], op == '*')
            return a + b if op == '+' else a * b
        if op == 'fixed':
            it = iter(p)
            return ref(expr[1], x, date, [
                next(it) if v is None else v for v in expr[2]], is_mult)
        if op == 'step_date':
            on = np.array([d >= pd.Timestamp(expr[1]) for d in date])
            return np.where(on, p[0], one)
        if op == 'spike_date':
            on = np.array([pd.Timestamp(expr[1]) <= d < pd.Timestamp(expr[2])
                           for d in date])
            return np.where(on, p[0], one)
        if op == 'dates':
            masks = []
            for li in expr[2:]:
                hs = {pd.Timestamp(d) for d in li}
                masks.append(np.array([float(d in hs) for d in date]))
            return _dummies(masks, p, is_mult)
        if op == 'nums':
            return _dummies([np.array([float(v in expr[2]) for v in x])], p,
                            is_mult)
        raise AssertionError(expr)
    if expr == 'null':
        return np.full(n, one)
    if expr == 'constant':
        return np.full(n, p[0])
    if expr in ('linear', 'linear_nondec'):
        return p[0] * x + p[1]
    if expr == 'quasilinear':
        return p[0] * x ** p[1] + p[2]
    if expr == 'exp':
        return p[0] * p[1] ** x
    if expr == 'decay':
        return p[0] * np.exp(p[1] * x) + p[2]
    if expr == 'step':
        return np.where(x >= p[0], p[1], one)
    if expr == 'two_steps':
        a = np.where(x >= p[0], p[1], one)
        b = np.where(x >= p[2], p[3], one)
        return a * b if is_mult else a + b
    if expr in ('sigmoid', 'sigmoid_step'):
        return one + (p[0] - one) / (1 + np.exp(-p[2] * (x - p[1])))
    if expr == 'ramp':
        return one + np.where(x >= p[0], (x - p[0]) * p[1], 0.)
    if expr == 'wday':
        return np.array([one if d.weekday() == 0 else p[d.weekday() - 1]
                         for d in date])
    if expr == 'month':
        return np.array([one if d.month == 1 else p[d.month - 2]
                         for d in date])
    if expr == 'fourier':
        t = np.array([(d - EPOCH).days for d in date], dtype=float)
        y = np.zeros(n)
        for k in range(1, 11):
            w = 2 * np.pi * k * t / 365.25
            y += p[k - 1] * np.sin(w) + p[9 + k] * np.cos(w)
        return y
    if expr == 'wday2':
        m = np.array([float(d.weekday() < 5) for d in date])
        return _dummies([m], p, is_mult)
    if expr == 'xmas':
        m = np.array([float((d.month, d.day) == (12, 25)) for d in date])
        return _dummies([m], p, is_mult)
    if expr == 'mstart':
        m = np.array([float(d.day == 1) for d in date])
        return _dummies([m], p, is_mult)
    if expr in CALS:
        return _dummies([holiday_mask(c, date) for c in CALS[expr]], p,
                        is_mult)
    raise AssertionError(expr)


def _dummies(masks, p, is_mult):
    out = np.full(len(masks[0]), 1. if is_mult else 0.)
    for m, a in zip(masks, p):
        # multiplicative: 1 + A on the dummy's dates, as the tests fix it
        out = out * np.where(m > 0, 1. + a, 1.) if is_mult else out + a * m
    return out


def design(expr, x, dates):
    """Model as matrix and offset: linear in its parameters"""
    k = n_params(expr)
    b = ref(expr, x, dates, np.zeros(k))
    X = np.stack([ref(expr, x, dates, np.eye(k)[i]) - b
                  for i in range(k)], axis=1)
    return X, b


def identified(expr, df, col, x_all=None):
    """Do the used samples of the table determine all of the parameters?"""
    ok = df.y.notnull()
    if 'weight' in df:
        ok &= df.weight > 0
    if col == 'x':
        x, dates = df.x.values.astype(float), None
    else:
        x = (df.date - df.date.min()).dt.days.values.astype(float)
        dates = pd.DatetimeIndex(df.date[ok])
    X, _ = design(expr, x[ok.values], dates)
    if len(X) < X.shape[1]:
        return False
    X = X / np.maximum(np.abs(X).max(axis=0), 1e-12)
    return bool(np.linalg.cond(X) < 1e4)
