"""Reference implementations, written from the documentation"""
import math

from vlib import boot  # noqa
from vlib import gen
import numpy as np
import pandas as pd

UNITS = {'D': 365, 'W': 52, 'M': 12, 'Q': 4, 'Y': 1}
EXT = [0.3, 0, 0.1, 0.25, 0.5, 1.0, 1.5]
EXT_SMALL = [0.1, 0, 0.3]
WD = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']


def freq_name(freq, start=None):
    """Name the library gives to the sampling frequency of a regular series"""
    if freq == 'W':
        return 'W-' + WD[pd.Timestamp(start).weekday()]
    return freq


def n_future(freq, years):
    """Samples after the end of the actuals, rounded down"""
    if freq == 'num':
        return int(math.floor(100 * years + 1e-9))
    return int(math.floor(UNITS[freq[0]] * years + 1e-9))


def on_grid_between(freq, start, end):
    if freq == 'W':
        return pd.date_range(start, end, freq='7D')
    return pd.date_range(start, end, freq=freq)


def expected_grid(spec, df, years, date_start=None):
    """Dates (or numeric x) the forecast has to cover: from the first sample
    with positive weight to the end of the series plus the extension"""
    col = 'x' if spec['freq'] == 'num' else 'date'
    d = df
    if date_start is not None:
        d = d.loc[d[col] >= date_start]
    end = d[col].max()
    if 'weight' in d:
        d = d.loc[d.weight > 0]
    start = d[col].min()
    k = n_future(spec['freq'], years)
    if spec['freq'] == 'num':
        return list(range(int(start), int(end) + k + 1))
    if spec['freq'] == 'W':
        end2 = end + pd.Timedelta(days=7 * k)
    elif spec['freq'] == 'D':
        end2 = end + pd.Timedelta(days=k)
    else:
        end2 = end
        for _ in range(k):
            end2 = end2 + pd.tseries.frequencies.to_offset(spec['freq'])
    return list(on_grid_between(spec['freq'], start, end2))


def one_period_apart(spec, df):
    """True if at least two of the dates are one period apart, so that the
    series shows its sampling frequency"""
    if spec['freq'] == 'num':
        return True
    full = list(gen.date_index(spec['freq'], spec['start'], spec['n']))
    have = set(df.date)
    return any(a in have and b in have for a, b in zip(full, full[1:]))


def x_regular(spec, df):
    return True


def has_gap(spec, df):
    if spec['freq'] == 'num':
        u = sorted(set(df.x))
        return any(b - a != 1 for a, b in zip(u, u[1:]))
    lo, hi = df.date.min(), df.date.max()
    full = [d for d in gen.date_index(spec['freq'], spec['start'], spec['n'])
            if lo <= d <= hi]
    return len(full) != df.date.nunique()


def usable(spec, df):
    """Preconditions every caller respects: sampling frequency visible;
    gaps only with one sample per date (the library rejects the rest)"""
    if len(df) < 2 or not one_period_apart(spec, df):
        return False
    col = 'x' if spec['freq'] == 'num' else 'date'
    if df[col].duplicated().any() and has_gap(spec, df):
        return False
    return True


def norm_x(dates):
    """Days since the Monday of the week of the first date"""
    d = pd.Series(pd.DatetimeIndex(dates))
    d0 = d.min()
    monday = d0 - pd.Timedelta(days=d0.weekday())
    return ((d - monday) / pd.Timedelta(days=1)).apply(math.floor).values


def aic_c(err, n, k):
    return n * math.log(err / n) + 2 * k + 2. * k * (k + 1) / (n - k - 1)


def wls(X, y, w):
    """Minimum of 1/2 sum (w * (y - X b))^2. Returns b, cost"""
    Xw = X * w[:, None]
    b, _, rank, _ = np.linalg.lstsq(Xw, y * w, rcond=None)
    r = w * (y - X @ b)
    return b, 0.5 * float(r @ r), rank


def effective_weights(df, col):
    """Per-sample weight in the cost function: the sample weight divided by
    the number of valid samples that share its x"""
    d = gen.valid(df)
    w = d.weight.values.astype(float) if 'weight' in d \
        else np.ones(len(d))
    k = d.groupby(col)[col].transform('size').values
    return d, w / k


def fcast_rows(df):
    return df.loc[~df.is_actuals.astype(bool)]


def actual_rows(df):
    return df.loc[df.is_actuals.astype(bool)]
