"""
Strategies for plain JSON-able series specifications, and builders that turn a
specification into the dataframes the library takes as input.
"""
import datetime

from vlib import boot  # noqa
import numpy as np
import pandas as pd
from hypothesis import strategies as st

MASK = (1 << 64) - 1


def noise(seed, n):
    """Deterministic pseudo-noise in [-1, 1): an integer hash of (seed, i)"""
    out = np.empty(n)
    for i in range(n):
        z = (seed * 0x9E3779B97F4A7C15 + (i + 1) * 0xBF58476D1CE4E5B9) & MASK
        z ^= z >> 30
        z = (z * 0xBF58476D1CE4E5B9) & MASK
        z ^= z >> 27
        z = (z * 0x94D049BB133111EB) & MASK
        z ^= z >> 31
        out[i] = (z >> 11) / float(1 << 52) - 1.
    return out


FREQS_DATED = ['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y']
PANDAS_FREQ = {'W': None}


def _date(d):
    return d.isoformat()


dates = st.dates(datetime.date(2009, 1, 1), datetime.date(2025, 12, 31)).map(
    _date)

amount = st.one_of(
    st.integers(-20, 20).map(float),
    st.sampled_from([0.5, -0.25, 100., -150., 1234.5, 0.01]))
pos_amount = st.one_of(
    st.integers(1, 20).map(float), st.sampled_from([0.5, 3.25, 100., 1234.5]))


def lvl(lo=-100, hi=100):
    return st.integers(lo, hi).map(float)


@st.composite
def series(draw, freqs=('D', 'W', 'MS', 'num'), n_min=6, n_max=40,
           weights='maybe', nulls=True, zeros=True, gaps=True, dups=False,
           positive=False, season=True, noisy=None, x0=(0, 12),
           scale=True):
    """A spec for one time series"""
    freq = draw(st.sampled_from(list(freqs)))
    n = draw(st.integers(n_min, n_max))
    spec = dict(freq=freq, n=n)
    if freq == 'num':
        spec['x0'] = draw(st.integers(*x0))
    else:
        spec['start'] = draw(dates)
    if positive:
        spec['base'] = draw(st.integers(50, 300).map(float))
        spec['slope'] = draw(st.integers(0, 4).map(float))
    else:
        spec['base'] = draw(lvl())
        spec['slope'] = draw(st.sampled_from(
            [0., 1., -1., 2.5, -0.5, 0.125, 7.]))
    spec['amp'] = draw(st.sampled_from([0.5, 1., 3., 8.])) \
        if noisy or (noisy is None and draw(st.booleans())) else 0.
    spec['nseed'] = draw(st.integers(0, 9999)) if spec['amp'] else 0
    if season and draw(st.booleans()):
        spec['season'] = draw(st.lists(
            st.integers(-6, 6).map(float), min_size=2, max_size=7))
    if scale and not positive and draw(st.integers(0, 5)) == 0:
        spec['scale'] = draw(st.sampled_from([1e-3, 1e3, 1e5]))
    idx = st.integers(0, n - 1)

    def some(k):
        return sorted(draw(st.sets(idx, max_size=max(1, min(k, n // 3)))))
    if nulls and draw(st.integers(0, 2)) == 0:
        spec['null'] = some(4)
    if weights is True or (weights == 'maybe' and draw(st.booleans())):
        spec['w'] = draw(st.lists(
            st.sampled_from([1., 1., 0.5, 2., 0.1, 3.]),
            min_size=1, max_size=5))
        if zeros and draw(st.booleans()):
            spec['zero'] = some(4)
    if gaps and draw(st.integers(0, 2)) == 0:
        spec['drop'] = some(4)
    if dups and draw(st.booleans()):
        # list of (index, number of extra samples, which of the samples are
        # null or have weight 0, if any)
        kinds = ['', '', '', 'null', 'null0']
        if spec.get('w') and zeros:
            kinds += ['zero', 'zero0']
        spec['dup'] = draw(st.lists(
            st.tuples(idx, st.integers(1, 3), st.sampled_from(
                kinds if nulls else kinds[:3])).map(list), max_size=4,
            unique_by=lambda t: t[0]))
    return spec


def date_index(freq, start, n):
    if freq == 'D':
        return pd.date_range(start, periods=n, freq='D')
    if freq == 'W':
        return pd.date_range(start, periods=n, freq='7D')
    return pd.date_range(start, periods=n, freq=freq)


def values(spec):
    n = spec['n']
    i = np.arange(n)
    y = spec['base'] + spec.get('slope', 0.) * i
    if spec.get('season'):
        s = np.array(spec['season'])
        y = y + s[i % len(s)]
    if spec.get('amp'):
        y = y + spec['amp'] * noise(spec['nseed'], n)
    return np.asarray(y, dtype=float) * spec.get('scale', 1.)


def build(spec, source=None):
    """Dataframe with columns date or x, y, optionally weight"""
    n = spec['n']
    y = values(spec)
    df = pd.DataFrame({'y': y})
    if spec['freq'] == 'num':
        df.insert(0, 'x', np.arange(n) + spec['x0'])
    else:
        df.insert(0, 'date', date_index(spec['freq'], spec['start'], n))
    if spec.get('w'):
        w = np.array(spec['w'])
        df['weight'] = w[np.arange(n) % len(w)]
    if spec.get('zero'):
        df.loc[spec['zero'], 'weight'] = 0.
    if spec.get('null'):
        df.loc[spec['null'], 'y'] = np.nan
    if source is not None:
        df['source'] = source
    keep = ~df.index.isin(spec.get('drop') or [])
    parts = [df.loc[keep].copy()]
    for j, e in enumerate(spec.get('dup') or []):
        i, k, kind = (list(e) + [''])[:3]
        if not keep[i]:
            continue
        for m in range(k):
            row = df.loc[[i]].copy()
            row['y'] = row['y'] + (m + 1) * (1.5 if j % 2 else -2.)
            if m == k - 1 and kind in ('null', 'zero'):
                if kind == 'null':
                    row['y'] = np.nan
                else:
                    row['weight'] = 0.
            parts.append(row)
        if kind == 'null0':
            parts[0].loc[i, 'y'] = np.nan
        elif kind == 'zero0':
            parts[0].loc[i, 'weight'] = 0.
    df = pd.concat(parts)
    col = 'x' if spec['freq'] == 'num' else 'date'
    return df.sort_values(col, kind='mergesort').reset_index(drop=True)


def n_valid(df):
    ok = ~df.y.isnull()
    if 'weight' in df:
        ok &= df.weight > 0
    return int(ok.sum())


def valid(df):
    ok = ~df.y.isnull()
    if 'weight' in df:
        ok &= df.weight > 0
    return df.loc[ok]
