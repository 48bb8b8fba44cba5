"""Forecast tables with known residuals, and their exact intervals"""
import functools
from vlib import boot  # noqa
from vlib import gen
import numpy as np
import pandas as pd
from hypothesis import strategies as st

FREQS = ['D', 'D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y', 'num']
DAYS = dict(Y=365, Q=91, M=30, W=7, D=1, num=1)


def days(freq):
    return DAYS[freq if freq == 'num' else freq[0]]


@st.composite
def one_source(draw, freqs=FREQS, max_future=30, min_past=4, long=False):
    n = draw(st.integers(min_past, 16))
    freq = draw(st.sampled_from(list(freqs)))
    many = {}
    if long and draw(st.integers(0, 7)) == 0:
        # Many residuals, those of the first half may be larger
        n = 60 if freq[0] == 'Y' else draw(st.sampled_from(
            [60, 130, 400, 400 if freq[0] == 'Q' else 1100]))
        many = dict(early=draw(st.sampled_from([1, 4, 10])))
    s = dict(freq=freq, n=n, **many,
             future=draw(st.integers(0, max_future)),
             start=draw(gen.dates), unit=draw(st.sampled_from(
                 [1., 1., 0.25, 100.])),
             # residuals in units
             res=draw(st.lists(st.integers(-5, 5), min_size=1, max_size=6)),
             slope=draw(st.sampled_from([0., 1., -2.5])),
             base=draw(st.integers(-50, 50)))
    if s['freq'][0] in 'MQY':
        s['start'] = s['start'][:8] + '01'
    idx = st.lists(st.integers(0, n - 1), max_size=2, unique=True)
    if draw(st.integers(0, 2)) == 0:
        s['null'] = draw(idx)
    if draw(st.integers(0, 2)) == 0:
        s['zero'] = draw(idx)
    if draw(st.integers(0, 3)) == 0:
        s['dup'] = draw(idx)
    if draw(st.integers(0, 4)) == 0:
        s['no_fc'] = draw(st.integers(0, n // 2))  # as naive models
    return s


def build(s, source='src', other=False, flag=True):
    """Table as in the data table of a forecast. Returns table and a dict:
    residuals in units, last used date"""
    n, k = s['n'], s['future']
    if s['freq'] == 'num':
        date = np.arange(n + k) + 3
    else:
        date = gen.date_index(s['freq'], s['start'], n + k)
    fc = s['base'] + s['slope'] * np.arange(n + k)
    r = np.array([s['res'][i % len(s['res'])] for i in range(n)], dtype=float)
    r[:n // 2] *= s.get('early', 1)
    y = fc[:n] + r * s['unit']
    w = np.ones(n)
    w[[i for i in s.get('zero') or []]] = 0
    isn = np.isin(np.arange(n), s.get('null') or [])
    act = pd.DataFrame(dict(date=date[:n], weight=w,
                            y=np.where(isn, np.nan, y)))
    res = pd.Series(r[:])
    use = (w > 0) & ~isn
    k0 = s.get('no_fc') or 0
    use_fc = use & (np.arange(n) >= k0)
    rs = list(res[use_fc])
    if s.get('dup'):
        d = act.iloc[s['dup']].copy()
        d['y'] = d.y + 2 * s['unit']
        act = pd.concat([act, d]).sort_values('date', kind='stable')
        rs += [r[i] + 2 for i in s['dup'] if use_fc[i]]
    act['model'] = 'actuals'
    act['is_actuals'] = True
    act['is_best_fit'] = False
    f = pd.DataFrame(dict(date=date, y=fc)).iloc[k0:]
    f['weight'] = 1.
    f['model'] = 'linear'
    f['is_actuals'] = False
    f['is_best_fit'] = True
    parts = [act]
    if other:
        g = f.copy()
        g['y'] = g.y * 2 + 1000
        g['model'] = 'constant'
        g['is_best_fit'] = False
        parts.append(g)
    parts.append(f)
    df = pd.concat(parts, ignore_index=True)
    df['source'] = source
    df['source_long'] = source + ':1'
    cols = ['date', 'weight', 'y', 'model', 'source', 'source_long',
            'is_actuals', 'is_best_fit']
    if not flag:
        cols = cols[:-1]
    return df[cols], dict(res=np.array(rs), last=act.date[
        act.y.notnull() & (act.weight > 0)].max() if use.any() else None)


def lattice_pmf(res, k):
    """Distribution of the sum of k residuals drawn with replacement, on
    integers. Returns first value and probabilities"""
    lo, hi = int(res.min()), int(res.max())
    p1 = np.bincount((res - lo).astype(int), minlength=hi - lo + 1) \
        / float(len(res))
    p = p1
    for _ in range(k - 1):
        p = np.convolve(p, p1)
    return lo * k, p


@functools.lru_cache(64)
def _lattice(res, k):
    lo, p = lattice_pmf(np.array(res), k)
    return lo, p, np.cumsum(p)


def bracket(res, k, q, eps):
    """Range of the percentile q of a sample of sums of k centred residuals,
    if the empirical distribution is within eps of the exact one"""
    lo, p, F = _lattice(tuple(res), k)
    a = int(np.searchsorted(F, max(q / 100. - eps, 0.) + 1e-12))
    b = int(np.searchsorted(F, min(q / 100. + eps, 1.) - 1e-12, 'right'))
    nz = np.nonzero(p > 0)[0]
    a = max(min(a, len(p) - 1), nz[0])
    b = min(b, nz[-1])
    m = res.mean() * k
    return lo + a - m, lo + b - m


def eps_for(n_sims, p=1e-14):
    """Dvoretzky-Kiefer-Wolfowitz, plus the interpolation of percentiles"""
    return np.sqrt(np.log(2 / p) / (2 * n_sims)) + 1.5 / n_sims


def q_names(q1, q2):
    return ['q{}'.format(q) for q in (q1, 100 - q1, q2, 100 - q2)]
