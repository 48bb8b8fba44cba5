"""Comparison of result tables"""
from vlib import boot  # noqa
import numpy as np
import pandas as pd

SKIP = {'fit_time', 'model_obj', 'params_str'}
TABLES = ['forecast', 'data', 'metadata', 'optimize_info']


def _cell(v):
    if v is None or (isinstance(v, float) and np.isnan(v)) or v is pd.NaT:
        return None
    if isinstance(v, (list, np.ndarray)):
        return tuple(float(x) for x in np.ravel(v))
    if isinstance(v, (float, np.floating, int, np.integer)) and \
            not isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    return v


def frame(ctx, a, b, what, ignore=(), rtol=0., atol=0.):
    """Tables are equal: columns, order of rows, values"""
    ctx.eq(list(a.columns), list(b.columns), what + ': columns')
    ctx.eq(len(a), len(b), what + ': rows')
    for c in a.columns:
        if c in SKIP or c in ignore:
            continue
        va, vb = [_cell(v) for v in a[c]], [_cell(v) for v in b[c]]
        if va == vb:
            continue
        for i, (p, q) in enumerate(zip(va, vb)):
            if p == q:
                continue
            ok = False
            if isinstance(p, float) and isinstance(q, float):
                ok = bool(np.isclose(p, q, rtol=rtol, atol=atol))
            elif isinstance(p, tuple) and isinstance(q, tuple):
                ok = len(p) == len(q) and bool(np.allclose(
                    p, q, rtol=rtol, atol=atol, equal_nan=True))
            if not ok:
                ctx.fail('{}: column {} row {}: {} != {}', what, c, i, p, q)


def result(ctx, a, b, what, **kw):
    """Dictionary results are equal"""
    ctx.check((a is None) == (b is None), what + ': empty result')
    if a is None:
        return
    for k in TABLES:
        frame(ctx, a[k], b[k], what + ': ' + k, **kw)


def untouched(ctx, df, before, what):
    """An input is as it was, including index, columns and dtypes"""
    try:
        if isinstance(before, pd.Series):
            pd.testing.assert_series_equal(df, before)
        else:
            pd.testing.assert_frame_equal(df, before)
        ctx.eq(list(df.index.names), list(before.index.names),
               what + ': index name')
    except AssertionError as e:
        ctx.fail(what + ' was modified: {}', e)
