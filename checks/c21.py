"""C21: AICc follows its formula and picks the minimum"""
from vlib.runner import facet
import decimal
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import model_utils as mu

D = decimal.Decimal
CTX = decimal.Context(prec=60, Emin=-10 ** 9, Emax=10 ** 9)


def exact(err, n, k):
    """The documented formula in 60 digits. The logarithms have to be
    subtracted: the quotient may be below the range of floats"""
    e = D(err) if err > 0 else D(1e-320)
    n, k = D(n), D(k)
    return float(CTX.add(
        CTX.multiply(n, CTX.ln(CTX.divide(e, n))),
        2 * k + 2 * k * (k + 1) / (n - k - 1)))


errors = st.one_of(
    st.floats(1e-300, 1e300, allow_nan=False), st.floats(0.001, 1e4),
    st.sampled_from([5e-324, 1e-320, 1e-308, 1e308, 1., 2.]))
counts = st.one_of(st.integers(3, 60), st.integers(3, 4000),
                   st.sampled_from([10 ** 5, 10 ** 7]))


@st.composite
def cases(draw):
    n = draw(counts)
    return dict(n=n, k=draw(st.integers(0, min(n - 2, 60))),
                e=draw(errors), e2=draw(errors))


@facet('formula', cases(), 4000,
       rule='errors from 5e-324 to 1e308, 3 to 10 million samples, up to 60 '
            'parameters; non-trivial: the correction term is above 0.01')
def f_formula(case, ctx):
    n, k, e = case['n'], case['k'], case['e']
    a = ctx.got(mu.get_aic_c(e, n, k))
    w = exact(e, n, k)
    ctx.close(a, w, 'AICc', 1e-9, 1e-9 * n)
    # more error
    e2 = case['e2']
    b = mu.get_aic_c(e2, n, k)
    if e2 > e * (1 + 1e-9):
        ctx.check(b > a, 'AICc {} of error {} is not below {} of {}', a, e,
                  b, e2)
    # one more parameter
    if n > k + 2:
        c = mu.get_aic_c(e, n, k + 1)
        ctx.close(c - a, 2 + 2. * (k + 1) * (k + 2) / (n - k - 2) -
                  2. * k * (k + 1) / (n - k - 1), 'step of one parameter',
                  1e-6, 1e-12 * (abs(a) + abs(c)) + 1e-9)
        if n <= 4000 and abs(a) < 1e9:
            ctx.check(c > a, 'AICc does not increase with parameters')
    # a perfect fit
    p = mu.get_aic_c(0., n, k)
    ctx.check(p < a or (e <= 1e-320 and p <= a or k != 1 and e < 1e-320),
              'perfect fit {} is not below {} of error {}', p, a, e)
    ctx.check(not math.isnan(p) and p < np.inf, 'perfect fit {}', p)
    if k == 1:
        ctx.eq(p, -np.inf, 'perfect fit')
    else:
        ctx.close(p, exact(0., n, k), 'perfect fit', 1e-9, 1e-9 * n)
        if n > k + 2 and k > 1 and n <= 4000:
            ctx.check(mu.get_aic_c(0., n, k + 1) > p,
                      'perfect fits are not ordered by parameters')
    ctx.nontrivial(2. * k * (k + 1) / (n - k - 1) > 0.01)


@facet('too short', st.tuples(
    st.integers(0, 40), st.integers(0, 45),
    st.one_of(st.just(0.), st.floats(1e-9, 1e9))).map(list), 800,
    rule='every pair of up to 40 samples and 45 parameters; non-trivial: '
         'within one of the limit')
def f_short(case, ctx):
    n, k, e = case
    try:
        a = mu.get_aic_c(e, n, k)
        err = None
    except Exception as ex:
        err = ex
    if n <= k + 1:
        ctx.check(isinstance(err, ValueError),
                  '{} samples with {} parameters: {}', n, k,
                  err if err else 'accepted')
    else:
        ctx.check(err is None, '{} samples with {} parameters: {}', n, k, err)
        ctx.check(not math.isnan(a), 'AICc is null')
    ctx.label('short' if n <= k + 1 else 'enough')
    ctx.nontrivial(abs(n - k - 1) <= 1)


values = st.one_of(
    st.integers(-5, 5).map(float), st.floats(-1e6, 1e6),
    st.just('-inf'), st.just('null'), st.just('null'), st.just('inf'))
labels = st.one_of(st.integers(-20, 40), st.sampled_from(
    ['a', 'b', 'linear', 'null', 'x y']))


@st.composite
def key_cases(draw):
    v = draw(st.lists(values, max_size=8))
    if draw(st.integers(0, 2)) == 0:
        v = [t for t in v if t != '-inf']
    kind = draw(st.sampled_from(['default', 'numbers', 'text']))
    li = None
    if kind == 'numbers':
        li = draw(st.lists(st.integers(-20, 40), min_size=len(v),
                           max_size=len(v), unique=True))
    elif kind == 'text':
        li = ['m{}'.format(i) for i in draw(st.permutations(range(len(v))))]
    return dict(v=v, index=li)


@facet('best key', key_cases(), 3000,
       rule='lists of criteria with any labels, infinities and nulls; '
            'non-trivial: two values or more')
def f_key(case, ctx):
    v = [{'-inf': -np.inf, 'inf': np.inf, 'null': np.nan}.get(t, t)
         for t in case['v']]
    s = pd.Series(v, index=case['index'], dtype=float)
    before = s.copy()
    key = ctx.got(mu.get_s_aic_c_best_result_key(s))
    ok = [(t, i) for i, t in enumerate(v) if not math.isnan(t)]
    if not ok:
        ctx.eq(key, None, 'key')
        return
    if min(ok)[0] == np.inf and len(ok) < len(v):
        ctx.skip('no finite value')  # pandas takes nulls for infinities
    i = min(ok)[1]
    ctx.eq(key, s.index[i], 'key')
    ctx.check(s.equals(before), 'values were modified')
    ctx.label('{} minus infinity'.format(min(v.count(-np.inf), 2)))
    ctx.nontrivial(len(ok) > 1)


FACETS = [f_formula, f_short, f_key]
