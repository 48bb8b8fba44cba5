"""C14: model composition is pointwise algebra over parameter slices"""
from vlib.runner import facet
from vlib import gen, mgen, models
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast, forecast_models as fm


def ev(m, x, date, p, **kw):
    return np.broadcast_to(np.asarray(m(x, date, p, **kw), dtype=float),
                           x.shape)


def snapshot(m):
    return (m.name, m.n_params, list(m.l_cache_vars), dict(m.dict_f_cache),
            list(m.l_f_validate_input), m.f_model, m.f_init_params,
            m.f_bounds)


def name_of(expr, parts):
    """Name of a composition, from the names of its leaves"""
    if isinstance(expr, str) or expr[0] not in '+*':
        return parts.pop(0)
    a, b = name_of(expr[1], parts), name_of(expr[2], parts)
    if a == 'null':
        return b
    return a if b == 'null' else '({}{}{})'.format(a, expr[0], b)


def leaf_models(expr):
    if isinstance(expr, str) or expr[0] not in '+*':
        return [(expr, models.build(expr))]
    return leaf_models(expr[1]) + leaf_models(expr[2])


def assemble(expr, parts):
    if isinstance(expr, str) or expr[0] not in '+*':
        return parts.pop(0)
    a, b = assemble(expr[1], parts), assemble(expr[2], parts)
    return a + b if expr[0] == '+' else a * b


def in_product(expr, top=False):
    """For every leaf, whether its parent operator is a product"""
    if isinstance(expr, str) or expr[0] not in '+*':
        return [top]
    return in_product(expr[1], expr[0] == '*') + in_product(
        expr[2], expr[0] == '*')


@st.composite
def cases(draw):
    return dict(expr=draw(mgen.exprs(max_leaves=6)), pts=draw(mgen.points(n_max=60)),
                seed=draw(st.integers(0, 9999)), is_mult=draw(st.booleans()),
                n=draw(st.integers(14, 40)))


@facet('algebra', cases(), 1600,
       rule='sums and products of up to 6 predefined and generated models '
            'with any parameters at any dates; non-trivial: two or more '
            'models that are not null')
def f_algebra(case, ctx):
    expr = case['expr']
    lm = leaf_models(expr)
    snaps = [snapshot(m) for _, m in lm]
    m = ctx.got(assemble(expr, [m for _, m in lm]))
    core = models.collapse(expr)
    ctx.eq(m.n_params, models.n_params(expr), 'number of parameters')
    ctx.eq(m.name, name_of(expr, [m.name for _, m in lm]), 'name')
    ctx.eq(str(m), m.name, 'text')
    x, date = mgen.build_points(case['pts'])
    p = mgen.pick_params(core, case['seed'])
    for is_mult in (False, True):
        want = models.ref(expr, x, date, p, is_mult)
        got = ev(m, x, date, p, is_mult=is_mult)
        ctx.close(got, want, 'value', 1e-9, mgen.scale_of(want))
    # the parts are as they were
    for (_, part), s in zip(lm, snaps):
        ctx.eq(snapshot(part), s, 'composition changed ' + part.name)
    # evaluation with the library's own parts
    if core[0] in ('+', '*') and not isinstance(core, str):
        a, b = models.build(core[1]), models.build(core[2])
        k = a.n_params
        mult = core[0] == '*'
        va = ev(a, x, date, p[:k], is_mult=mult)
        vb = ev(b, x, date, p[k:], is_mult=mult)
        ctx.close(ev(m, x, date, p), va * vb if mult else va + vb,
                  'sum or product of parts', 1e-12, 1e-12)
    # initial guess and bounds are those of the parts, in order
    if models.is_null(expr):
        return
    parts = [(la, mo, pr) for (la, mo), pr in zip(lm, in_product(
        expr)) if la != 'null']
    xs = np.arange(case['n'], dtype=float)
    ys = 50 + 5 * gen.noise(case['seed'], case['n'])
    # a leaf next to a null model takes the place of their composition
    prod = in_product(core)
    np.random.seed(case['seed'])
    got = np.asarray(m.f_init_params(xs, ys), dtype=float)
    np.random.seed(case['seed'])
    want = np.concatenate([np.asarray(mo.f_init_params(
        xs, ys, None, is_mult=pr), dtype=float)
        for (_, mo, _), pr in zip(parts, prod)])
    ctx.close(got, want, 'initial parameters', 0, 0)
    lo, hi = m.f_bounds(xs, ys)
    wl = np.concatenate([mo.f_bounds(xs, ys)[0] for _, mo, _ in parts])
    wh = np.concatenate([mo.f_bounds(xs, ys)[1] for _, mo, _ in parts])
    ctx.close(lo, wl, 'lower bounds', 0, 0)
    ctx.close(hi, wh, 'upper bounds', 0, 0)
    # requirements on the input, cached variables
    for k in (3, 9, case['n']):
        d = pd.date_range(case['pts']['start'], periods=k)
        for yy in (ys[:k], ys[:k] - 60):
            ok = all(mo.validate_input(xs[:k], yy, d) for _, mo, _ in parts)
            ctx.eq(bool(m.validate_input(xs[:k], yy, d)), ok,
                   'input requirements')
    c = m.init_cache(x, date)
    want = {}
    for _, mo, _ in parts:
        want.update(mo.init_cache(x, date))
    ctx.eq(set(c), set(want), 'cached variables')
    for k in c:
        ctx.close(c[k], want[k], 'cached ' + k, 0, 0)
    ctx.label('{} leaves'.format(len(parts)))
    ctx.nontrivial(len(parts) > 1)


@st.composite
def law_cases(draw):
    e = mgen.exprs(max_leaves=2)
    return dict(a=draw(e), b=draw(e), c=draw(e), pts=draw(mgen.points()),
                seed=draw(st.integers(0, 9999)), op=draw(
                    st.sampled_from('+*')))


@facet('laws', law_cases(), 700,
       rule='associativity, exchange of operands and parameters, null as '
            'identity, comparison by name; non-trivial: no null operand')
def f_laws(case, ctx):
    a, b, c = [models.build(case[k]) for k in 'abc']
    x, date = mgen.build_points(case['pts'])
    pa, pb, pc = [mgen.pick_params(case[k], case['seed'] + i)
                  for i, k in enumerate('abc')]
    op = (lambda s, t: s + t) if case['op'] == '+' else (lambda s, t: s * t)
    p = np.concatenate([pa, pb, pc])
    flat = all(isinstance(case[k], str) or case[k][0] not in '+*' or
               case[k][0] == case['op'] for k in 'abc')
    left = ctx.got(ev(op(op(a, b), c), x, date, p))
    right = ctx.got(ev(op(a, op(b, c)), x, date, p))
    e = mgen.scale_of(left) + 1e-9 * np.abs(ev(a, x, date, pa)).max()
    if not any(models.is_null(case[k]) for k in 'abc'):
        ctx.close(left, right, 'associativity', 1e-9, e)
        ab = ev(op(a, b), x, date, np.concatenate([pa, pb]))
        ba = ev(op(b, a), x, date, np.concatenate([pb, pa]))
        ctx.close(ab, ba, 'exchange', 1e-12, mgen.scale_of(ab))
        ctx.nontrivial(True)
    null = fm.model_null
    for m, q in ((a, pa), (b, pb)):
        for other in (m + null, null + m, m * null, null * m):
            ctx.eq(other.name, m.name, 'name with null')
            ctx.eq(other.n_params, m.n_params, 'parameters with null')
            ctx.eq(list(ev(other, x, date, q)), list(ev(m, x, date, q)),
                   'values with null')
    ctx.eq(a == b, a.name == b.name, 'equality')
    ctx.eq(a != b, a.name != b.name, 'inequality')
    ctx.eq(a < b, a.name < b.name, 'order')
    ctx.check(hash(a) == hash(a + null), 'hash')
    ctx.eq([m.name for m in sorted([a, b, c])], sorted(
        [a.name, b.name, c.name]), 'sorted')
    ctx.label('flat' if flat else 'nested')


@st.composite
def list_cases(draw):
    li = st.one_of(st.none(), st.lists(st.sampled_from(
        ['linear', 'constant', 'ramp', 'null', 'wday', 'month', 'step']),
        max_size=4))
    return dict(a=draw(li), b=draw(li),
                how=draw(st.sampled_from(['add', 'mult', 'both'])))


@facet('candidate lists', list_cases(), 400,
       rule='lists of trend and seasonality models, with repetitions, null '
            'models, empty or missing; non-trivial: two lists')
def f_lists(case, ctx):
    a, b = [None if case[k] is None else [models.build(e) for e in case[k]]
            for k in 'ab']
    if not a and not b:
        ctx.skip()
    got = ctx.got(forecast.get_list_model(a, b, case['how']))
    if not b:
        want = {m.name for m in a}
    elif not a:
        want = {m.name for m in b}
    else:
        want = set()
        for s in a:
            for t in b:
                for op in {'add': '+', 'mult': '*', 'both': '+*'}[
                        case['how']]:
                    if s.name == 'null' or t.name == 'null':
                        want.add(t.name if s.name == 'null' else s.name)
                    else:
                        want.add('({}{}{})'.format(s.name, op, t.name))
    ctx.eq(sorted(m.name for m in got), sorted(want), 'candidates')
    ctx.nontrivial(bool(a) and bool(b))


def spy(name, k, seen, cache):
    """Model whose functions depend on all of their arguments"""
    def num(*args):
        out = 0.
        for i, a in enumerate(args):
            if a is None:
                out += 7 * (i + 1)
            elif isinstance(a, bool):
                out += 3 * (i + 1) * a
            elif isinstance(a, pd.DatetimeIndex):
                out += float(a.day.values.sum()) * (i + 2)
            else:
                out += float(np.sum(a)) * (i + 1)
        return out

    def f_model(a_x, a_date, params, is_mult=False, **kw):
        seen.append((name, 'model', sorted(kw)))
        return (np.dot(params, np.arange(1, k + 1)) + num(a_date, bool(
            is_mult)) + sum(float(np.sum(kw[q])) for q in sorted(kw))
            ) * 0.01 + a_x

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        return num(a_x, a_y, a_date, bool(is_mult)) + np.arange(k)

    def f_bounds(a_x=None, a_y=None, a_date=None):
        v = num(a_x, a_y, a_date)
        return [-v - 1.] * k, [v + 1. + i for i in range(k)]

    def f_valid(a_x, a_y, a_date):
        seen.append((name, 'valid', num(a_x, a_y, a_date)))
        assert num(a_x, a_y, a_date) % 5 != len(name) % 5

    return fm.ForecastModel(
        name, k, f_model, f_init, f_bounds, f_valid,
        dict_f_cache={cache: lambda a_x, a_date: a_x * k} if cache else None)


@st.composite
def spy_trees(draw, depth=3):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return [draw(st.sampled_from(['a', 'bb', 'ccc', 'dddd'])),
                draw(st.integers(1, 3)),
                draw(st.sampled_from([None, None, 'c1', 'c2']))]
    return [draw(st.sampled_from('+*')), draw(spy_trees(depth - 1)),
            draw(spy_trees(depth - 1))]


def spy_build(t, seen, leaves, prod=False):
    if t[0] not in '+*':
        # parts of one name and number of parameters are one model
        m = spy(t[0], t[1], seen, t[2])
        leaves.append((m, prod))
        return m
    a = spy_build(t[1], seen, leaves, t[0] == '*')
    b = spy_build(t[2], seen, leaves, t[0] == '*')
    return a + b if t[0] == '+' else a * b


def spy_eval(t, parts, x, date, p, kw, prod):
    if t[0] not in '+*':
        m = parts.pop(0)[0]
        q, p[:] = p[:m.n_params], p[m.n_params:]
        return m.f_model(x, date, q, is_mult=prod, **kw)
    a = spy_eval(t[1], parts, x, date, p, kw, t[0] == '*')
    b = spy_eval(t[2], parts, x, date, p, kw, t[0] == '*')
    return a + b if t[0] == '+' else a * b


@facet('arguments', st.fixed_dictionaries(dict(
    t=spy_trees(), n=st.integers(1, 8), seed=st.integers(0, 9999),
    y=st.booleans(), date=st.booleans(), mult=st.booleans(),
    kw=st.lists(st.sampled_from(['c1', 'c2', 'df_actuals', 'z']),
                unique=True, max_size=3))), 300,
    rule='trees of models whose functions depend on all of their arguments '
         '(values, dates, composition, cached variables): every part is '
         'given those of the whole; non-trivial: two or more parts')
def f_arguments(case, ctx):
    seen, leaves = [], []
    t = case['t']
    m = ctx.got(spy_build(t, seen, leaves))
    k = sum(lm.n_params for lm, _ in leaves)
    ctx.eq(m.n_params, k, 'number of parameters')
    n = case['n']
    x = np.arange(n, dtype=float)
    y = np.arange(n) * 2. + 1 if case['y'] else None
    date = pd.date_range('2019-01-01', periods=n) if case['date'] else None
    p = np.round(gen.noise(case['seed'], k), 3)
    kw = {q: float(i + 1) for i, q in enumerate(case['kw'])}
    top = case['mult'] if t[0] not in '+*' else t[0] == '*'
    want = spy_eval(t, list(leaves), x, date, list(p), kw, top)
    ctx.close(m(x, date, list(p), case['mult'], **kw), want, 'value', 1e-12,
              1e-9)
    ctx.close(m.f_model(x, date, list(p), is_mult=case['mult'], **kw), want,
              'value of f_model', 1e-12, 1e-9)
    guess = [lm.f_init_params(
        x, y, date, is_mult=top if t[0] not in '+*' else pr)
        for lm, pr in leaves]
    ctx.close(m.f_init_params(x, y, date, is_mult=case['mult']),
              np.concatenate(guess), 'initial parameters', 0, 0)
    ctx.close(m.f_init_params(x, y), np.concatenate([
        lm.f_init_params(x, y, None, is_mult=pr) for lm, pr in leaves]),
        'initial parameters without dates', 0, 0)
    for args in ((x, y, date), (x, y), (x, y, None)):
        lo, hi = m.f_bounds(*args)
        ctx.close(lo, np.concatenate([lm.f_bounds(*args)[0]
                                      for lm, _ in leaves]), 'lower', 0, 0)
        ctx.close(hi, np.concatenate([lm.f_bounds(*args)[1]
                                      for lm, _ in leaves]), 'upper', 0, 0)
    yy = y if y is not None else x
    ok = all([lm.validate_input(x, yy, date) for lm, _ in leaves])
    ctx.eq(bool(m.validate_input(x, yy, date)), ok, 'input requirements')
    c = m.init_cache(x, date)
    wc = {}
    for lm, _ in leaves:
        wc.update(lm.init_cache(x, date))
    ctx.eq(sorted(c), sorted(wc), 'cached variables')
    for q in wc:
        ctx.close(c[q], wc[q], 'cached ' + q, 0, 0)
    ctx.nontrivial(len(leaves) > 1)


FACETS = [f_arguments, f_algebra, f_laws, f_lists]
ASSUMPTIONS = ['parameters of moderate size; the spike model by sample '
               'position and the naive models are no part of compositions']
