"""C28: the command line tool forecasts the file it is given"""
import json
import os
import subprocess
import sys

from vlib import boot
from vlib.runner import facet
from vlib import cmp, gen, oracle, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from checks import c26
from anticipy import forecast
app = boot.load('app')
c26.TOL = 1e-5

ASSUMPTIONS = ['files are named by one name and one extension; text tables '
               'keep values to their last digits but one']
NAMES = [dict(y='y', date='date', x='x', weight='weight', source='source'),
         dict(y='sales', date='day', x='idx', weight='w', source='shop'),
         dict(y='Y value', date='d', x='n', weight='weight', source='s')]


@st.composite
def cases(draw):
    fr = draw(st.sampled_from(['D', 'W', 'MS', 'MS', 'num', 'M', 'QS',
                               'noindex']))
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    if fr == 'noindex':
        k = 1
    sers = [draw(gen.series(['num' if fr == 'noindex' else fr], n_min=8,
                            n_max=22, noisy=True, dups=False,
                            gaps=fr != 'noindex',
                            weights=draw(st.booleans()) if k == 1 else True,
                            x0=(0, 0) if fr == 'noindex' else (0, 12)))
            for _ in range(k)]
    return dict(
        s=sers, names=draw(st.integers(0, 2)), noindex=fr == 'noindex',
        multi=k > 1 or draw(st.booleans()),
        ids=draw(st.sampled_from(['abc', 'num', 'odd', 'marks'])),
        shuffle=draw(st.integers(0, 99)), extra=draw(st.booleans()),
        dates=draw(st.sampled_from(['%Y-%m-%d', '%Y-%m-%d', '%Y/%m/%d',
                                    '%Y-%m-%d 00:00:00', '%m/%d/%Y'])),
        file=draw(st.sampled_from(['in.csv', 'data_2.csv', 'My file.csv',
                                   'x.txt', 'noext'])),
        folder=draw(st.sampled_from(['', 'sub', 'sub', 'abs'])),
        out=draw(st.sampled_from([None, None, 'out', 'out/', 'abs', '.'])),
        years=draw(st.sampled_from([None, 0., 0.1, 0.25, 0.5, 1.])),
        all=draw(st.booleans()),
        format=draw(st.sampled_from([None, 'html', 'html', 'html', 'png'])),
        eq=draw(st.booleans()))


def table(case, ctx):
    nm = NAMES[case['names']]
    parts = []
    ids = dict(abc=['b', 'a', 'c'], num=[12, 3, 7],
               odd=['x #1, y', 'ü "q"', 'a/b'],
               marks=["O'Neil; 5%", '#2', '1-2\\n'])[case['ids']]
    for i, s in enumerate(case['s']):
        d = gen.build(s)
        if not oracle.usable(s, d) or len(gen.valid(d)) < 5:
            ctx.skip()
        if case['multi']:
            d.insert(0, 'source', ids[i])
        parts.append(d)
    df = pd.concat(parts, ignore_index=True)
    if case['noindex']:
        df = df.drop(columns='x')
    else:
        df = df.sample(frac=1., random_state=case['shuffle'])
    if 'date' in df:
        df['date'] = df.date.dt.strftime(case['dates'])
    if case['extra']:
        df['note'] = ['n{}'.format(i) for i in range(len(df))]
        df['other'] = np.arange(len(df)) % 3
    return df.rename(columns={a: b for a, b in nm.items() if a in df}), nm


def setup(case, df, d):
    """Writes the input, returns arguments, output folder and base name"""
    os.makedirs(os.path.join(d, 'sub'))
    os.makedirs(os.path.join(d, 'out'))
    folder = {'abs': os.path.join(d, 'sub')}.get(case['folder'],
                                                 case['folder'])
    path = os.path.join(folder, case['file'])
    df.to_csv(os.path.join(d, path), index=False)
    a = ['--path_in', path]
    out = {'abs': os.path.join(d, 'out')}.get(case['out'], case['out'])
    if out is not None:
        a += ['--path_out', out]
    if case['years'] is not None:
        a += ['--forecast_years', str(case['years'])]
    for k, v in NAMES[case['names']].items():
        if v != k:
            a += ['--col_name_' + k, v]
    if case['all']:
        a += ['--include_all_fits']
    if case['format']:
        a += ['--output_format', case['format']]
    if case['eq']:
        a = [x for x in ' \n'.join(a).split(' \n')]
        b = []
        for x in a:
            if x.startswith('--') or not b or '=' in b[-1]:
                b.append(x)
            else:
                b[-1] += '=' + x
        a = b
    where = os.path.normpath(os.path.join(
        d, folder if out is None else out))
    return a, os.path.join(d, path), where, case['file'].split('.')[0]


def read(path):
    return pd.read_csv(path, float_precision='round_trip')


def wanted(case, path, nm):
    """The forecast of the library for the contents of the file"""
    df = pd.read_csv(path)
    if nm['date'] in df:
        df[nm['date']] = pd.to_datetime(df[nm['date']])
    df = forecast.normalize_df(
        df, **{'col_name_' + k: v for k, v in nm.items()})
    years = 2. if case['years'] is None else case['years']
    return run.run(df, extrapolate_years=years,
                   include_all_fits=case['all'])


def same(ctx, got, want, what, skip=()):
    """A table in a file, compared with a table in memory"""
    want = want.copy()
    ctx.eq(sorted(got.columns), sorted(want.columns), what + ': columns')
    ctx.eq(len(got), len(want), what + ': rows')
    for c in want.columns:
        if c in skip:
            continue
        w = want[c]
        if c == 'date' and not pd.api.types.is_numeric_dtype(w):
            ctx.eq([str(pd.Timestamp(v)) for v in got[c]],
                   [str(pd.Timestamp(v)) for v in w], what + ': ' + c)
        elif pd.api.types.is_bool_dtype(w):
            ctx.eq(list(got[c].astype(str)), list(w.astype(str)),
                   what + ': ' + c)
        elif pd.api.types.is_numeric_dtype(w):
            w = w.astype(float)
            f = w[np.isfinite(w)].abs()
            if 'is_actuals' in want:  # not computed, so kept as they are
                k = want.is_actuals.astype(bool).values
                ctx.close(got[c].astype(float)[k], w[k], what + ': ' + c +
                          ' of actuals', 1e-13, 1e-300)
            ctx.close(got[c].astype(float), w, what + ': ' + c, 1e-5,
                      1e-5 * (1e-9 + (f.max() if len(f) else 0.)))
        else:
            f = lambda s: [None if pd.isnull(v) else str(v)  # noqa
                           for v in s]
            ctx.eq(f(got[c]), f(w), what + ': ' + c)


def judge(ctx, case, d, path, where, base, content, want, before):
    with open(path, 'rb') as f:
        ctx.eq(f.read(), content, 'input file')
    rel = lambda s: os.path.relpath(os.path.join(where, s), d)  # noqa
    new = sorted(set(c26.files(d)) - set(before))
    ext = case['format'] or 'png'
    names = [rel(base + '_fcast.csv'), rel(base + '_metadata.csv'),
             rel(base + '_fcast.' + ext)]
    ctx.eq(new, sorted(names), 'files written')
    same(ctx, read(os.path.join(d, names[0])), want['data'], 'forecast')
    # params: array, as text
    same(ctx, read(os.path.join(d, names[1])), want['metadata'], 'metadata',
         skip=['fit_time', 'params', 'params_str', 'model_obj'])
    return os.path.join(d, names[2])


def no_output(ctx, d, before):
    ctx.eq(c26.files(d), before, 'files')


@facet('tool', cases(), 200, 1500,
       rule='files of 1 to 3 series (dated in several ways, numbered or '
            'without index, weights, nulls, gaps, other column names, further '
            'columns, any order) and options: files written, their contents '
            'next to the forecast of the library, and the plot; '
            'non-trivial: something was fitted')
def f_tool(case, ctx):
    df, nm = table(case, ctx)
    with c26.scratch() as (d, rec):
        args, path, where, base = setup(case, df, d)
        before = c26.files(d)
        with open(path, 'rb') as f:
            content = f.read()
        want = wanted(case, path, nm)
        argv = sys.argv
        try:
            sys.argv = ['app'] + args
            app.main()
        finally:
            sys.argv = argv
        ctx.got(True)
        plot = judge(ctx, case, d, path, where, base, content, want, before)
        p = dict(q=[5, 20], interval=True, legend=True, title=None,
                 size=[1920, 1080])
        table_ = want['data']
        if case['all'] or table_.loc[~table_.is_actuals.astype(bool)].empty:
            pass  # lines of several models, or none, in a panel
        elif plot.endswith('.png'):
            ctx.close(c26.png_size(plot), p['size'], 'size', 0, 1)
            c26.judge_axes(ctx, rec['figs'][0], c26.expected(table_, p), dict(
                p, legend=rec['figs'][0].axes[0].get_legend() is not None))
        else:
            with open(plot, encoding='utf8') as f:
                _, data, layout = c26.js_args(f.read())
            c26.judge_plotly(ctx, data, layout, c26.expected(table_, p), dict(
                p, legend=layout.get('showlegend'),
                title=(layout.get('title') or {}).get('text')), table_)
        ctx.eq(rec['urls'], [], 'browser windows')
    ctx.label(case['s'][0]['freq'], case['format'] or 'default')
    ctx.nontrivial(bool(want['metadata'].is_fit.any()))


@facet('process', cases(), 10, 60,
       rule='the tool as a process of its own; all are non-trivial')
def f_process(case, ctx):
    df, nm = table(case, ctx)
    with c26.scratch() as (d, rec):
        args, path, where, base = setup(case, df, d)
        before = c26.files(d)
        with open(path, 'rb') as f:
            content = f.read()
        want = wanted(case, path, nm)
        p = process(args, d)
        ctx.eq(p.returncode, 0, 'exit status: ' + p.stderr[-500:])
        ctx.got(True)
        judge(ctx, case, d, path, where, base, content, want, before)
    ctx.nontrivial()


def process(args, d):
    env = dict(os.environ, PYTHONPATH=boot.REPO, MPLBACKEND='Agg',
               PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               PYTHONPYCACHEPREFIX=os.path.join(d, '..', 'no-such-cache'))
    return subprocess.run(
        [sys.executable, '-W', 'ignore', '-m', 'anticipy.app'] + args, cwd=d,
        env=env, capture_output=True, text=True, timeout=140)


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c['kind'] = draw(st.sampled_from(
        ['no file', 'folder', 'no out', 'no y', 'text y', 'text date',
         'empty', 'header', 'no argument', 'years', 'wrong name']))
    return c


def spoil(case, args, path, df, nm, d):
    k = case['kind']
    if k == 'no file':
        os.remove(path)
    elif k == 'folder':
        os.remove(path)
        os.makedirs(path)
    elif k == 'no out':
        args = [a for a in args if a.startswith('--include')] + [
            '--path_in', path, '--path_out', os.path.join(d, 'nowhere')]
    elif k == 'no y':
        df.drop(columns=nm['y']).to_csv(path, index=False)
    elif k == 'wrong name':
        args = args + ['--col_name_y', 'nothing']
    elif k == 'text y':
        t = df.copy().astype(object)
        t.iloc[len(t) // 2, list(t.columns).index(nm['y'])] = 'many'
        t.to_csv(path, index=False)
    elif k == 'text date':
        t = df.copy()
        if nm['date'] not in t:
            t[nm['date']] = 'x'
        else:
            t = t.astype(object)
            t.iloc[0, list(t.columns).index(nm['date'])] = 'someday'
        t.to_csv(path, index=False)
    elif k == 'empty':
        open(path, 'w').close()
    elif k == 'header':
        df.iloc[:0].to_csv(path, index=False)
    elif k == 'no argument':
        args = []
    elif k == 'years':
        args = args + ['--forecast_years', 'two']
    return args


@facet('refused', bad_cases(), 250,
       rule='missing files and folders, missing columns, values that are no '
            'numbers or dates, empty files, unusable arguments: an error, and '
            'no output; all are non-trivial')
def f_refused(case, ctx):
    df, nm = table(case, ctx)
    with c26.scratch() as (d, rec):
        args, path, where, base = setup(case, df, d)
        args = spoil(case, args, path, df, nm, d)
        before = c26.files(d)
        argv, err = sys.argv, sys.stderr
        ok = False
        try:
            sys.argv = ['app'] + args
            sys.stderr = open(os.devnull, 'w')
            app.main()
            ok = True
        except SystemExit as e:
            ok = not e.code
        except Exception:
            pass
        finally:
            sys.argv = argv
            sys.stderr.close()
            sys.stderr = err
        ctx.check(not ok, '{} was accepted', case['kind'])
        no_output(ctx, d, before)
    ctx.label(case['kind'])
    ctx.nontrivial()


@facet('refused process', bad_cases(), 6, 40,
       rule='the same in a process of its own: exit status; all are '
            'non-trivial')
def f_refused_process(case, ctx):
    df, nm = table(case, ctx)
    with c26.scratch() as (d, rec):
        args, path, where, base = setup(case, df, d)
        args = spoil(case, args, path, df, nm, d)
        before = c26.files(d)
        p = process(args, d)
        ctx.check(p.returncode != 0, '{}: exit status {}', case['kind'],
                  p.returncode)
        no_output(ctx, d, before)
    ctx.nontrivial()


@facet('again', st.tuples(cases(), cases()).map(list), 40, 250,
       rule='two runs with files of the same name: output of the second '
            'replaces that of the first; non-trivial: other contents')
def f_again(case, ctx):
    a, b = case
    b = dict(b, file='in.csv', folder='', out='out')
    a = dict(a, file='in.csv', folder='', out='out', format=b['format'])
    (da, na), (db, nb) = table(a, ctx), table(b, ctx)
    with c26.scratch() as (d, rec):
        argv = sys.argv
        try:
            args, path, where, base = setup(a, da, d)
            sys.argv = ['app'] + args
            app.main()
            os.rmdir(os.path.join(d, 'sub'))
            os.rename(os.path.join(d, 'out'), os.path.join(d, 'o'))
            args, path, where, base = setup(b, db, d)
            os.rmdir(os.path.join(d, 'out'))
            os.rename(os.path.join(d, 'o'), os.path.join(d, 'out'))
            with open(path, 'rb') as f:
                content = f.read()
            sys.argv = ['app'] + args
            app.main()
        finally:
            sys.argv = argv
        want = wanted(b, path, nb)
        ctx.got(True)
        judge(ctx, b, d, path, where, base, content, want, ['in.csv'])
    ctx.nontrivial(not da.equals(db))


FACETS = [f_tool, f_process, f_refused, f_refused_process, f_again]
