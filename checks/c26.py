"""C26: plots show every series and interval of the forecast"""
import contextlib
import io
import json
import os
import re
import shutil
import struct
import tempfile
import webbrowser

from vlib import boot
from vlib.runner import facet
from vlib import cmp, gen, pi, run
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from anticipy import forecast
import matplotlib
matplotlib.use('Agg')
import matplotlib.dates as mdates  # noqa
import matplotlib.figure  # noqa
import matplotlib.pyplot as plt  # noqa
import IPython.display  # noqa
forecast_plot = boot.load('forecast_plot')

ASSUMPTIONS = ['plots are judged by their lines, bands, titles and files, not '
               'by their looks']


@contextlib.contextmanager
def scratch():
    """A folder of its own as working directory, with recorders in place of
    browser and notebook"""
    d = tempfile.mkdtemp(prefix='vp_c26_')
    old = os.getcwd()
    rec = dict(figs=[], urls=[], shown=[])
    save = matplotlib.figure.Figure.savefig

    def savefig(self, *a, **kw):
        rec['figs'].append(self)
        return save(self, *a, **kw)
    patches = [(matplotlib.figure.Figure, 'savefig', savefig),
               (webbrowser, 'open', lambda url, *a, **kw:
                rec['urls'].append(url) or True),
               (IPython.display, 'display', lambda *a, **kw:
                rec['shown'].extend(a)),
               (IPython.display, 'display_html', lambda *a, **kw: None)]
    before = [(o, n, getattr(o, n)) for o, n, _ in patches]
    try:
        os.chdir(d)
        for o, n, f in patches:
            setattr(o, n, f)
        with contextlib.redirect_stdout(io.StringIO()):
            yield d, rec
    finally:
        for o, n, f in before:
            setattr(o, n, f)
        os.chdir(old)
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d)
                  for r, _, fs in os.walk(d) for f in fs)


@st.composite
def tables(draw):
    k = draw(st.sampled_from([1, 1, 2, 3, 5]))
    freq = draw(st.sampled_from(['D', 'W', 'MS', 'num', 'QS']))
    c = dict(sources=[draw(pi.one_source([freq], max_future=10, long=True))
                      for _ in range(k)],
             names=draw(st.sampled_from(['text', 'order', 'numbers'])),
             q=draw(st.sampled_from([[5, 20], [5, 20], [10, 30], [25, 1]])),
             interval=draw(st.sampled_from([True, True, False])),
             how=draw(st.sampled_from(['get_pi', 'get_pi', 'get_pi',
                                       'no interval', 'forecast'])),
             bare=draw(st.lists(st.integers(0, k - 1), max_size=k - 1,
                                unique=True))
             if k > 1 and draw(st.integers(0, 2)) == 0 else [],
             seed=draw(st.integers(0, 99)))
    if freq == 'num' and c['how'] == 'forecast':
        c['how'] = 'get_pi'
    return c


def source_names(case):
    n = len(case['sources'])
    if case['names'] == 'numbers' and n > 1:
        return list(range(10, 10 + n))
    if case['names'] == 'order':
        return ['z', 'b', 'Über x', 'a/1', 'c<d>'][:n]
    return ['s{}'.format(i) for i in range(n)]


def build(case):
    """Forecast table of the case, or None"""
    names = source_names(case)
    tabs = []
    for i, (s, nm) in enumerate(zip(case['sources'], names)):
        t, info = pi.build(s, 'x')
        t['source'] = nm
        if i in case.get('bare', ()) and case['how'] != 'forecast':
            # no model could be fitted
            t = t.loc[t.is_actuals & t.y.notnull()]
            if t.empty:
                return None
            tabs.append(t)
            continue
        if not len(info['res']):
            return None
        tabs.append(t)
    if case['how'] == 'forecast':
        ins = []
        for t, nm in zip(tabs, names):
            a = t.loc[t.is_actuals & t.y.notnull()]
            if len(a) < 5 or len(a) != a.date.nunique():
                return None
            ins.append(a[['date', 'y', 'source']])
            if not (a.date.diff().dropna().nunique() == 1 or
                    case['sources'][0]['freq'] in ('MS', 'QS')):
                return None
        df = pd.concat(ins, ignore_index=True)
        return run.seeded_run(
            case['seed'], df, trend=['linear'], season=['null'],
            naive=[], extrapolate_years=0.3, pi_q1=case['q'][0],
            pi_q2=case['q'][1])['forecast']
    df = pd.concat(tabs, ignore_index=True)
    if case['how'] == 'no interval':
        return df.drop(columns=['weight', 'is_best_fit', 'source_long'])
    return forecast.get_pi(df, n_sims=30, pi_q1=case['q'][0],
                           pi_q2=case['q'][1])


def expected(df, case):
    """Panels: title, actuals, forecast, bands"""
    out = []
    single = df.source.nunique() <= 1
    for src in list(dict.fromkeys(df.source)):
        d = df.loc[df.source == src]
        a = d.loc[d.is_actuals.astype(bool)]
        f = d.loc[~d.is_actuals.astype(bool)]
        bands = []
        if case['interval']:
            for q in case['q']:
                cols = ['q{}'.format(q), 'q{}'.format(100 - q)]
                if cols[0] in df:
                    bands.append((f.date, f[cols[0]], f[cols[1]]))
        out.append(dict(title=None if single else str(src), a=(a.date, a.y),
                        f=(f.date, f.y), bands=bands))
    return out


def num(dates):
    d = pd.Series(dates)
    if pd.api.types.is_numeric_dtype(d):
        return d.astype(float).tolist()
    return mdates.date2num(pd.to_datetime(d).dt.to_pydatetime()).tolist()


def points(x, y):
    return [(round(a, 6), float(b)) for a, b in zip(num(x), y)]


TOL = 1e-9


def same_points(p, q):
    if len(p) != len(q):
        return False
    p, q = [np.array(v, dtype=float).reshape(-1, 2) for v in (p, q)]
    s = np.abs(q[np.isfinite(q[:, 1]), 1])
    return np.allclose(p[:, 0], q[:, 0], rtol=1e-9, atol=1e-6) and \
        np.allclose(p[:, 1], q[:, 1], rtol=TOL, equal_nan=True,
                    atol=TOL * (1e-3 + (s.max() if len(s) else 0.)))


def uniq(p):
    return sorted(set((round(a, 5), float('{:.9g}'.format(b)))
                      for a, b in p))


def line_points(line):
    x = line.get_xdata(orig=True)
    return points(x, np.asarray(line.get_ydata(orig=True), dtype=float))


def judge_axes(ctx, fig, want, case):
    axes = [a for a in fig.axes if a.get_visible()]
    ctx.eq(len(axes), len(want), 'panels')
    for ax, w in zip(axes, want):
        if w['title'] is not None:
            ctx.eq(ax.get_title(), w['title'], 'panel')
        ctx.eq(len(ax.lines), 2, 'lines')
        a, f = points(*w['a']), points(*w['f'])
        got = [line_points(v) for v in ax.lines]
        if not (same_points(got[0], a) and same_points(got[1], f)):
            ctx.check(same_points(got[1], a) and same_points(got[0], f),
                      'panel {}: lines are {}, should be {} and {}',
                      w['title'], got, a, f)
            got = got[::-1]
        ctx.eq(len(ax.collections), len(w['bands']), 'bands')
        for c, (x, lo, hi) in zip(ax.collections, w['bands']):
            v = np.concatenate([p.vertices for p in c.get_paths()] or
                               [np.zeros((0, 2))])
            pts = uniq((float(p), float(q)) for p, q in v)
            should = uniq(points(x, lo) + points(x, hi))
            ctx.check(same_points(pts, should), 'panel {}: band {} should be '
                      '{}', w['title'], pts, should)
        leg = ax.get_legend()
        ctx.eq(leg is not None, case['legend'], 'legend')
        if leg is not None:
            ctx.eq([t.get_text() for t in leg.get_texts()],
                   ['Actuals', 'Forecast'], 'legend')
        # lines are told apart
        ctx.check(ax.lines[0].get_color() != ax.lines[1].get_color(),
                  'colours')


def png_size(path):
    with open(path, 'rb') as f:
        h = f.read(24)
    assert h[:8] == b'\x89PNG\r\n\x1a\n', h
    return struct.unpack('>II', h[16:24])


@st.composite
def cases(draw):
    c = draw(tables())
    c['legend'] = draw(st.booleans())
    c['title'] = draw(st.sampled_from(['A title', 'x & y', None]))
    c['size'] = draw(st.sampled_from([[900, 600], [1200, 900], [700, 420],
                                      None]))
    c['path'] = draw(st.sampled_from(['out', 'sub/out', 'new/sub/o.1',
                                      'abs']))
    c['open'] = draw(st.integers(0, 4)) == 0
    return c


def prepare(case, d):
    os.makedirs(os.path.join(d, 'sub'))
    path = case['path']
    if path == 'abs':
        path = os.path.join(d, 'sub', 'abs')
    return path


def call(ctx, case, df, output, path):
    kw = dict(title=case['title'], show_legend=case['legend'],
              include_interval=case['interval'])
    if case['q'] != [5, 20]:
        kw.update(pi_q1=case['q'][0], pi_q2=case['q'][1])
    if case['size']:
        kw.update(width=case['size'][0], height=case['size'][1])
    if case.get('open'):
        kw['auto_open'] = True
    before = df.copy()
    r = forecast_plot.plot_forecast(df, output, path, **kw)
    cmp.untouched(ctx, df, before, 'forecast table')
    return r


def nontriv(ctx, case, want):
    ctx.label('{} panels'.format(len(want)), case['how'])
    if case.get('bare') and case['how'] != 'forecast':
        ctx.label('source without forecast')
    ctx.nontrivial(len(want) > 1 or any(w['bands'] for w in want))


@facet('png', cases(), 220, 1500,
       rule='forecast tables of 1 to 5 sources (dates or numbers, with or '
            'without intervals, any percentiles), drawn to png: lines and '
            'bands of every panel; non-trivial: several panels or a band')
def f_png(case, ctx):
    df = build(case)
    if df is None:
        ctx.skip()
    want = expected(df, case)
    with scratch() as (d, rec):
        path = prepare(case, d)
        r = ctx.got(call(ctx, case, df, 'png', path))
        ctx.eq(r, 0, 'result')
        full = os.path.join(d, path) + '.png'
        ctx.eq(files(d), [os.path.relpath(full, d)], 'files')
        if case['size']:
            ctx.close(png_size(full), case['size'], 'size in pixels', 0, 1)
        ctx.eq(len(rec['figs']), 1, 'figures saved')
        judge_axes(ctx, rec['figs'][0], want, case)
        ctx.eq(len(rec['urls']), int(case['open']), 'browser windows')
        if case['open']:
            ctx.check(rec['urls'][0].endswith(path + '.png'), 'opened {}',
                      rec['urls'])
    nontriv(ctx, case, want)


def js_args(html):
    """Arguments of Plotly.newPlot: id, data, layout"""
    i = html.index('Plotly.newPlot(') + len('Plotly.newPlot(')
    out, dec = [], json.JSONDecoder()
    for _ in range(3):
        i += re.match(r'[\s,]*', html[i:]).end()
        v, k = dec.raw_decode(html[i:])
        i += k
        out.append(v)
    return out


def judge_plotly(ctx, data, layout, want, case, df):
    numeric = pd.api.types.is_numeric_dtype(df.date)

    def tr(t):
        x = t.get('x')
        x = [] if x is None else x
        if not numeric:
            x = pd.to_datetime(pd.Series(list(x), dtype=object))
        y = [np.nan if v is None else v for v in t['y']]
        return points(x, y)
    panels = {}
    for t in data:
        panels.setdefault((t.get('xaxis', 'x'), t.get('yaxis', 'y')),
                          []).append(t)
    ctx.eq(len(panels), len(want), 'panels')
    titles = {a['text']: a for a in layout.get('annotations', [])}
    used = set()
    for w in want:
        if w['title'] is None:
            key = list(panels)[0]
        else:
            ctx.check(w['title'] in titles, 'no panel for {}', w['title'])
            an = titles[w['title']]
            hit = []
            for kx, ky in panels:
                dx = layout['xaxis' + kx[1:]]['domain']
                dy = layout['yaxis' + ky[1:]]['domain']
                if abs(np.mean(dx) - an['x']) < 1e-6 and \
                        abs(dy[1] - an['y']) < 1e-6:
                    hit.append((kx, ky))
            ctx.eq(len(hit), 1, 'panels under title ' + w['title'])
            key = hit[0]
        ctx.check(key not in used, 'panel drawn twice')
        used.add(key)
        ts = panels[key]
        ctx.eq(len(ts), 2 + 2 * len(w['bands']), 'lines in panel {}'.format(
            w['title']))
        a, f = points(*w['a']), points(*w['f'])
        pos = {t.get('name'): t for t in ts}
        for nm, p in (('Actuals', a), ('Forecast', f)):
            ctx.check(nm in pos, 'no {} in {}', nm, list(pos))
            ctx.check(same_points(tr(pos[nm]), p), 'panel {}: {} is {}, '
                      'should be {}', w['title'], nm, tr(pos[nm]), p)
        for q, (x, lo, hi) in zip(case['q'], w['bands']):
            i = [j for j, t in enumerate(ts)
                 if t.get('name') == '{}% PI'.format(q)]
            ctx.eq(len(i), 1, 'lower bounds {}'.format(q))
            t, u = ts[i[0]], ts[(i[0] + 1) % len(ts)]
            ctx.check(same_points(tr(t), points(x, lo)), 'panel {}: lower '
                      'bound {} should be {}', w['title'], tr(t),
                      points(x, lo))
            ctx.eq(u.get('name'), '{}% PI'.format(100 - q), 'upper bound')
            ctx.check(same_points(tr(u), points(x, hi)), 'panel {}: upper '
                      'bound {} should be {}', w['title'], tr(u),
                      points(x, hi))
            ctx.eq(u.get('fill'), 'tonexty', 'band')
    ctx.eq(layout.get('showlegend'), case['legend'], 'legend')
    t = layout.get('title') or {}
    ctx.eq(t.get('text'), case['title'], 'title')
    if case['size']:
        ctx.eq([layout['width'], layout['height']], case['size'], 'size')


@facet('html', cases(), 500, 3000,
       rule='the same tables drawn to html: data of every trace in the file, '
            'in the panel of its source; non-trivial: several panels or a '
            'band')
def f_html(case, ctx):
    df = build(case)
    if df is None:
        ctx.skip()
    want = expected(df, case)
    with scratch() as (d, rec):
        path = prepare(case, d)
        r = ctx.got(call(ctx, case, df, 'html', path))
        ctx.eq(r, 0, 'result')
        full = os.path.join(d, path) + '.html'
        ctx.eq(files(d), [os.path.relpath(full, d)], 'files')
        with open(full, encoding='utf8') as f:
            html = f.read()
        _, data, layout = js_args(html)
        judge_plotly(ctx, data, layout, want, case, df)
        ctx.eq(len(rec['urls']), int(case['open']), 'browser windows')
    nontriv(ctx, case, want)


@facet('jupyter', cases(), 150, 800,
       rule='the same tables shown in a notebook: the figure displayed, and '
            'no file; non-trivial: several panels or a band')
def f_jupyter(case, ctx):
    df = build(case)
    if df is None:
        ctx.skip()
    want = expected(df, case)
    case['open'] = False
    with scratch() as (d, rec):
        ctx.got(call(ctx, case, df, 'jupyter', None))
        ctx.eq(files(d), [], 'files')
        figs = [b['application/vnd.plotly.v1+json'] for b in rec['shown']
                if isinstance(b, dict) and
                'application/vnd.plotly.v1+json' in b]
        ctx.eq(len(figs), 1, 'figures shown')
        judge_plotly(ctx, figs[0]['data'], figs[0]['layout'], want, case, df)
    nontriv(ctx, case, want)


@st.composite
def bad_cases(draw):
    return dict(t=draw(tables()), kind=draw(st.sampled_from(
        ['no path', 'empty path', 'format', 'no table'])),
        output=draw(st.sampled_from(['png', 'html'])),
        format=draw(st.sampled_from(['pdf', '', 'PNG', 'svg', None, 'htm'])),
        table=draw(st.sampled_from(['none', 'list', 'dict', 'text'])))


@facet('refused', bad_cases(), 150, 500,
       rule='missing paths, unknown formats, and input that is no table; all '
            'are non-trivial')
def f_refused(case, ctx):
    df = build(case['t'])
    if df is None:
        ctx.skip()
    args = [df, case['output'], 'out']
    k = case['kind']
    if k == 'no path':
        args[2] = None
    elif k == 'empty path':
        args[2] = ''
    elif k == 'format':
        args[1] = case['format']
    else:
        args[0] = {'none': None, 'list': [1, 2], 'dict': dict(forecast=df),
                   'text': 'df'}[case['table']]
    with scratch() as (d, rec):
        before = df.copy()
        try:
            r = forecast_plot.plot_forecast(*args, width=600, height=400)
        except Exception:
            ctx.check(k == 'no table', '{} raised', k)
            r = 1
        ctx.check(r, '{} was accepted', k)
        ctx.eq(files(d), [], 'files')
        ctx.eq([rec['urls'], rec['shown'], rec['figs']], [[], [], []],
               'output')
        cmp.untouched(ctx, df, before, 'table')
    ctx.label(k)
    ctx.nontrivial()


@facet('again', st.tuples(cases(), cases(), st.sampled_from(
    ['png', 'html'])).map(list), 60, 400,
    rule='two plots one after the other to the same file: the second replaces '
         'the first; non-trivial: different tables')
def f_again(case, ctx):
    a, b, output = case
    b = dict(b, open=False, path='out')
    a = dict(a, open=False, path='out')
    da, db = build(a), build(b)
    if da is None or db is None:
        ctx.skip()
    want = expected(db, b)
    with scratch() as (d, rec):
        call(ctx, a, da, output, 'out')
        ctx.got(call(ctx, b, db, output, 'out'))
        ctx.eq(files(d), ['out.' + output], 'files')
        if output == 'png':
            judge_axes(ctx, rec['figs'][-1], want, b)
        else:
            with open(os.path.join(d, 'out.html'), encoding='utf8') as f:
                _, data, layout = js_args(f.read())
            judge_plotly(ctx, data, layout, want, b, db)
    ctx.nontrivial(not da.equals(db))


@st.composite
def many_cases(draw):
    return dict(k=draw(st.integers(6, 26)), n=draw(st.integers(2, 5)),
                output=draw(st.sampled_from(['html', 'html', 'jupyter',
                                             'png'])),
                q=draw(st.sampled_from([[5, 20], [10, 30]])),
                interval=draw(st.booleans()), legend=draw(st.booleans()),
                start=draw(gen.dates), seed=draw(st.integers(0, 999)))


@facet('many sources', many_cases(), 40, 400,
       rule='6 to 26 sources of a few samples each, drawn to html, notebook '
            'or png: a panel of its own for each; non-trivial: more than 9')
def f_many(case, ctx):
    k, n = case['k'], case['n']
    if case['output'] == 'png':
        k = 6 + k % 9
    tabs = []
    for i in range(k):
        u = gen.noise(case['seed'] + i, 2 * n) + 10 * i
        t = pd.DataFrame(dict(
            date=pd.date_range(case['start'], periods=2 * n), y=u,
            source='s{:02d}'.format((i * 7) % 31), model='m',
            is_actuals=np.arange(2 * n) < n))
        for j, q in enumerate(case['q']):
            d = np.where(t.is_actuals, np.nan, 2. - j)
            t['q{}'.format(q)], t['q{}'.format(100 - q)] = u - d, u + d
        tabs.append(t)
    df = pd.concat(tabs, ignore_index=True)
    case = dict(case, title='Many', size=[1100, 900], path='out')
    want = expected(df, case)
    with scratch() as (d, rec):
        ctx.got(call(ctx, case, df, case['output'], 'out'))
        if case['output'] == 'png':
            judge_axes(ctx, rec['figs'][0], want, case)
        elif case['output'] == 'html':
            with open(os.path.join(d, 'out.html'), encoding='utf8') as f:
                _, data, layout = js_args(f.read())
            judge_plotly(ctx, data, layout, want, case, df)
        else:
            fig = [b['application/vnd.plotly.v1+json'] for b in rec['shown']
                   if isinstance(b, dict) and
                   'application/vnd.plotly.v1+json' in b][0]
            judge_plotly(ctx, fig['data'], fig['layout'], want, case, df)
    ctx.label(case['output'])
    ctx.nontrivial(k > 9)


FACETS = [f_png, f_html, f_many, f_jupyter, f_refused, f_again]
