import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import build, env, impl
from . import c25
from .common import *

PID, LEVEL = 'C30', 'exploration'
ASSUMPTIONS = ['values outside of the alphabet behave like the values below, at and above the limits', 'plotly and matplotlib draw what the figure objects contain']
RULE = ('all tables over an alphabet of column patterns (positive, negative, mixed, zero, within the limit of zero) x modes x engines x forms of index, colours and destination: the series, stacks and cells of the figure are compared '
        'with the table handed over; all elements of small calculations x modes x engines x inversion x destination for answers of the solver over the same alphabet: the figure is compared with those answers; '
        'the given table and the loaded results are compared before and after; files are written only where asked for')

PAT = {'p': [1.0, 2.0, 0.5], 'n': [-1.0, -0.5, -3.0], 'm': [1.0, -2.0, 0.25], 'z': [0.0, 0.0, 0.0], 't': [9e-6, -9e-6, 0.0], 'u': [2e-5, 0.0, 3.0], 'd': [0.0, -4.0, 0.0], 'o': [0.0, 0.0, 5.0], 'e': [3.0, -9e-6, 1.0]}
TOL = 1.0001e-5


def index(kind, n=3):
    import pandas as pd
    if kind == 'num':
        return pd.RangeIndex(n)
    if kind == 'float':
        return pd.Index([0.0, 2.0, 2.5, 4.0][:n])
    if kind == 'gap':
        return pd.DatetimeIndex(['2020-01-01 00:00', '2020-01-01 02:00', '2020-01-01 03:00', '2020-01-02 00:00'][:n])
    return pd.date_range('2020-02-28 22:00', periods=n, freq='h')


def frame(cols, ix):
    import pandas as pd
    return pd.DataFrame({f'{k}{i}': (PAT[k] if len(PAT[k]) == len(ix) else (PAT[k] * 3)[:len(ix)]) for i, k in enumerate(cols)}, index=ix)


def same(a, b, tol=1e-12):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1, abs(y)) for x, y in zip(a, b))


def times(x):
    import pandas as pd
    x = list(x)
    return [pd.Timestamp(v) if not isinstance(v, (int, float, np.number)) else float(v) for v in x]


def plotly_series(fig, df, mode, colors=None):
    """violation text of a plotly figure of the table"""
    tr = list(fig.data)
    names = [t.name for t in tr]
    if sorted(names) != sorted(map(str, df.columns)):
        return f'series {names}, the table has {list(df.columns)}'
    for t in tr:
        want = df[t.name]
        tol = TOL if mode == 'area' else 1e-12
        if times(t.x) != times(df.index) or not same(t.y, want, tol):
            return f'series {t.name} is {list(t.y)} at {list(t.x)}, the table has {want.tolist()} at {list(df.index)}'
        if (t.type == 'bar') != (mode == 'bar'):
            return f'series {t.name} is drawn as {t.type}'
        if mode != 'bar' and t.line.shape != 'hv':
            return f'series {t.name} is not stepped'
        if t.visible in (False, 'legendonly') or t.yaxis not in (None, 'y') or t.xaxis not in (None, 'x'):
            return f'series {t.name} is not shown'
        if colors is not None:
            c = t.marker.color if mode == 'bar' else t.line.color
            if c != colors[list(df.columns).index(t.name)]:
                return f'series {t.name} has the colour {c}'
        if mode == 'area':
            sign = {True: 'p', False: ''}[bool((want > -TOL).all())] + {True: 'n', False: ''}[bool((want < TOL).all())]
            if not sign and t.stackgroup:
                return f'series {t.name} with both signs is stacked'
            if sign and not t.stackgroup:
                return f'series {t.name} with one sign is not stacked'
    if mode == 'area':
        G = {'p': set(), 'n': set()}
        for t in tr:
            v = df[t.name]
            if (v > -TOL).all() and (v > TOL).any():
                G['p'].add(t.stackgroup)
            if (v < TOL).all() and (v < -TOL).any():
                G['n'].add(t.stackgroup)
        if len(G['p']) > 1 or len(G['n']) > 1 or G['p'] & G['n']:
            return f'stacks {G}'
    if mode == 'bar' and len(tr) > 1 and fig.layout.barmode != 'relative':
        return f'bars are not stacked by sign ({fig.layout.barmode})'
    if len({t.name for t in tr}) > 1 and colors is None:
        cs = [t.marker.color if mode == 'bar' else t.line.color for t in tr]
        if len(set(cs)) < len(cs):
            return f'equal colours {cs}'
    return None


def num(x):
    import matplotlib.dates as md
    import pandas as pd
    return [md.date2num(v) if isinstance(v, (pd.Timestamp, np.datetime64)) or hasattr(v, 'year') else float(v) for v in x]


def mpl_series(fig, ax, df, mode, colors=None):
    import matplotlib.colors as mc
    cols = list(df.columns)
    labels = [str(c) for c in cols]
    _, leg = ax.get_legend_handles_labels()
    if sorted(leg) != sorted(labels):
        return f'legend {leg}, the table has {labels}'
    ix = num(df.index)
    if mode == 'line':
        if len(ax.lines) != len(cols):
            return f'{len(ax.lines)} lines for {len(cols)} series'
        for ln in ax.lines:
            want = df[ln.get_label()]
            x = num(ln.get_xdata())
            if not same(x, ix, 1e-9) or not same(ln.get_ydata(), want):
                return f'series {ln.get_label()} is {list(ln.get_ydata())}, the table has {want.tolist()}'
            if ln.get_drawstyle() != 'steps-post':
                return f'series {ln.get_label()} is not stepped'
            if colors is not None and mc.to_rgba(ln.get_color()) != mc.to_rgba(colors[labels.index(ln.get_label())]):
                return f'series {ln.get_label()} has the colour {ln.get_color()}'
        return None
    # bars: total extent by sign, every series between the ones before and after it
    seen = {}
    for c in ax.containers:
        for r in c.patches:
            x = r.get_x() + r.get_width() / 2
            t = min(range(len(ix)), key=lambda k: abs(ix[k] - x))
            if abs(ix[t] - x) > 1e-6:
                return f'a bar at {x}, the table has {ix}'
            if abs(r.get_height()) > 1e-15:
                lo, hi = sorted((r.get_y(), r.get_y() + r.get_height()))
                seen.setdefault(t, []).append((lo, hi, mc.to_hex(r.get_facecolor(), True)))
    first = {}
    for c in ax.containers:
        if c.get_label() in labels:
            first[c.get_label()] = mc.to_hex(c.patches[0].get_facecolor(), True)
    if colors is not None:
        for l, c in zip(labels, colors):
            if first[l] != mc.to_hex(c, True):
                return f'series {l} has the colour {first[l]}'
    elif len(set(first.values())) < len(first):
        return f'equal colours {first}'
    for t in range(len(ix)):
        for sign in (1, -1):
            vals = [(float(df[c].iloc[t]), first[l]) for c, l in zip(cols, labels) if sign * float(df[c].iloc[t]) > 0]
            bars = sorted([b for b in seen.get(t, []) if (b[1] > 1e-15 if sign > 0 else b[0] < -1e-15)], key=lambda b: sign * (b[0] + b[1]))
            if sorted((round(b[1] - b[0], 9), b[2]) for b in bars) != sorted((round(abs(v), 9), c) for v, c in vals):
                return f'bars {bars} at {df.index[t]}, the table has {vals}'
            at = 0.0
            for b in bars:
                s, e = (b[0], b[1]) if sign > 0 else (b[1], b[0])
                if abs(s - at) > 1e-9:
                    return f'bars at {df.index[t]} are not stacked: {bars}'
                at = e
    return None


def heat(got, want):
    """cells (row label, column label) -> value"""
    if set(got) != set(want):
        return f'cells {sorted(set(got) ^ set(want))[:4]} differ'
    for k, v in want.items():
        a, b = got[k], v
        a = None if a is None or a != a else float(a)
        b = None if b is None or b != b else float(b)
        if (a is None) != (b is None) or a is not None and abs(a - b) > 1e-9 * max(1, abs(b)):
            return f'cell {k} is {a}, should be {b}'
    return None


def cells_plotly(fig):
    t, = fig.data
    return {(str(y), str(x)): (None if v is None else float(v)) for y, row in zip(t.y, t.z) for x, v in zip(t.x, row)}


def cells_mpl(fig, ax):
    mesh, = ax.collections
    z = mesh.get_array()
    xl, yl = [x.get_text() for x in ax.get_xticklabels()], [x.get_text() for x in ax.get_yticklabels()]
    z = np.ma.filled(np.ma.asarray(z, dtype=float), np.nan).reshape(len(yl), len(xl))
    xt, yt = ax.get_xticks(), ax.get_yticks()
    if list(xt) != [i + 0.5 for i in range(len(xl))] or list(yt) != [i + 0.5 for i in range(len(yl))]:
        return {}
    return {(y, x): z[i, j] for i, y in enumerate(yl) for j, x in enumerate(xl)}


def cells_df(df):
    return {(str(r), str(c)): df.loc[r, c] for r in df.index for c in df.columns}


class Files:
    """files below a directory"""

    def __init__(self, d):
        self.d = d

    def now(self):
        return {os.path.relpath(os.path.join(a, f), self.d): os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(self.d) for f in fs}


def stop_showing():
    import matplotlib.pyplot as plt
    import plotly.offline
    import plotly.io
    shown = []
    old = plt.show, plotly.offline.plot

    def off(fig, filename='temp-plot.html', **kw):
        shown.append(('plotly', str(filename)))
        fig.write_html(filename, include_plotlyjs=False)
    plt.show = lambda *a, **k: shown.append(('mpl', None))
    plotly.offline.plot = off

    def undo():
        plt.show, plotly.offline.plot = old
    return shown, undo


COLORS = {'plotly': ['#ff0000', '#00ff00', '#0000ff', '#888800'], 'mpl': ['#ff0000', '#00ff00', '#0000ff', '#888800']}


def run_table(task):
    import matplotlib.pyplot as plt
    import plotly.graph_objects as go
    from flixOpt import plotting as P
    out = dict(viol=[], evals=0, nontrivial=0, tag='tables')
    base = tempfile.mkdtemp(prefix='c30_', dir=env.scratch())
    shown, undo = stop_showing()
    F, cwd = Files(base), os.getcwd()
    try:
        os.chdir(base)
        for n, cols in enumerate(task['cols']):
            for ik, mode, ck, dest in task['forms']:
                df = frame(cols, index(ik))
                keep = df.copy(deep=True)
                colors = COLORS['plotly'][:len(cols)] if ck == 'list' else ck
                wc = colors if ck == 'list' else None
                show, save = dest == 'show', dest == 'save'
                before, ns = F.now(), len(shown)
                out['evals'] += 1
                out['nontrivial'] += 1
                if task['engine'] == 'plotly':
                    fig0 = go.Figure() if n % 2 else None
                    fig = P.with_plotly(df, mode, colors, title='T', ylabel='Y', fig=fig0, show=show, save=save, path='p.html')
                    t = plotly_series(fig, keep, mode, wc)
                    if not t and fig0 is not None and fig is not fig0:
                        t = 'the given figure is not used'
                    if not t and (fig.layout.title.text != 'T' or fig.layout.yaxis.title.text != 'Y'):
                        t = 'title or label of the axis missing'
                    wf = {'p.html'} if dest else set()
                else:
                    kw = {}
                    if n % 2:
                        kw = dict(zip(('fig', 'ax'), plt.subplots()))
                    fig, ax = P.with_matplotlib(df, mode, colors, show=show, path='p.png' if save else None, **kw)
                    t = mpl_series(fig, ax, keep, mode, wc)
                    if not t and kw and (fig is not kw['fig'] or ax is not kw['ax']):
                        t = 'the given figure is not used'
                    wf = {'p.png'} if save else set()
                    plt.close(fig)
                if not t and (len(shown) > ns) != show:
                    t = f'shown: {shown[ns:]}, show={show}'
                new = set(F.now()) - set(before)
                if not t and new != wf:
                    t = f'files written: {new}, asked for {wf}'
                for f in new:
                    os.remove(f)
                if not t and not (keep.equals(df) and list(keep.columns) == list(df.columns) and keep.index.equals(df.index)):
                    t = f'the given table is altered: {df.to_dict("list")} instead of {keep.to_dict("list")}'
                if t and len(out['viol']) < 4:
                    out['viol'].append(dict(kind='plot', text=f'{task["engine"]} {mode}, columns {"".join(cols)}, index {ik}, colours {ck}, {dest}: {t}'[:900]))
    finally:
        undo()
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    return out


def run_heat(task):
    import matplotlib.pyplot as plt
    import pandas as pd
    from flixOpt import plotting as P
    out = dict(viol=[], evals=0, nontrivial=0, tag='heat maps')
    base = tempfile.mkdtemp(prefix='c30_', dir=env.scratch())
    shown, undo = stop_showing()
    F, cwd = Files(base), os.getcwd()
    try:
        os.chdir(base)
        for vals in task['vals']:
            for rows, cols, dest, cat in task['forms']:
                data = np.array([[vals[(i * 2 + j * 3) % len(vals)] for j in range(cols)] for i in range(rows)], dtype=float)
                df = pd.DataFrame(data, index=[f'r{i}' for i in range(rows)] if cat else range(rows), columns=[f'2020-0{j + 1}' for j in range(cols)] if cat else range(cols))
                keep = df.copy(deep=True)
                out['evals'] += 1
                out['nontrivial'] += 1
                before, ns = F.now(), len(shown)
                if task['engine'] == 'plotly':
                    fig = P.heat_map_plotly(df, 'viridis', 'T', categorical_labels=cat, show=dest == 'show', save=dest == 'save', path='p.html')
                    t = heat(cells_plotly(fig), cells_df(keep))
                    if not t and (fig.layout.yaxis.autorange != 'reversed'):
                        t = 'first row is not at the top'
                    h = fig.data[0]
                    ok = keep.notna().any().any()
                    if not t and ok and (h.zmin != keep.min().min() or h.zmax != keep.max().max()):
                        t = f'colours from {h.zmin} to {h.zmax}'
                    wf = {'p.html'} if dest else set()
                else:
                    fig, ax = P.heat_map_matplotlib(df, 'viridis', show=dest == 'show', path='p.png' if dest == 'save' else None)
                    t = heat(cells_mpl(fig, ax), cells_df(keep))
                    if not t and not ax.yaxis_inverted():
                        t = 'first row is not at the top'
                    bar = [a for a in fig.axes if a is not ax]
                    if not t and keep.notna().all().all():
                        lo, hi = ax.collections[0].get_clim()
                        if not (same([lo], [keep.min().min()]) and same([hi], [keep.max().max()])) or len(bar) != 1:
                            t = f'colours from {lo} to {hi}'
                    wf = {'p.png'} if dest == 'save' else set()
                    plt.close(fig)
                if not t and (len(shown) > ns) != (dest == 'show'):
                    t = f'shown: {shown[ns:]}, {dest}'
                new = set(F.now()) - set(before)
                if not t and new != wf:
                    t = f'files written: {new}, asked for {wf}'
                for f in new:
                    os.remove(f)
                if not t and not keep.equals(df):
                    t = 'the given table is altered'
                if t and len(out['viol']) < 4:
                    out['viol'].append(dict(kind='heat map', text=f'{task["engine"]}, {data.tolist()}, {dest}: {t}'[:900]))
    finally:
        undo()
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    return out


def run_grid(task):
    from flixOpt import plotting as P
    out = dict(viol=[], evals=0, nontrivial=0, tag='reshaping')
    for n in range(1, task['n'] + 1):
        for k in range(1, task['n'] + 2):
            d = np.arange(1.0, n + 1)
            z = P.reshape_to_2d(d, k)
            out['evals'] += 1
            out['nontrivial'] += n % k != 0
            cols = -(-n // k)
            want = [[(float(j * k + i + 1) if j * k + i < n else None) for j in range(cols)] for i in range(k)]
            got = [[None if v != v else float(v) for v in row] for row in np.asarray(z, dtype=float)]
            if got != want:
                out['viol'].append(dict(kind='reshape', text=f'{n} values, {k} per column: {got}, should be {want}'))
                break
    return out


def table(q, val, label, fi, fo):
    """expected columns of an element (label -> values) without the ones that are zero"""
    cols = {}
    for k, (p, comp, bus, inp) in q.items():
        if isinstance(k, str):
            if k == label:
                cols['flow_rate'] = list(val[k])
            elif comp == label:
                cols[k] = [(fi if inp else fo) * v for v in val[k]]
            elif bus == label:
                cols[k] = [(fo if inp else fi) * v for v in val[k]]
        elif k[0] == label:
            cols['Excess Input' if k[1] == 'in' else 'Excess Output'] = [(fi if k[1] == 'in' else fo) * v for v in val[k]]
    return {k: v + [v[-1]] for k, v in cols.items() if any(abs(x) > 1e-5 for x in v)}


def spec_of(dt):
    S = dict(kind='Storage', label='Sto', cap=8, init=0, ins=[flow('in', 'B', 5)], outs=[flow('out', 'B', 5)])
    return system([source('src', flow('f', 'B', 10)), S, dict(kind='LinearConverter', label='k', ins=[flow('i', 'B', 9)], outs=[flow('o', 'H', 9), flow('p', 'H', 9)], factors=[[['i', 1], ['o', 1]]])],
                  dt=dt, buses={'B': {'penalty': 3}, 'H': {'penalty': None}})


def run_op(task):
    import flixOpt as fx
    import matplotlib.pyplot as plt
    import pandas as pd
    from flixOpt.results import CalculationResults
    from .c24 import observables
    out = dict(viol=[], evals=0, nontrivial=0, tag='operation')
    spec = spec_of(task['dt'])
    n = len(spec['dt'])
    d = tempfile.mkdtemp(prefix='c30_', dir=env.scratch())
    shown, undo = stop_showing()
    F, cwd = Files(d), os.getcwd()
    try:
        os.chdir(d)
        os.mkdir('res')
        b = build.build(spec)
        c = fx.FullCalculation('calc', b.fs)
        c.do_modeling()
        S = impl.Sys(c)
        q = observables(spec)
        st = build.stamps(spec)
        tm = pd.DatetimeIndex(np.append(st, st[-1] + np.timedelta64(int(spec['dt'][-1] * 3600), 's')))
        cs = ('Components', 'Sto', 'charge_state')
        for pats in task['pats']:
            val = {k: (PAT[p] * 12)[:n] for k, p in zip(q, pats)}
            level = [0.0] + [0.25 * (i + 1) for i in range(n)]
            ans = {S.where[(q[k][0], t)]: v[t] for k, v in val.items() for t in range(n)}
            ans.update({S.where[(cs, t)]: v for t, v in enumerate(level) if isinstance(S.where.get((cs, t)), (int, np.integer))})
            c.solve(impl.make_solver(S._set(lambda i: ans.get(i, 0.0))), save_results='res')
            res = CalculationResults('calc', 'res')
            for label, mode, engine, invert, dest in task['calls']:
                what = f'plot_operation({label!r}, {mode!r}, engine={engine!r}, invert={invert}, {dest}) with {dict(zip(map(str, q), pats))}'
                before, ns = F.now(), len(shown)
                kw = dict(invert=invert, show=dest in ('show', 'show path'), save=dest in ('save', 'save path'), path='own.x.' + ('html' if engine == 'plotly' or mode == 'storage' else 'png') if 'path' in dest else 'auto')
                if not kw['show'] and dest != 'defaults':
                    kw['show'] = False
                fi, fo = (1, -1) if invert else (-1, 1)
                want = table(q, val, label, fi, fo)
                df = pd.DataFrame(want, index=tm)
                out['evals'] += 1
                out['nontrivial'] += bool(want)
                t = None
                if mode == 'storage':
                    fig = res.plot_storage(label, mode='line', **kw)
                    last = fig.data[-1]
                    if last.name != 'Charge State' or times(last.x) != times(tm) or not same(last.y, level):
                        t = f'charge state {list(last.y)} at {list(last.x)}, should be {level}'
                    elif last.line.shape == 'hv':
                        t = 'charge state is stepped'
                    else:
                        import plotly.graph_objects as go
                        t = plotly_series(go.Figure(fig.data[:-1]), df, 'line')
                elif mode == 'heatmap':
                    r = res.plot_operation(label, mode, heatmap_periods='D', heatmap_steps_per_period='h', engine=engine, **kw)
                    series = list(zip([x.to_pydatetime() for x in tm], want['flow_rate']))
                    w = c25.expected(series, 'D', 'h', 'ffill')
                    wc = {(s, p): v for (p, s), v in w.items()}
                    for s, p in itertools.product({k[0] for k in wc}, {k[1] for k in wc}):
                        wc.setdefault((s, p), None)
                    t = heat(cells_plotly(r) if engine == 'plotly' else cells_mpl(*r), wc)
                else:
                    r = res.plot_operation(label, mode, engine=engine, **kw)
                    if engine == 'plotly':
                        t = plotly_series(r, df, mode)
                    else:
                        t = mpl_series(r[0], r[1], df, mode)
                plt.close('all')
                new = set(F.now()) - set(before)
                saved = kw['save'] or kw['show'] and (engine == 'plotly' or mode == 'storage')
                if want or mode == 'storage':
                    if not t and len(new) != saved:
                        t = f'files written: {new}'
                    if not t and saved and ('path' in dest) != (new == {kw['path']}):
                        t = f'files written: {new}'
                    if not t and saved and 'path' not in dest and not all(x.startswith('res') and label in x for x in new):
                        t = f'files written: {new}'
                    if not t and (len(shown) > ns) != kw['show']:
                        t = f'shown {shown[ns:]}'
                for f in new:
                    os.remove(f)
                if t and len(out['viol']) < 4:
                    out['viol'].append(dict(kind='plot', text=f'{what}: {t}'[:900]))
            # what was loaded is still the same
            for k, (p, comp, bus, inp) in q.items():
                if isinstance(k, str):
                    got = res.flow_results()[k].variables['flow_rate']
                    if not same(got, val[k]) and len(out['viol']) < 4:
                        out['viol'].append(dict(kind='plot', text=f'plotting altered the results of {k}: {list(got)}, were {val[k]}'))
    finally:
        undo()
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return out


def run_agg(task):
    """the picture of the original and the aggregated data"""
    import warnings

    import pandas as pd
    import matplotlib.pyplot as plt
    from flixOpt.aggregation import Aggregation
    warnings.filterwarnings('ignore')
    out = dict(viol=[], evals=0, nontrivial=0, tag='aggregation')
    base = tempfile.mkdtemp(prefix='c30_', dir=env.scratch())
    shown, undo = stop_showing()
    F, cwd = Files(base), os.getcwd()
    try:
        os.chdir(base)
        for cols in task['cols']:
            for hours, n in task['par']:
                for show in (True, False):
                    ix = pd.date_range('2020-01-01', periods=8, freq='h')
                    df = pd.DataFrame({c: task['data'][c] for c in cols}, index=ix, dtype=float)
                    keep = df.copy(deep=True)
                    a = Aggregation(df, 1.0, hours, n)
                    a.cluster()
                    agg = a.aggregated_data.copy(deep=True)
                    ns, before = len(shown), set(F.now())
                    fig = a.plot(show=show)
                    out['evals'] += 1
                    out['nontrivial'] += 1
                    want = {f'Original - {c}': (keep[c], 'dash') for c in cols}
                    want.update({f'Aggregated - {c}': (agg[c], None) for c in cols})
                    tr = list(fig.data)
                    t = None
                    if sorted(x.name for x in tr) != sorted(want):
                        t = f'series {[x.name for x in tr]}, expected {list(want)}'
                    for x in tr if not t else []:
                        v, dash = want[x.name]
                        if times(x.x) != times(ix) or not same(x.y, v):
                            t = f'series {x.name} is {list(x.y)}, expected {v.tolist()}'
                        elif x.line.dash != dash or x.line.shape != 'hv':
                            t = f'series {x.name} is drawn {x.line.dash} {x.line.shape}'
                    if not t and (not keep.equals(df) or not keep.equals(a.original_data[list(keep.columns)]) or not agg.equals(a.aggregated_data)):
                        t = 'the data is altered'
                    if not t and (len(shown) > ns) != show:
                        t = f'shown: {shown[ns:]}, show={show}'
                    new = set(F.now()) - before
                    if not t and new and not show:
                        t = f'files written: {new}'
                    if not t:
                        ci = [sorted(int(i) for v in l for i in v) for l in a.get_cluster_indices().values()]
                        if sorted(i for l in ci for i in l) != list(range(8)):
                            t = f'clusters {ci}'
                    for f in new:
                        os.remove(f)
                    if t and len(out['viol']) < 4:
                        out['viol'].append(dict(kind='plot', text=f'Aggregation.plot of {cols}, {hours} h, {n} periods, show={show}: {t}'[:900]))
    finally:
        undo()
        plt.close('all')
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    return out


def run_wrong(task):
    """arguments that do not fit are refused before anything is drawn, shown or saved; the nearest fitting ones work"""
    import flixOpt as fx
    import matplotlib.pyplot as plt
    import pandas as pd
    from flixOpt import plotting as P
    from flixOpt.results import CalculationResults
    out = dict(viol=[], evals=0, nontrivial=0, tag='refusals')
    base = tempfile.mkdtemp(prefix='c30_', dir=env.scratch())
    shown, undo = stop_showing()
    F, cwd = Files(base), os.getcwd()

    def case(what, fn, bad):
        before, ns = set(F.now()), len(shown)
        out['evals'] += 1
        out['nontrivial'] += bad
        t = None
        try:
            fn()
            if bad:
                t = 'accepted'
        except Exception as e:
            if not bad:
                t = f'refused: {type(e).__name__}: {e}'
        new = set(F.now()) - before
        if not t and bad and (new or len(shown) > ns):
            t = f'refused, but written {new}, shown {shown[ns:]}'
        for f in new:
            os.remove(f)
        plt.close('all')
        if t and len(out['viol']) < 4:
            out['viol'].append(dict(kind='plot', text=f'{what}: {t}'[:700]))
    try:
        os.chdir(base)
        for n in (1, 2, 3):
            df = frame(list('pnm')[:n], index('h'))
            for m in ('bar', 'line', 'area', 'pie', 'Bar', ''):
                for k in range(0, 5):
                    cl = COLORS['plotly'][:k]
                    for dest in ('', 'show', 'save'):
                        case(f'with_plotly of {n} columns, {m}, {k} colours, {dest}', lambda: P.with_plotly(df, m, cl, show=dest == 'show', save=dest == 'save', path='p.html'), m not in ('bar', 'line', 'area') or k != n)
                        case(f'with_matplotlib of {n} columns, {m}, {k} colours, {dest}', lambda: P.with_matplotlib(df, m, cl, show=dest == 'show', path='p.png' if dest == 'save' else None), m not in ('bar', 'line') or k != n)
        for shape in ((6,), (2, 3), (6, 1), (1, 6), (1, 2, 3)):
            for k in (1, 2, 4, 6, 7):
                case(f'reshape_to_2d of {shape} by {k}', lambda: P.reshape_to_2d(np.arange(6.0).reshape(shape), k), len(shape) != 1)
        for ik in ('h', 'num', 'float'):
            for p, s in itertools.product(('Y', 'YS', 'MS', 'M', 'W', 'D', 'h', 'x'), ('W', 'D', 'h', '15min', 'min', 'h2')):
                df = frame(['p'], index(ik))
                known = (p, s) in {('YS', 'W'), ('YS', 'D'), ('YS', 'h'), ('MS', 'D'), ('MS', 'h'), ('W', 'D'), ('W', 'h'), ('D', 'h'), ('D', '15min'), ('h', '15min'), ('h', 'min')}
                if (p, s) in {('YS', '15min'), ('MS', '15min'), ('W', '15min'), ('D', 'min'), ('W', 'min'), ('MS', 'min'), ('YS', 'min'), ('YS', 'MS')}:
                    continue
                case(f'heat map data by {p} and {s}, index {ik}', lambda: P.heat_map_data_from_df(df, p, s), ik != 'h' or not known)
        os.mkdir('res')
        spec = spec_of([1, 1, 1])
        b = build.build(spec)
        c = fx.FullCalculation('calc', b.fs)
        c.do_modeling()
        S = impl.Sys(c)
        c.solve(impl.make_solver(S._set(lambda i: 1.0)), save_results='res')
        res = CalculationResults('calc', 'res')
        labels = ['src', 'Sto', 'k', 'B', 'H', 'Sto__in', 'src__f', 'f', '', 'Src', 'calc', 'c', 'in', 'B__f']
        good = {'src', 'Sto', 'k', 'B', 'H', 'Sto__in', 'src__f'}
        for l in labels:
            case(f'to_dataframe({l!r})', lambda: res.to_dataframe(l), l not in good)
            for e in ('plotly', 'matplotlib', 'bokeh', '', 'Plotly'):
                for m in ('bar', 'line', 'area', 'heatmap', 'pie'):
                    if m == 'heatmap' and l not in ('src__f', 'Sto__in', 'f', 'B__f'):
                        continue
                    bad = l not in good or e not in ('plotly', 'matplotlib') or m == 'pie' or (m == 'area' and e == 'matplotlib')
                    for dest in ('', 'save', 'show'):
                        case(f'plot_operation({l!r}, {m!r}, engine={e!r}, {dest})', lambda: res.plot_operation(l, m, heatmap_periods='D', heatmap_steps_per_period='h', engine=e, show=dest == 'show', save=dest == 'save'), bad)
        for m in ('heatmap', 'line', 'bar'):
            for e in ('plotly', 'matplotlib'):
                for cl in (['red'], ['red', 'blue'], [], 'viridis', 'no such map'):
                    for dest in ('', 'save', 'show'):
                        bad = cl == 'no such map' or (isinstance(cl, list) and (m == 'heatmap' or len(cl) != 1))
                        case(f'plot_operation(src__f, {m!r}, colors={cl}, engine={e!r}, {dest})', lambda: res.plot_operation('src__f', m, colors=cl, heatmap_periods='D', heatmap_steps_per_period='h', engine=e, show=dest == 'show', save=dest == 'save'), bad)
        for name in ('calc', 'calc_', 'res', ''):
            case(f'CalculationResults({name!r})', lambda: CalculationResults(name, 'res'), name != 'calc')
        case('CalculationResults of another folder', lambda: CalculationResults('calc', 'nope'), True)
    finally:
        undo()
        plt.close('all')
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    return out


def run(task):
    return dict(wrong=run_wrong, agg=run_agg, table=run_table, heat=run_heat, grid=run_grid, op=run_op)[task['what']](task)


def tasks(tier):
    deep = tier == 'thorough'
    P = list(PAT)

    def chunks(x, n):
        x = list(x)
        for i in range(0, len(x), n):
            yield x[i:i + n]
    sets = [[a] for a in P] + [list(x) for x in itertools.product(P, repeat=2)] + [list(x) for x in itertools.product(P if deep else 'pnmzt', repeat=3)]
    if deep:
        sets += [list(x) for x in itertools.product('pnmz', repeat=4)]
    for ch in chunks(sets, 60):
        yield dict(what='table', engine='plotly', cols=ch, forms=[['h', m, 'viridis', ''] for m in ('bar', 'line', 'area')])
    for ch in chunks(sets[:len(P) + len(P) ** 2] + [list('pnm'), list('zpz'), list('tnu')], 20):
        yield dict(what='table', engine='plotly', cols=ch, forms=[[i, m, c, ''] for i in ('num', 'float', 'gap') for m in ('bar', 'line', 'area') for c in ('list', 'plasma')])
    yield dict(what='table', engine='plotly', cols=[['p'], ['p', 'n']], forms=[['h', m, 'list', d] for m in ('bar', 'line', 'area') for d in ('save', 'show')])
    for ch in chunks(sets[:len(P) + len(P) ** 2] + ([list(x) for x in itertools.product('pnmz', repeat=3)]), 12 if deep else 20):
        yield dict(what='table', engine='mpl', cols=ch, forms=[['h', m, 'viridis', ''] for m in ('bar', 'line')] + ([['float', m, 'list', ''] for m in ('bar', 'line')] if deep else []))
    yield dict(what='table', engine='mpl', cols=[['p'], ['p', 'n'], ['m', 'm', 'n']], forms=[[i, m, 'list', d] for i in ('num', 'float', 'gap') for m in ('bar', 'line') for d in ('', 'save', 'show')])
    nan = float('nan')
    hv = [list(x) for x in itertools.product((0.0, 1.0, -2.0), repeat=3)] if deep else [[0.0, 1.0, -2.0], [3.0, 1.0, 2.0], [0.0, 0.0, 5.0], [-1.0, -3.0, -2.0]]
    for e in ('plotly', 'mpl'):
        for v in hv:
            yield dict(what='heat', engine=e, vals=[v + [0.5], v + [nan]], forms=[[r, c, d, k] for r in (1, 2, 3) for c in (1, 2, 3) for d, k in (('', True), ('', False), ('save', True), ('show', True))
                                                                                if d == '' or (r, c) == (2, 2)])
    yield dict(what='agg', data={'x': [1, 2, 1, 2, 1, 2, 1, 9], 'y': [5, 5, 5, 6, 9, 9, 9, 8], 'z y': [0, 0, 0, -1, 5, 0, 0, 0]}, cols=[['x'], ['y', 'x'], ['x', 'y', 'z y']],
               par=[(2, 2), (4, 1), (3, 2), (2, 3)])
    yield dict(what='wrong')
    yield dict(what='grid', n=60 if deep else 30)
    labels = ['src', 'Sto', 'k', 'B', 'H', 'Sto__in', 'src__f', 'k__p']
    calls = [[l, m, e, i, ''] for l in labels for m in ('bar', 'line', 'area') for e in ('plotly', 'matplotlib') if not (e == 'matplotlib' and (m == 'area' or l in ('H', 'k__p'))) for i in (True, False)]
    calls += [['Sto', 'storage', 'plotly', i, ''] for i in (True, False)]
    dests = [[l, m, e, True, d] for l, m in (('B', 'line'), ('src__f', 'heatmap'), ('Sto', 'storage')) for e in ('plotly', 'matplotlib') if not (m == 'storage' and e != 'plotly') for d in ('save', 'show', 'save path', 'show path')]
    nq = 8      # flows and excesses of the system
    base = ['p', 'o', 'u', 'p', 'p', 'o', 'z', 'u']
    sets = []
    for i in range(nq):
        for p in P:
            w = list(base)
            w[i] = p
            sets.append(w)
    sets += [[p] * nq for p in P]
    for ch in chunks(sets, 4):
        yield dict(what='op', dt=[1, 2, 1], pats=ch if deep else ch[:2], calls=calls if deep else calls[::2] if len(ch) % 2 else calls[1::2] + calls[:4])
    heatc = [[l, 'heatmap', e, i, ''] for l in ('src__f', 'Sto__in') for e in ('plotly', 'matplotlib') for i in (True, False)]
    hs = [[a, b, c] + ['p'] * (nq - 3) for a in 'pmuo' for b in 'po' for c in 'pn']
    for ch in chunks(hs, 4):
        yield dict(what='op', dt=[1, 2, 1], pats=ch, calls=heatc)
        yield dict(what='op', dt=[1] * 30, pats=ch[:2], calls=heatc)
    yield dict(what='op', dt=[1, 1, 1], pats=[base], calls=dests)
