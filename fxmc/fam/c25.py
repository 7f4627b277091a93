import calendar
import datetime
import itertools

import numpy as np

PID, LEVEL = 'C25', 'exploration'
ASSUMPTIONS = ['the cell labels are those documented in the format table of heat_map_data_from_df']
RULE = ('all valid pairs of period and step x series of every resolution (finer than, equal to, coarser than the step), start (mid period, year and leap year boundaries, week boundaries), length, gap pattern, order of '
        'rows and fill mode: every cell is compared with the mean of the values whose time stamps lie in it (calendar arithmetic), empty cells with the fill rule; invalid pairs are rejected')

DAY = {0: '1_Monday', 1: '2_Tuesday', 2: '3_Wednesday', 3: '4_Thursday', 4: '5_Friday', 5: '6_Saturday', 6: '7_Sunday'}
VALID = [('YS', 'W'), ('YS', 'D'), ('YS', 'h'), ('MS', 'D'), ('MS', 'h'), ('W', 'D'), ('W', 'h'), ('D', 'h'), ('D', '15min'), ('h', '15min'), ('h', 'min')]
PERIODS = ['YS', 'MS', 'W', 'D', 'h', '15min', 'min']
STEPS = ['W', 'D', 'h', '15min', 'min']
LEN = {'min': 1, '15min': 15, 'h': 60, 'D': 1440, 'W': 7 * 1440}


def week(t):
    """number of the week of the year (weeks start on Monday, days before the first Monday: 0)"""
    return (t.timetuple().tm_yday + 6 - t.weekday()) // 7


def period(t, p):
    return {'YS': lambda: f'{t.year:04d}', 'MS': lambda: f'{t.year:04d}-{t.month:02d}', 'W': lambda: f'{t.year:04d}-w{week(t):02d}', 'D': lambda: f'{t.year:04d}-{t.month:02d}-{t.day:02d}',
            'h': lambda: f'{t.year:04d}-{t.month:02d}-{t.day:02d} {t.hour:02d}:00'}[p]()


def step(t, p, s):
    if s == 'W':
        return f'{week(t):02d}'
    if s == 'D':
        return {'YS': f'{t.timetuple().tm_yday:03d}', 'MS': f'{t.day:02d}', 'W': DAY[t.weekday()]}[p]
    if s == 'h':
        return {'YS': f'{t.timetuple().tm_yday:03d} ', 'MS': f'{t.day:02d} ', 'W': DAY[t.weekday()] + ' ', 'D': ''}[p] + f'{t.hour:02d}:00'
    return f'{t.hour:02d}:{t.minute:02d}' if p == 'D' else f'{t.minute:02d}'


def slot(t, s):
    """start of the step that contains t; weeks are represented by their last day (Sunday)"""
    day = datetime.datetime(t.year, t.month, t.day)
    if s == 'D':
        return day
    if s == 'W':
        return day + datetime.timedelta(days=6 - t.weekday())
    m = LEN[s]
    k = (t.hour * 60 + t.minute) // m * m
    return day + datetime.timedelta(minutes=k)


def expected(series, p, s, fill):
    """cells (period, step) -> value or None"""
    acc = {}
    for t, v in series:
        acc.setdefault(slot(t, s), []).append(v)
    first, last = min(acc), max(acc)
    cells, t = [], first
    while t <= last:
        vs = [v for v in acc.get(t, []) if v == v]
        cells.append((t, sum(vs) / len(vs) if vs else None))
        t += datetime.timedelta(minutes=LEN[s])
    if fill:
        seq = cells if fill == 'ffill' else cells[::-1]
        cur, out = None, []
        for t, v in seq:
            cur = v if v is not None else cur
            out.append((t, cur))
        cells = out
    res = {}
    for t, v in cells:
        k = (period(t, p), step(t, p, s))
        assert k not in res, (k, p, s)
        res[k] = v
    return res


def series(x):
    """start, resolution in minutes, n, gaps (indices left out), pattern of values"""
    start = datetime.datetime.fromisoformat(x['start'])
    out = []
    for i in range(x['n']):
        if i in x.get('gaps', ()) or (x.get('every') and i % x['every'] == 1):
            continue
        v = float((i * 7) % 11) - 3.0
        if i in x.get('nan', ()):
            v = float('nan')
        out.append((start + datetime.timedelta(minutes=x['res'] * i), v))
    return out


def check(x, p, s, fill, out):
    import pandas as pd

    from flixOpt import plotting
    ser = series(x)
    rows = ser[::-1] if x.get('order') == 'reversed' else ser[1::2] + ser[::2] if x.get('order') == 'mixed' else ser
    df = pd.DataFrame({'value': [v for _, v in rows]}, index=pd.DatetimeIndex([t for t, _ in rows]))
    keep = df.copy(deep=True)
    want = expected(ser, p, s, fill)
    r = plotting.heat_map_data_from_df(df, p, s, fill)
    out['evals'] += 1
    if not df.equals(keep):
        return 'the given table was altered'
    cols, rws = sorted({k[0] for k in want}), sorted({k[1] for k in want})
    if sorted(r.columns) != cols or sorted(r.index) != rws:
        return f'columns {list(r.columns)[:8]} rows {list(r.index)[:8]}, should be {cols[:8]} and {rws[:8]}'
    if list(r.columns) != cols or list(r.index) != rws:
        return f'order of columns {list(r.columns)[:8]} or rows {list(r.index)[:8]}'
    M = r.to_numpy(dtype=float)
    ci, ri = {k: i for i, k in enumerate(r.columns)}, {k: i for i, k in enumerate(r.index)}
    W = np.full(M.shape, np.nan)
    for (pp, ss), v in want.items():
        if v is not None:
            W[ri[ss], ci[pp]] = v
    bad = ~((np.isnan(M) & np.isnan(W)) | (np.abs(M - W) <= 1e-9))
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        return f'cell ({r.columns[j]}, {r.index[i]}) is {M[i, j]}, should be {W[i, j]}'
    out['nontrivial'] += len(want) > 1
    return None


def run(task):
    out = dict(viol=[], evals=0, nontrivial=0)

    def viol(text):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind='heatmap', text=text[:900]))
    if task.get('invalid'):
        for p, s in itertools.product(PERIODS, STEPS):
            if (p, s) not in VALID:
                out['evals'] += 1
                try:
                    check(dict(start='2020-01-01', res=60, n=30), p, s, None, dict(evals=0, nontrivial=0))
                    viol(f'pair ({p}, {s}) accepted')
                except (AssertionError, KeyError, ValueError):
                    out['nontrivial'] += 1
        return out
    for x in task['items']:
        for p, s in task['pairs']:
            for fill in (None, 'ffill', 'bfill'):
                try:
                    t = check(x, p, s, fill, out)
                except Exception as e:
                    t = f'{type(e).__name__}: {e}'
                if t:
                    viol(f'{x} ({p}, {s}, fill={fill}): {t}')
    out['sample'] = dict(series=task['items'][-1], pairs=task['pairs'])
    return out


STARTS = ['2020-01-01T00:00:00', '2019-12-31T23:00:00', '2020-02-28T22:30:00', '2021-02-28T00:00:00', '2023-12-29T07:05:00', '2024-12-30T00:00:00', '2021-01-03T12:00:00', '2018-12-31T00:15:00', '2020-03-29T01:00:00',
          '2022-06-15T05:59:00', '2020-12-27T00:00:00', '2017-01-01T03:00:00']


def shapes(s, deep):
    """series suited to the step: resolutions around it"""
    m = LEN[s]
    for res in {max(1, m // 4), max(1, m // 3), m, 2 * m, m + max(1, m // 2)} | ({max(1, m // 24), 3 * m, max(1, m - 1)} if deep else set()):
        for n in (2, 3, 7, 30) + ((60, 120) if deep else ()):
            yield dict(res=res, n=n)
        yield dict(res=res, n=12, gaps=[3, 4, 5, 6])
        yield dict(res=res, n=12, gaps=[1], order='reversed')
        yield dict(res=res, n=13, every=3, order='mixed')
        yield dict(res=res, n=9, nan=[0, 4, 8])
        yield dict(res=res, n=40, gaps=list(range(2, 37)))


def tasks(tier):
    deep = tier == 'thorough'
    yield dict(invalid=True)
    for s in STEPS:
        pairs = [v for v in VALID if v[1] == s]
        for start in STARTS:
            items = [dict(x, start=start) for x in shapes(s, deep)]
            for i in range(0, len(items), 24):
                yield dict(items=items[i:i + 24], pairs=pairs)
    # long series: whole years
    for start in STARTS[:: 1 if deep else 3]:
        yield dict(items=[dict(start=start, res=1440, n=800), dict(start=start, res=1440 * 7, n=110), dict(start=start, res=360, n=3000)], pairs=[v for v in VALID if v[1] in 'WD'])
        yield dict(items=[dict(start=start, res=60, n=900), dict(start=start, res=180, n=3000)], pairs=[v for v in VALID if v[1] == 'h'])
        yield dict(items=[dict(start=start, res=15, n=3000), dict(start=start, res=5, n=600)], pairs=[v for v in VALID if v[1] in ('15min', 'min')])
