import copy
import itertools

import numpy as np

from .. import build, explore, impl, ref
from .common import *

PID, LEVEL = 'C19', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2]
RULE = ('pairs of descriptions of the same system (a window of a longer system / a system of these steps only; the same stamps in another resolution or container; the same values in another '
        'form), one pair per case, all pairs of the families enumerated; both are modelled by the real code and both problems searched exhaustively: same words, same reported values; '
        'time stamps and step lengths of the results against direct calendar arithmetic')


ALL = ['C%02d' % i for i in range(1, 17)] + ['EFF', 'PEN']


def modelled(spec):
    return explore.model(spec)


def dates(task):
    """tables of time stamps made from start, number of steps or end, and step: against calendar arithmetic"""
    import datetime as dtm

    from flixOpt.flow_system import create_datetime_array
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag='dates', nontrivial=0)
    unit, start = task['u'], task['start']
    U = {'s': dtm.timedelta(seconds=1), 'm': dtm.timedelta(minutes=1), 'h': dtm.timedelta(hours=1), 'D': dtm.timedelta(days=1), 'W': dtm.timedelta(days=7)}

    def add(t, k):
        if unit in U:
            return t + k * U[unit]
        m = t.year * 12 + t.month - 1 + k * (12 if unit == 'Y' else 1)
        return t.replace(year=m // 12, month=m % 12 + 1)

    parts = [int(x) for x in start.replace('T', '-').replace(' ', '-').replace(':', '-').split('-')]
    t0 = dtm.datetime(*(parts + [1, 1][len(parts) - 1:] if len(parts) < 3 else parts))
    for pre in task['pre']:
        k = int(pre or 1)
        for n in task['n']:
            exact = [add(t0, k * i) for i in range(n + 1)]
            calls = [('steps', dict(start=start, steps=n, freq=pre + unit), exact[:n])]
            if unit in U and len(parts) >= 3:
                for d in (0, -1, 1):  # an end between two stamps; the end itself is not part of the table
                    e = exact[n] + d * dtm.timedelta(seconds=1)
                    m = sum(x < e for x in exact)
                    calls.append(('end', dict(start=start, end=e.isoformat(), freq=pre + unit), exact[:m]))
                    calls.append(('end', dict(start=start, end=e.isoformat(' '), freq=pre + unit, steps=2), exact[:m]))
                    if (pre, unit) == ('', 'h'):
                        calls.append(('end', dict(start=start, end=e.isoformat()), exact[:m]))
            if (pre, unit) == ('', 'h'):
                calls.append(('steps', dict(start=start, steps=n), exact[:n]))
            for what, kw, want in calls:
                out['words'] += 1
                out['nontrivial'] += 1
                try:
                    got = create_datetime_array(**kw)
                    ok = isinstance(got, np.ndarray) and got.dtype.kind == 'M' and [x.astype('datetime64[us]').astype(object) for x in got] == want
                    text = str(got)
                except Exception as e:
                    ok, text = False, f'{type(e).__name__}: {e}'
                if not ok and len(out['viol']) < 3:
                    out['viol'].append(dict(kind='dates', text=f'create_datetime_array({kw}) gives {text[:300]}, expected {[str(x) for x in want]}'))
    for kw in task['bad']:
        out['words'] += 1
        try:
            got = create_datetime_array(**kw)
        except Exception:
            continue
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind='dates', text=f'create_datetime_array({kw}) gives {str(got)[:200]} instead of an error'))
    out['states'] = out['transitions'] = out['words']
    return out


def run(task):
    if task['kind'] == 'dates':
        return dates(task)
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag=task['kind'])

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, spec=task['a'], other=task['b'], **kw))

    systems = []
    for k in ('a', 'b'):
        try:
            b, c = modelled(task[k])
            systems.append(impl.Sys(c))
        except impl.HarnessError:
            raise
        except Exception as e:
            import traceback
            viol('build', f'({k}) {type(e).__name__}: {e}', trace=traceback.format_exc()[-1200:])
            return out
    R = ref.Ref(task['b'])
    texts, st = explore.diff(systems[0], systems[1], R, task.get('na', 'the first description'), task.get('nb', 'the second description'))
    out.update(words=st['words'], nodes=st['nodes'], states=st['words'], transitions=st['words'])
    for t in texts:
        viol('diff', t)
    # time data of the results
    for k, s in zip(('a', 'b'), systems):
        spec = task[k]
        t0 = np.datetime64(spec.get('start', '2020-01-01T00:00:00'), 's') + np.timedelta64(int(round(spec.get('offset', 0) * 3600)), 's')
        dt = list(spec['dt'])
        if 'last' in spec:
            l = spec['last']
            l = (list(l.values())[0] / 3600 if 'td' in l else list(l.values())[0]) if isinstance(l, dict) else l
            dt[-1] = dt[-2] if l is None else l
        t = [t0]
        for x in dt:
            t.append(t[-1] + np.timedelta64(int(round(x * 3600)), 's'))
        idx = list(spec['window']) if spec.get('window') is not None else list(range(len(dt)))
        want = [t[i] for i in idx] + [t[idx[-1] + 1]]
        steps = [(want[i + 1] - want[i]) / np.timedelta64(1, 'h') for i in range(len(idx))]
        res = s.tree(lambda i: 0.0)
        out['feeds'] += 1
        got = [np.datetime64(x, 's') for x in res['Time']]
        if got != want:
            viol('time', f'({k}) time stamps of the results {got}, expected {want}')
        h = np.asarray(res['Time intervals in hours'], float)
        if h.shape != (len(idx),) or not np.allclose(h, steps):
            viol('time', f'({k}) step lengths of the results {h}, expected {steps}')
    out['nontrivial'] = int(st['words'] > 0)
    # the system of uneven steps itself, against the meaning of its parts
    if task.get('steps'):
        r = explore.compare(task['b'], 'C19', feed=1, attribute=ALL)
        for v in r['viol']:
            viol('steps', v['text'], schedule=v.get('schedule'))
        for k in ('states', 'transitions', 'words', 'nodes', 'feeds'):
            out[k] += r[k]
    return out


# ------------------------------------------------------------------ places where a value over time can be given
def place(name, v, n):
    """system with the value v (in any form) at one place"""
    b = dict(grid=[0, 1, 2])
    two = {'a.f': [0, 1]}
    if name == 'fixed':
        return one(flow('f', 'b', 2, fixed=v), [0, 0.5, 1, 2], kind='Sink')
    if name == 'rmin':
        return one(flow('f', 'b', 2, rmin=v, rmax=2), [0, 0.5, 1, 2, 4])
    if name == 'rmax':
        return one(flow('f', 'b', 2, rmax=v), [0, 0.5, 1, 2, 4])
    if name == 'rmax_inv':
        s = one(flow('f', 'b', inv(min=1, max=2, optional=True), rmax=v), [0, 0.5, 1, 2])
        s['sizes'] = {'s.f': [0, 1, 2]}
        return s
    if name == 'rmin_on':
        return one(flow('f', 'b', 2, rmin=v, rmax=2, onoff={}), [0, 0.5, 1, 2, 4])
    if name == 'eff':
        return one(flow('f', 'b', 2, eff=v), [0, 1])
    if name == 'eff2':
        return one(flow('f', 'b', 2, eff={'eff': [['c', v], ['k', 1]]}), [0, 1], effects=E2)
    if name in ('con_min', 'con_max', 'coff_min', 'coff_max'):
        return one(flow('f', 'b', 1, onoff={name: v}), [0, 1])
    if name == 'switch_eff':
        return one(flow('f', 'b', 1, onoff={name: v}), [0, 1])
    if name == 'run_eff':
        return one(flow('f', 'b', 1, onoff={name: v}), [0, 1])
    if name == 'run_eff2':
        return one(flow('f', 'b', 1, onoff={'run_eff': {'eff': [['k', v], ['c', 1]]}}), [0, 1], effects=E2)
    if name == 'op_share':
        return one(flow('f', 'b', 2, eff={'eff': [['k', 1]]}), [0, 1], effects=[dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', v]])])
    if name in ('oph_min', 'oph_max'):
        return one(flow('f', 'b', 2, eff=1), [0, 1, 2], effects=[{'label': 'c', 'std': True, 'obj': True, name: v}])
    if name == 'penalty':
        s = one(flow('f', 'b', 2), [0, 1, 2], buses={'b': {'penalty': v}})
        s['grid'].update({'b#in': [0], 'b#out': [0, 1, 2]})
        return s
    if name in ('factor_in', 'factor_out'):
        K = dict(kind='LinearConverter', label='K', factors=[[['i', v if name == 'factor_in' else 1], ['o', 1 if name == 'factor_in' else v]]], ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)])
        return system([K], grid={'K.i': [0, 0.5, 1, 2], 'K.o': [0, 0.5, 1, 2]} if n < 4 else {'K.i': [0, 1], 'K.o': [0, 0.5, 1, 2]})
    if name in ('Boiler', 'Power2Heat', 'HeatPump'):
        K = dict(kind=name, label='K', ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)], **{'cop' if name == 'HeatPump' else 'eta': v})
        return system([K], grid={'K.i': [0, 1], 'K.o': [0, 0.5, 1, 2]})
    if name == 'CoolingTower':
        return system([dict(kind=name, label='K', sed=v, ins=[flow('i', 'a', 4), flow('o', 'b', 4)])], grid={'K.o': [0, 1], 'K.i': [0, 0.5, 1, 2]})
    if name in ('CHP_th', 'CHP_el'):
        K = dict(kind='CHP', label='K', eta_th=v if name == 'CHP_th' else 0.5, eta_el=v if name == 'CHP_el' else 0.5, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4), flow('q', 'c', 4)])
        return system([K], grid={'K.i': [0, 1], 'K.o': [0, 0.5, 1, 2], 'K.q': [0, 0.5, 1, 2]} if n < 4 else {'K.i': [1], 'K.o': [0.5, 1, 2], 'K.q': [0.5, 1, 2]})
    if name == 'HeatPumpWithSource':
        K = dict(kind=name, label='K', cop=v, ins=[flow('i', 'a', 4), flow('q', 'b', 4)], outs=[flow('o', 'c', 4)])
        return system([K], grid={'K.i': [1], 'K.q': [-0.5, 0, 1], 'K.o': [0.5, 1, 2]} if n > 3 else {'K.i': [0, 1], 'K.q': [0, 1], 'K.o': [0, 1, 2]})
    if name in ('eta_c', 'eta_d', 'loss'):
        S = dict(kind='Storage', label='S', cap=4, init=2, ins=[flow('c', 'h', 2)], outs=[flow('d', 'h', 2)], prevent=False, **{name: v})
        return system([S], grid={'S.c': [0, 1], 'S.d': [0, 1]} if n > 3 else {'S.c': [0, 1, 2], 'S.d': [0, 1]})
    if name in ('rel', 'abs'):
        K = dict(kind='Transmission', label='K', ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)], **{name: v})
        g = [0, 0.5, 1, 1.5] if n < 4 else [0, 1, 1.5]
        return system([K], grid={'K.i': [0, 2], 'K.o': g})
    if name == 'seg':
        K = dict(kind='LinearConverter', label='K', segs=[['i', [[0, 0], [1, 2]]], ['o', [[0, 0], [v, 4]]]], ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)])
        return system([K], grid={'K.i': [0, 1, 2], 'K.o': [0, 1, 2, 4]} if n < 4 else {'K.i': [0, 1], 'K.o': [0, 0.5, 1, 2]})
    raise ValueError(name)


PLACES = ['fixed', 'rmin', 'rmax', 'rmax_inv', 'rmin_on', 'eff', 'eff2', 'con_min', 'con_max', 'coff_min', 'coff_max', 'switch_eff', 'run_eff', 'run_eff2', 'op_share', 'oph_min', 'oph_max', 'penalty',
          'factor_in', 'factor_out', 'Boiler', 'Power2Heat', 'HeatPump', 'CoolingTower', 'CHP_th', 'CHP_el', 'HeatPumpWithSource', 'eta_c', 'eta_d', 'loss', 'rel', 'abs', 'seg']
# places at which a plain list is documented to be convertible (arithmetic on the value happens before the conversion at the others)
NOLIST = {'HeatPump', 'Boiler', 'Power2Heat', 'CoolingTower', 'CHP_th', 'CHP_el', 'HeatPumpWithSource'}


def values(name, n):
    if name.startswith('con') or name.startswith('coff'):
        return [2.0, 1.0, 3.0, 1.0, 2.0, 4.0, 2.0, 1.0][:n]
    if name in ('HeatPumpWithSource',):
        return [2.0, 0.5, 4.0, 2.0, 0.5, 4.0, 2.0, 4.0][:n]
    if name in ('oph_min',):
        return [0.0, 1.0, 0.5, 1.0, 0.0, 1.0, 2.0, 1.0][:n]
    return [0.5, 1.0, 2.0, 0.5, 1.0, 0.5, 2.0, 1.0][:n] if name not in ('eta_c', 'eta_d', 'loss', 'rel') else [0.5, 1.0, 0.25, 0.5, 1.0, 0.5, 0.25, 1.0][:n]


def pick(v, w):
    return [v[i] for i in w]


def sub(spec, w):
    """the system which consists of the steps w only"""
    dt = spec['dt']
    t = [0]
    for x in dt:
        t.append(t[-1] + x)
    s = copy.deepcopy(spec)
    ts = [t[i] for i in w] + [t[w[-1] + 1]]
    s['dt'] = [ts[i + 1] - ts[i] for i in range(len(w))]
    s['offset'] = t[w[0]]
    s['prev_dt'] = spec.get('prev_dt', dt[0])
    from .c18 import arrays
    for o, k in arrays(s):
        (f, x), = o[k].items()
        o[k] = {f: pick(x, w)}
    return s


def tasks(tier):
    deep = tier == 'thorough'

    def pair(kind, a, b, **kw):
        return dict(kind=kind, a=a, b=b, **kw)

    # tables of time stamps
    starts = ['2020-01-31', '2020-02-28', '2019-12-31T23', '2020-03-29 00:30', '1969-12-31T23:59', '2020-10-25T00:00:30', '2100-02-28']
    for u in 'smhDW':
        for st in starts + (['2020-01', '2020'] if u != 'W' else []):
            yield dict(kind='dates', u=u, start=st, pre=['', '1', '2', '15', '007'] + (['100', '36'] if deep else []), n=[1, 2, 3, 7] + ([30, 400] if deep else []), bad=[
                dict(start=st), dict(start=st, freq='2' + u), dict(start=st, steps=3, freq='1.5' + u), dict(start=st, steps=3, freq='x' + u), dict(start=st, steps=3, freq='1 h' + u),
                dict(start=st, steps=3, freq=''), dict(start=st, steps=3, freq='3'), dict(start='2020-13-01', steps=3, freq=u), dict(start=st, end='2020-02-31', freq=u)])
    for u, sts in (('Y', ['2020', '2020-02', '1969-12']), ('M', ['2020', '2020-01', '2019-12'])):
        for st in sts:
            yield dict(kind='dates', u=u, start=st, pre=['', '1', '2', '15'], n=[1, 2, 3, 7, 14], bad=[])
    # windows
    dts = [((1, 2, 0.5, 1, 3), (1, 1, 1, 1, 1)) if not deep else ((1, 2, 0.5, 1, 3), (1, 1, 1, 1, 1), (0.25, 0.5, 0.25, 2, 1), (1, 2, 0.5, 1, 3, 1), (3, 1, 1, 2, 1, 0.5))][0]
    for dt in dts:
        n = len(dt)
        ws = [list(c) for k in range(2, n + 1) for c in itertools.combinations(range(n), k)]
        if not deep:
            ws = [w for w in ws if len(w) <= 3 or w == list(range(n))]
        for nm in PLACES:
            for q, w in enumerate(ws):
                for form in ('a', 'ts') if deep or q % 3 == 0 else ('a',):
                    s = dict(place(nm, {form: values(nm, n)}, len(w)), dt=list(dt))
                    yield pair('window', dict(s, window=w), sub(s, w), na='the window', nb='the system of these steps', steps=1)
                if len({y - x for x, y in zip(w, w[1:])}) == 1 and (deep or (q + len(nm)) % 4 == 0):
                    yield pair('window', dict(s, window=w, wform='range'), sub(s, w), na='the range of steps', nb='the system of these steps')
        # memory of units and storages, previous step lengths, limits over the window
        for w in ws:
            for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
                for pdt in (None, 2) if deep else (None,):
                    s = one(flow('f', 'b', 1, prev={'l': [1, 0]} if 'coff' in k else {'l': [0, 1, 1]}, onoff={k: 2.5}), [0, 1], dt=dt)
                    s['prev_dt'] = pdt if pdt is not None else dt[0]
                    yield pair('window', dict(s, window=w), sub(s, w), na='the window', nb='the system of these steps', steps=1)
            for kw in (dict(fh_min=2), dict(fh_max=2), dict(lf_min=0.5), dict(lf_max=0.5), dict(onoff={'on_min': 2}), dict(onoff={'on_max': 2.5}), dict(onoff={'sw_max': 1})):
                s = one(flow('f', 'b', 1, eff={'a': values('eff', n)}, **kw), [0, 1], dt=dt)
                yield pair('window', dict(s, window=w), sub(s, w), na='the window', nb='the system of these steps', steps=1)
            for init in (1, None, 'lastValueOfSim'):
                S = dict(kind='Storage', label='S', cap=2, init=init, loss=0.1, fmin=0.5, prevent=False, ins=[flow('c', 'h', 2)], outs=[flow('d', 'h', 2)])
                s = system([S], dt=dt, grid={'S.c': [0, 1], 'S.d': [0, 1]} if len(w) > 2 else {'S.c': [0, 1, 2], 'S.d': [0, 1]}, c0={'S': [0, 1, 2]})
                yield pair('window', dict(s, window=w), sub(s, w), na='the window', nb='the system of these steps', steps=1)
            s = one(flow('f', 'b', 2, eff=1), [0, 1], dt=dt, effects=[dict(label='c', std=True, obj=True, op_max=3, oph_max={'a': [1.0, 2.0, 1.0, 0.5, 2.0, 1.0][:n]})])
            yield pair('window', dict(s, window=w), sub(s, w), na='the window', nb='the system of these steps', steps=1)
    # time stamps: resolution, container, start, last step
    base = [one(flow('f', 'b', 1, eff={'a': [1.0, 2.0, 4.0]}, prev=1, onoff={'con_min': 2, 'run_eff': 1}), [0, 1]),
            system([dict(kind='Storage', label='S', cap=8, init=2, loss=0.1, ins=[flow('c', 'h', 2)], outs=[flow('d', 'h', 2)])], grid={'S.c': [0, 1], 'S.d': [0, 1]}),
            one(flow('f', 'b', 1, lf_max=0.6, fh_min=1), [0, 1])]
    for s in base:
        for dt in [(1, 2, 1), (24, 48, 24), (24, 24, 24), (0.5, 1, 0.25), (1 / 60, 1 / 30, 1 / 20), (744, 696, 744)]:
            for start in ('2020-01-01T00:00:00', '2019-12-31T23:00:00', '2020-02-28T00:00:00', '2021-03-28T01:00:00', '1969-12-31T00:00:00', '2020-10-25T00:00:00'):
                for unit in ('m', 'h', 'D', 'ms', 'us', 'ns', 's'):
                    res = {'D': 24, 'h': 1, 'm': 1 / 60}.get(unit, 1 / 3600)
                    if any(abs(x / res - round(x / res)) > 1e-9 for x in dt):
                        continue
                    if start[11:] != '00:00:00' and unit == 'D':
                        continue
                    a = dict(s, dt=list(dt), unit=unit, start=start)
                    yield pair('unit', a, dict(s, dt=list(dt), start=start))
                for form in ('list', 'pandas'):
                    yield pair('container', dict(s, dt=list(dt), tform=form, start=start), dict(s, dt=list(dt), start=start))
            for last in (None, 1, 0.5, 3, 1.5, {'td': 3600}, {'td': 5400}, {'n': 0.5}, {'n': 2.0}):
                for unit in ('s', 'm', 'us', 'ns', 'h', 'D'):
                    res = {'D': 24, 'h': 1, 'm': 1 / 60}.get(unit, 1 / 3600)
                    if any(abs(x / res - round(x / res)) > 1e-9 for x in dt):
                        continue
                    l = dt[-2] if last is None else (last['td'] / 3600 if 'td' in last else last['n']) if isinstance(last, dict) else last
                    yield pair('last step', dict(s, dt=list(dt), last=last, unit=unit), dict(s, dt=list(dt[:-1]) + [l]), steps=int(unit == 's'))
    # forms of data
    for nm in PLACES:
        for n in (2, 3) + ((4,) if deep else ()):
            dt = (1, 2, 0.5, 1)[:n]
            v = values(nm, n)
            ref_ = dict(place(nm, {'a': v}, n), dt=list(dt))
            for f in ('ts', 'tl', 'l', 'f32'):
                if f in ('l', 'tl') and nm in NOLIST:
                    continue
                yield pair('form', dict(place(nm, {f: v}, n), dt=list(dt)), ref_, na=f'given as {f}', nb='given as array')
            for c in sorted(set(v)):
                ref_ = dict(place(nm, c, n), dt=list(dt))
                for g in ({'a': [c] * n}, {'ts': [c] * n}, {'ts': c}, {'n': c}, {'f32': [c] * n}) + (({'l': [c] * n}, {'tl': [c] * n}) if nm not in NOLIST else ()):
                    yield pair('form', dict(place(nm, g, n), dt=list(dt)), ref_, na=f'given as {g}', nb='given as number')
                if c == int(c):
                    yield pair('form', dict(place(nm, int(c), n), dt=list(dt)), ref_, na='given as int', nb='given as float')
            iv = [4, 2, 4, 2][:n] if nm == 'HeatPumpWithSource' else [1, 2, 1, 2][:n]
            yield pair('form', dict(place(nm, {'i': iv}, n), dt=list(dt)), dict(place(nm, {'a': [float(x) for x in iv]}, n), dt=list(dt)), na='given as integers', nb='given as floats')
    # charge state limits (one more value than steps), history, previous step lengths
    for n in (2, 3):
        for nm, v in (('rmin', [0.0, 0.25, 0.5, 0.25]), ('rmax', [1.0, 0.5, 0.75, 0.5])):
            def S(x):
                return system([dict(kind='Storage', label='S', cap=4, init=1, ins=[flow('c', 'h', 2)], outs=[flow('d', 'h', 2)], **{nm: x})], dt=(1, 2, 1)[:n], grid={'S.c': [0, 1, 2], 'S.d': [0, 1, 2]})
            for f in ('ts', 'l', 'tl', 'f32'):
                yield pair('form', S({f: v[:n + 1]}), S({'a': v[:n + 1]}))
            for c in (0.25, 0.5):
                for g in ({'a': [c] * (n + 1)}, {'ts': [c] * (n + 1)}, {'ts': c}, {'n': c}, {'l': [c] * (n + 1)}):
                    yield pair('form', S(g), S(c))
        for h in ([1, 0], [0, 1], [1, 1, 0], [0, 0, 1]):
            for k in ('con_min', 'coff_min', 'con_max', 'coff_max'):
                def U(x, p=None):
                    return one(flow('f', 'b', 1, prev=x, onoff={k: 2.5}), [0, 1], dt=(1, 2, 1)[:n], prev_dt=p)
                yield pair('form', U({'l': h}), U({'a': [float(x) for x in h]}))
                yield pair('form', U({'i': h}), U({'a': [float(x) for x in h]}))
                yield pair('form', U({'a': [float(x) for x in h]}, 2), U({'a': [float(x) for x in h]}, {'a': [2.0] * len(h)}))
                yield pair('form', U({'a': [float(x) for x in h]}, None), U({'a': [float(x) for x in h]}, 1))
                for dts in ((0.5, 0.5, 1), (1.5, 2, 0.5), (0.25, 0.25, 1), (3, 1, 1)):
                    def V(x, p=None):
                        return one(flow('f', 'b', 1, prev=x, onoff={k: 2.5 if dts[0] > 1 else 1}), [0, 1], dt=dts[:n], prev_dt=p)
                    yield pair('form', V({'a': [float(x) for x in h]}), V({'a': [float(x) for x in h]}, dts[0]))
