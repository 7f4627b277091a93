import copy

import numpy as np

from .. import build, explore, impl, ref
from .common import *

PID, LEVEL = 'C18', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2] + ['tsam clusters as documented (the harness clusters the same series under its own column names; patterns are chosen such that the best clustering is unique)',
                                      'a full calculation with the typical values as data is judged by C01-C16']
RULE = ('one case per aggregation set-up; the problem handed to the solver by the aggregated calculation is searched exhaustively (every word over the grid) and compared with the '
        'words of the full calculation on the typical values, filtered by the equalities the property demands; a full calculation afterwards is compared word by word with one on a fresh system')


def arrays(spec):
    """all array valued data of a specification: list of (container, key)"""
    out = []

    def walk(o):
        it = o.items() if isinstance(o, dict) else enumerate(o) if isinstance(o, list) else []
        for k, v in it:
            if k in ('prev', 'prev_dt', 'grid', 'sizes', 'c0', 'dt', 'window'):
                continue
            if isinstance(v, dict) and len(v) == 1 and next(iter(v)) in ('a', 'ts', 'l', 'i', 'tg'):
                out.append((o, k))
            else:
                walk(v)
    walk(spec)
    return out


def data_of(v):
    (k, x), = v.items()
    return x[0] if k == 'tg' else x


def cluster(spec, par):
    """typical values and order of the clusters, computed with tsam directly"""
    import pandas as pd
    import tsam.timeseriesaggregation as tsam
    import warnings
    warnings.filterwarnings('ignore')
    idx = list(spec['window']) if spec.get('window') is not None else list(range(len(spec['dt'])))
    ar = arrays(spec)
    groups = {}
    for o, k in ar:
        v = o[k]
        if 'tg' in v and v['tg'][1] is not None:
            groups[v['tg'][1]] = groups.get(v['tg'][1], 0) + 1
    cols, weights, hi, lo = {}, {}, [], []
    for n, (o, k) in enumerate(ar):
        v = o[k]
        name = f'col{n}'
        cols[name] = [float(data_of(v)[i]) for i in idx]
        weights[name] = 1
        if 'tg' in v:
            _, g, w, nm = v['tg']
            weights[name] = 1 / groups[g] if g is not None else (1 if w is None else w)
            if nm in par.get('high', []):
                hi.append(name)
            if nm in par.get('low', []):
                lo.append(name)
    st = build.stamps(spec)
    df = pd.DataFrame(cols, index=[st[i] for i in idx])
    a = tsam.TimeSeriesAggregation(df, noTypicalPeriods=par['n'], hoursPerPeriod=par['hours'], resolution=float(spec['dt'][0]), clusterMethod='k_means',
                                   extremePeriodMethod='new_cluster_center' if hi or lo else 'None', weightDict=weights, addPeakMax=hi, addPeakMin=lo)
    a.createTypicalPeriods()
    order = [int(x) for x in a.clusterOrder]
    typ = a.predictOriginalData()
    sp = copy.deepcopy(spec)
    for n, (o, k) in enumerate(arrays(sp)):
        full = list(data_of(o[k]))
        for t, i in enumerate(idx):
            full[i] = float(typ[f'col{n}'].values[t])
        o[k] = {'a': full}
    return order, sp


def run(task):
    import flixOpt as fx
    import plotly.offline
    plotly.offline.plot = lambda *a, **k: ''      # the figure shown after clustering is not part of the property
    spec, par = task['spec'], task['par']
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0)

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, spec=spec, **kw))

    order, typ = cluster(spec, par)
    aggdata = par.get('data', False)
    base = typ if aggdata else spec
    R = ref.Ref(base)
    _, cf = explore.model(base)
    SF = impl.Sys(cf)
    b = build.build(spec)
    named = dict(build.NAMED)
    P = fx.AggregationParameters(hours_per_period=par['hours'], nr_of_periods=par['n'], fix_storage_flows=par.get('storage', False),
                                 aggregate_data_and_fix_non_binary_vars=aggdata, percentage_of_period_freedom=par.get('pct', 0),
                                 penalty_of_period_freedom=par.get('pen', 0),
                                 time_series_for_high_peaks=[named[x] for x in par.get('high', [])] or None,
                                 time_series_for_low_peaks=[named[x] for x in par.get('low', [])] or None)
    comps = par.get('comps')
    ca = fx.AggregatedCalculation('a', b.fs, P, components_to_clusterize=None if comps is None else [b.comps[c] for c in comps],
                                  time_indices=None if spec.get('window') is None else list(spec['window']))
    try:
        ca.do_modeling()
        SA = impl.Sys(ca)
    except impl.HarnessError:
        raise
    except Exception as e:
        import traceback
        viol('build', f'{type(e).__name__}: {e}', trace=traceback.format_exc()[-1200:])
        return out
    # pairs of steps
    T = R.T
    n = int(round(par['hours'] / spec['dt'][0]))
    pairs = []
    first = {}
    for p, c in enumerate(order):
        if c not in first:
            first[c] = p
            continue
        for t in range(1, n):
            i, j = first[c] * n + t, p * n + t
            if i < T and j < T:
                pairs.append((i, j))
    labels = comps if comps is not None else [c['label'] for c in spec['comps']]
    kinds = {c['label']: c['kind'] for c in spec['comps']}
    labels = [l for l in labels if kinds[l] != 'Storage' or par.get('storage')]
    for key in SF.where:          # further binary decisions
        if key[0][-1] == 'inSegment':
            R.obs.append((key, (), 3, False))
    A, alo, ahi, asol, ka, s1 = explore.words_of(SA, R)
    F, flo, fhi, fsol, kf, s2 = explore.words_of(SF, R)
    out['nodes'] = s1['nodes'] + s2['nodes']
    out['words'] = out['states'] = len(F)
    col = {R.obs[q][0]: x for x, q in enumerate(kf)}
    tracks = {}
    for (p, t), x in col.items():
        if p[0] == 'Components' and p[1] in labels and len(p) > 2:
            nm = p[-1]
            binary = nm in ('on', 'off', 'switchOn', 'switchOff', 'inSegment')
            if binary or (aggdata and nm in ('consecutiveOnHours', 'consecutiveOffHours', 'charge_state', 'netto_discharge')):
                tracks.setdefault((p, binary), {})[t] = x
    rates = {}
    if aggdata:
        for q, (key, g) in enumerate(R.choices):
            if key[0][-1] == 'flow_rate' and key[0][1] in labels:
                rates.setdefault(key[0], {})[key[1]] = q
    limit = round(par.get('pct', 0) / 100 * len(pairs))
    exp = {}
    for w, row in F.items():
        ok, dev = True, 0
        for (p, binary), tr in tracks.items():
            lo, hi = flo[row], fhi[row]
            cnt = 0
            for i, j in pairs:
                if i not in tr or j not in tr:
                    continue
                a, c = tr[i], tr[j]
                if hi[a] - lo[a] > 1e-4 or hi[c] - lo[c] > 1e-4:
                    if max(lo[a], lo[c]) > min(hi[a], hi[c]) + 1e-4:
                        cnt += 1
                    continue
                if abs(lo[a] - lo[c]) > 1e-4:
                    cnt += 1
            if binary:
                if cnt > limit:
                    ok = False
                dev += cnt
            elif cnt:
                ok = False
        for p, tr in rates.items():
            for i, j in pairs:
                if R.choices[tr[i]][1][w[tr[i]]] != R.choices[tr[j]][1][w[tr[j]]]:
                    ok = False
        if ok:
            exp[w] = dev
    out['transitions'] = len(exp)
    amb = task.get('ambiguous', False)
    for w in sorted(set(A) - set(exp)):
        viol('accept', f'periods {order}: admits a schedule in which equated steps differ (or that the full calculation forbids): {explore.word_text(R, w)}')
        break
    for w in sorted(set(exp) - set(A)):
        viol('reject', f'periods {order}: forbids a schedule that respects all equalities: {explore.word_text(R, w)}')
        break
    # values
    pen = par.get('pen', 0) if par.get('pct', 0) > 0 else 0
    cola = {R.obs[q][0]: x for x, q in enumerate(ka)}
    common = sorted(set(A) & set(exp))
    if common:
        ia, ib = np.array([A[w] for w in common]), np.array([F[w] for w in common])
        dev = np.array([exp[w] for w in common], float)
        for q in kf:
            key, tg, d, req = R.obs[q]
            if key not in cola:
                viol('missing', f'{explore.show(key)} is not reported')
                continue
            a0, a1 = alo[ia, cola[key]], ahi[ia, cola[key]]
            f0, f1 = flo[ib, col[key]], fhi[ib, col[key]]
            add = dev * pen if key[0] in (('Effects', 'penalty', 'penalty_sum'), ('Objective',)) else 0 * dev
            with np.errstate(invalid='ignore'):
                if amb:
                    continue
                bad = ((d & 1) > 0) & ~((a0 == f0 + add) | (np.abs(a0 - f0 - add) <= explore.VTOL * np.maximum(1, np.abs(a0))))
                bad |= ((d & 2) > 0) & ~((a1 == f1 + add) | (np.abs(a1 - f1 - add) <= explore.VTOL * np.maximum(1, np.abs(a1))))
            for k in np.nonzero(bad)[0][:1]:
                viol('value', f'{explore.show(key)} is [{a0[k]:.6g}, {a1[k]:.6g}], expected [{f0[k] + add[k]:.6g}, {f1[k] + add[k]:.6g}] ({int(dev[k])} deviations) for {explore.word_text(R, common[k])}')
    # later calculations use the original data
    if task.get('later', True):
        R2 = ref.Ref(spec)
        c2 = fx.FullCalculation('f', b.fs, time_indices=None if spec.get('window') is None else list(spec['window']))
        try:
            c2.do_modeling()
            _, c3 = explore.model(spec)
            texts, st = explore.diff(impl.Sys(c2), impl.Sys(c3), R2, 'a full calculation after the aggregated one', 'a full calculation on a fresh system', limit=1)
            for t in texts:
                viol('later', t)
        except impl.HarnessError:
            raise
        except Exception as e:
            viol('later', f'full calculation after the aggregated one: {type(e).__name__}: {e}')
    out['nontrivial'] = int(bool(pairs) and len(exp) > 0)
    out['tag'] = f'{len(order)} periods, {len(set(order))} clusters'
    return out


PAT = {'A': [1.0, 3.0, 2.0, 4.0], 'B': [10.0, 1.0, 8.0, 2.0], 'a': [1.0, 3.25, 2.0, 4.0], 'b': [10.0, 1.0, 8.5, 2.25], 'C': [1.0, 30.0, 5.0, 9.0]}


def series_(order, n, off=0):
    return [x + off for p in order for x in PAT[p][:n]]


def tasks(tier):
    deep = tier == 'thorough'
    orders = [('AA', 1), ('AAA', 1), ('AAB', 2), ('ABA', 2), ('BAA', 2), ('AB', 2), ('ABC', 3)]
    orders4 = [('ABAB', 2), ('AABB', 2), ('ABBA', 2), ('ABBB', 2), ('aABb', 2), ('AaBA', 2), ('ABCA', 3), ('AAAA', 1)]
    if deep:
        orders4 += [('BaAb', 2), ('CABa', 3), ('BBAB', 2), ('abab', 2)]
    pars = [dict(), dict(data=True), dict(pct=40, pen=5), dict(pct=40), dict(pct=17, pen=3), dict(pct=100, pen=2), dict(data=True, pct=40, pen=5)]

    def T(spec, hours, n, **kw):
        amb = kw.pop('ambiguous', False)
        d = dict(spec=spec, par=dict(hours=hours, n=n, **kw))
        if amb:
            d['ambiguous'] = True
        return d

    for (o, nc), n in [(x, 3) for x in orders] + [(x, 2) for x in orders + orders4] + ([(x, 3) for x in orders4] if deep else []):
        L = len(o) * n
        dt = (1,) * L
        for par in pars:
            price = {'a': series_(o, n)}
            # plain unit, unit with switches, with durations
            if n * len(o) <= 9 or deep:
                yield T(one(flow('f', 'b', 1, eff=price, onoff={}), [0, 1], dt=dt), n, nc, **par)
            yield T(one(flow('f', 'b', 1, eff=price, onoff={'switch_eff': 1}), [0, 1], dt=dt), n, nc, **par)
            yield T(one(flow('f', 'b', 1, eff={'ts': series_(o, n)}, onoff={'con_min': 2, 'coff_max': 3}), [0, 1], dt=dt), n, nc, ambiguous=par.get('pct', 0) > 0, **par)
        # profiles, limits and conversion factors of the typical periods
        if len(o) * n <= 8:
            for par in pars[:2] if len(o) * n <= 6 or deep else ():
                prof = {'a': [x / 10 for x in series_(o, n)]}
                _, typ = None, None
                base = T(one(flow('f', 'b', 10, rmax=prof, eff={'ts': series_(o, n)}), [0, 1], dt=dt), n, nc, **par)
                yield base
                yield T(system([sink('d', flow('f', 'b', 4, eff=2)), source('s', flow('f', 'b', 4, eff=price))], dt=dt, buses={'b': {'penalty': {'a': series_(o, n, 100)}}},
                               grid={'d.f': [0, 1], 's.f': [0, 1]}), n, nc, **par)
                K = dict(kind='LinearConverter', label='K', factors=[[['i', {'a': [2.0 if x > 4 else 1.0 for x in series_(o, n)]}], ['o', 1]]], onoff={}, ins=[flow('i', 'b', 4)], outs=[flow('o', 'c', 4, eff=price)])
                yield T(system([K], dt=dt, grid={'K.i': [0, 1], 'K.o': [0, 1, 2]}), n, nc, **par)
            # segmented conversion
            K = dict(kind='LinearConverter', label='K', segs=[['i', [[1, 1], [2, 2]]], ['o', [[1, 1], [3, 3]]]], ins=[flow('i', 'b', 4)], outs=[flow('o', 'c', 4, eff=price)])
            for par in pars[:3]:
                yield T(system([K], dt=dt, grid={'K.i': [0, 1, 2], 'K.o': [1, 3]}), n, nc, ambiguous=True, **par)
        # storages are independent unless requested; components to equate
        if len(o) * n <= 4 or (deep and len(o) * n <= 5):
            S = dict(kind='Storage', label='S', cap=2, init=1, ins=[flow('c', 'h', 1)], outs=[flow('d', 'h', 1)])
            U = source('U', flow('u', 'h', 1, eff=price, onoff={}))
            for par in pars[:4]:
                for st in (True, False):
                    for comps in (None, ['U'], ['S']):
                        yield T(system([S, U], dt=dt, grid={'S.c': [0, 1], 'S.d': [0, 1], 'U.u': [0, 1]}, buses={'h': {'penalty': 7}}), n, nc, storage=st, comps=comps, **par)
            X = dict(kind='Component', label='X', onoff={'run_eff': 2}, ins=[flow('i', 'b', 1, eff=price)], outs=[flow('o', 'b', 1)])
            Y = source('Y', flow('u', 'b', 1, onoff={}))
            for par in pars:
                for comps in (None, ['X'], ['Y']):
                    yield T(system([X, Y], dt=dt, grid={'X.i': [0, 1], 'X.o': [0, 1], 'Y.u': [0, 1]}), n, nc, comps=comps, **par)
        if len(o) * n <= 6:
            S = dict(kind='Storage', label='S', cap=2, init=1, ins=[flow('c', 'h', 1)], outs=[flow('d', 'h', 1)])
            for par in pars[:4]:
                for st in (True, False):
                    yield T(system([S], dt=dt, buses={'h': {'penalty': price}}, grid={'S.c': [0, 1], 'S.d': [0, 1]}), n, nc, storage=st, **par)
            U, Y = source('U', flow('u', 'h', 1, eff=price, onoff={})), source('Y', flow('u', 'h', 1, onoff={}))
            for par in pars:
                for comps in (None, ['U'], ['Y'], ['Y', 'U']):
                    yield T(system([U, Y], dt=dt, buses={'h': {'penalty': 7}}, grid={'U.u': [0, 1], 'Y.u': [0, 1]}), n, nc, comps=comps, **par)
    # pairs of features: the data of two of the three periods are the same
    from . import c36
    for k, (kind, names, spec) in enumerate(c36.operation_only(('flow', 'converter'))):
        for q, par in enumerate(pars[:3]):
            binary = "'onoff'" in str(spec) or "'segs'" in str(spec)
            if not binary and (q != 1 or k % 2) or not deep and binary and (k + q) % 3:
                continue
            for o in (('AAB', 'ABA', 'BAA')[(k // 3 + q) % 3],):
                sp = c36.stretched({x: spec[x] for x in ('effects', 'comps', 'buses')}, 3)
                for f, key in arrays(sp):
                    x = f[key]['a']
                    f[key] = {'a': [y for p in o for y in ([x[0], x[1]] if p == 'A' else [x[2], x[0]])]}
                for b in sp['buses'].values():
                    b['penalty'] = {'a': series_(o, 2)}
                yield T({**spec, **sp}, 2, 2, ambiguous=True, **par)
    # step lengths, windows, incomplete last period
    for dt, hours, n in [((0.5,) * 9, 1.5, 3), ((2,) * 6, 6, 3), ((1,) * 7, 3, 3), ((1,) * 8, 3, 3)]:
        for o in ('ABA', 'AAB', 'AAA'):
            L = len(dt)
            for par in pars[:3]:
                nc = len(set(o))
                yield T(one(flow('f', 'b', 1, eff={'a': series_(o, n)[:L]}, onoff={'switch_eff': 1}), [0, 1], dt=dt), hours, nc, **par)
                if dt[0] == 1 and L == 8:
                    yield T(one(flow('f', 'b', 1, eff={'a': [77.0] + series_(o, 2) + [5.0]}, onoff={'switch_eff': 1}), [0, 1], dt=dt, window=list(range(1, 7))), 2, nc, **par)
    # extreme periods, groups and weights
    D = {'x': [1, 2, 1, 2, 1, 2, 1, 9], 'y': [5, 5, 5, 6, 9, 9, 9, 8], 'z': [5, 5.5, 5, 6, 9, 9.5, 9, 8], 'v': [1, 1, 8, 8, 1, 1, 8, 8.5]}
    dt = (1,) * 8
    for par in [dict(high=['x']), dict(low=['x']), dict(high=['x', 'y']), dict(low=['v'], high=['x']), dict()]:
        for dat in (False, True):
            for nc in (2, 3) if not ('low' in par and 'high' in par) else (2,):
                yield T(one(flow('f', 'b', 1, eff={'tg': [D['x'], None, None, 'x']}, rmax={'tg': [[v / 10 + .2 for v in D['y']], None, None, 'y']}, onoff={'run_eff': {'tg': [D['v'], None, None, 'v']}}), [0, 0.25], dt=dt), 2, nc, data=dat, **par)
    # three periods, the second is like the first in y and z, like the third in v: the weights decide
    y, z, v = [1, 1, 1, 1, 9, 9], [1, 1, 1, 1, 9, 9], [1, 1, 9, 9, 9, 9]
    for gy, wy, gz, wz, gv, wv in [(None, None, None, None, None, None), (None, .1, None, .1, None, 1), (None, 1, None, 1, None, .3), ('g', None, 'g', None, None, 0.9), ('g', None, 'g', None, None, 0.55),
                                   (None, .4, None, .4, None, None), ('g', None, 'h', None, None, None), ('g', None, 'g', None, 'g', None), (None, None, None, .1, None, .9), (None, 0, None, 0, None, 1), (None, 0, None, None, None, .9),
                                   (None, 0.1, None, 0.1, None, 0), ('g', None, 'g', None, None, 0)]:
        for dat in (False, True):
            yield T(one(flow('f', 'b', 1, eff={'tg': [y, gy, wy, 'y']}, onoff={'run_eff': {'tg': [z, gz, wz, 'z']}, 'switch_eff': {'tg': [v, gv, wv, 'v']}}), [0, 1], dt=(1,) * 6), 2, 2, data=dat)
