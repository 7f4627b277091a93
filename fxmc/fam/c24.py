import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import build, env, impl
from .common import *

PID, LEVEL = 'C24', 'exploration'
ASSUMPTIONS = ['values outside of the alphabet behave like the values below, at and above the threshold']
RULE = ('systems with components of one and several inputs and outputs, buses with and without excess, storages, equal and unequal steps, windows; all assignments of value patterns (zero, below, at, above the '
        'thresholds, negative, ordinary) to the flows and excesses as answers of the solver; saved, loaded; the table of every component, bus and flow for all combinations of factors, thresholds and last row '
        'is compared with the answers given')

T = 3
PAT = {'z': [0.0, 0.0, 0.0], 'at': [0.0, 1e-5, 0.0], 'tiny': [9e-6, -1e-5, 0.0], 'up': [0.0, 0.0, 1.2e-5], 'down': [-1.2e-5, 0.0, 0.0], 'mid': [0.5, 0.0, -0.5], 'ord': [1.0, 2.0, 3.5], 'neg': [-2.0, 0.0, 0.25],
       'last': [0.0, 0.0, 7.0]}
FACT = (None, 1, -1)
THR = (None, 1e-5, 0.5, 0.0)


def sysA(dt=(1, 2, 0.5), pen=1, window=None):
    return system([source('src', flow('f', 'B1', 10)), sink('snk', flow('g', 'B1', 10)),
                   dict(kind='LinearConverter', label='conv', ins=[flow('p', 'B1', 10), flow('q', 'B2', 10)], outs=[flow('r', 'B2', 10), flow('s', 'B3', 10)], factors=[[['p', 1], ['r', 1]]])],
                  dt=dt, buses={'B1': {'penalty': pen}, 'B2': {'penalty': None}, 'B3': {'penalty': 0}}, window=window)


def sysB(dt=(1, 1, 1), window=None):
    return system([dict(kind='Storage', label='sto', ins=[flow('in', 'B1', 5)], outs=[flow('out', 'B1', 5)], cap=8),
                   dict(kind='SourceAndSink', label='ss', ins=[flow('i', 'B 2', 5)], outs=[flow('o', 'B1', 5)])], dt=dt, buses={'B1': {'penalty': 3}, 'B 2': {'penalty': 1}}, window=window)


def sysC(dt=(1, 1, 1), window=None):
    """labels which begin or end with other labels, differ in case only, or are used for flows of several components"""
    return system([source('h', flow('f', 'heat', 10)), source('h2', flow('f', 'heat 2', 10)), sink('H', flow('heat', 'Heat', 10)), sink('a h', flow('f', 'heat', 10)),
                   dict(kind='LinearConverter', label='f', ins=[flow('h', 'heat 2', 10), flow('h2', 'heat', 10)], outs=[flow('H', 'Heat', 10), flow('f', 'a heat', 10)], factors=[[['h', 1], ['H', 1]], [['h2', 1], ['f', 1]]])],
                  dt=dt, buses={'heat': {'penalty': 1}, 'heat 2': {'penalty': 2}, 'Heat': {'penalty': None}, 'a heat': {'penalty': 0}}, window=window)


def observables(spec):
    """paths of the quantities, in the order of the columns of the tables"""
    q = {}
    for c in spec['comps']:
        for f in c.get('ins', []):
            q[f'{c["label"]}__{f["label"]}'] = (('Components', c['label'], f['label'], 'flow_rate'), c['label'], f['bus'], True)
        for f in c.get('outs', []):
            q[f'{c["label"]}__{f["label"]}'] = (('Components', c['label'], f['label'], 'flow_rate'), c['label'], f['bus'], False)
    for b, d in spec['buses'].items():
        if d.get('penalty') is not None:
            q[(b, 'in')] = (('Buses', b, 'excess_input'), None, b, None)
            q[(b, 'out')] = (('Buses', b, 'excess_output'), None, b, None)
    return q


def table(q, val, label, spec, fi, fo, thr):
    """expected columns: name -> values"""
    cols = {}
    if label in q:
        cols['flow_rate'] = val[label]
    elif label in spec['buses']:
        for k, (p, c, b, inp) in q.items():
            if b == label and inp is not None and (fo if inp else fi) is not None:
                cols[k] = np.array(val[k]) * (fo if inp else fi)
        if (label, 'in') in q:
            if fi is not None:
                cols['Excess Input'] = np.array(val[(label, 'in')]) * fi
            if fo is not None:
                cols['Excess Output'] = np.array(val[(label, 'out')]) * fo
    else:
        for k, (p, c, b, inp) in q.items():
            if c == label and (fi if inp else fo) is not None:
                cols[k] = np.array(val[k]) * (fi if inp else fo)
    if thr is not None:
        cols = {k: v for k, v in cols.items() if any(abs(x) > thr for x in v)}
    return cols


def check(res, q, val, spec, times, out):
    labels = [c['label'] for c in spec['comps']] + list(spec['buses']) + [k for k in q if isinstance(k, str)]
    n = len(times) - 1
    for label in labels:
        isflow = label in q
        for fi, fo in (itertools.product(FACT, FACT) if not isflow else [(-1, 1), (None, None)]):
            for thr in THR:
                want = table(q, val, label, spec, fi, fo, thr)
                for last in (True, False):
                    df = res.to_dataframe(label, 'flow_rate', fi, fo, thr, last)
                    out['evals'] += 1
                    what = f'to_dataframe({label!r}, input_factor={fi}, output_factor={fo}, threshold={thr}, with_last_time_step={last})'
                    if set(df.columns) != set(want) or len(df.columns) != len(want):
                        return f'{what}: columns {list(df.columns)}, should be {list(want)}'
                    if not want:
                        continue
                    out['nontrivial'] += 1
                    m = n + 1 if last else n
                    idx = df.index.to_numpy()
                    if len(df) != m or not np.array_equal(idx.astype('datetime64[us]'), times[:m].astype('datetime64[us]')):
                        return f'{what}: rows {list(idx)}, should be {list(times[:m])}'
                    for k, v in want.items():
                        v = list(v) + ([v[-1]] if last else [])
                        if not np.allclose(df[k].to_numpy(dtype=float), v, rtol=1e-12, atol=0):
                            return f'{what}: column {k} is {df[k].tolist()}, should be {v}'
    # defaults
    for label in labels:
        a, b = res.to_dataframe(label), res.to_dataframe(label, 'flow_rate', -1, 1, 1e-5, True)
        if not a.equals(b):
            return f'to_dataframe({label!r}) does not use the documented defaults'
    return None


def run(task):
    import flixOpt as fx
    from flixOpt.results import CalculationResults
    out = dict(viol=[], evals=0, nontrivial=0)
    spec = {'A': sysA, 'B': sysB, 'C': sysC}[task['sys']](**task.get('kw', {}))
    d = tempfile.mkdtemp(prefix='c24_', dir=env.scratch())
    try:
        b = build.build(spec)
        w = spec.get('window')
        c = fx.FullCalculation('calc', b.fs, time_indices=None if w is None else list(w))
        c.do_modeling()
        S = impl.Sys(c)
        q = observables(spec)
        st = build.stamps(spec)
        st = np.append(st, st[-1] + np.timedelta64(int(spec['dt'][-1] * 3600), 's'))
        times = st if w is None else st[list(w) + [w[-1] + 1]]
        n = len(times) - 1
        for pats in task['pats']:
            val = {k: PAT['z'][:n] for k in q}
            for k, p in zip(task['keys'], pats):
                val[tuple(k) if isinstance(k, (list, tuple)) else k] = PAT[p][-n:]
            ans = {S.where[(q[k][0], t)]: v[t] for k, v in val.items() for t in range(n)}
            c.solve(impl.make_solver(S._set(lambda i: ans.get(i, 0.0))), save_results=d)
            res = CalculationResults('calc', d)
            t = check(res, q, val, spec, times, out)
            if t and len(out['viol']) < 3:
                out['viol'].append(dict(kind='table', text=f'{dict(zip(map(str, task["keys"]), pats))}: {t}'[:900]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out['sample'] = dict(system=task['sys'], values=dict(zip(map(str, task['keys']), task['pats'][-1])))
    return out


def tasks(tier):
    deep = tier == 'thorough'
    few = ['z', 'at', 'up', 'neg'] if not deep else ['z', 'at', 'tiny', 'up', 'down', 'neg', 'ord']
    every = list(PAT)

    def group(sys, keys, pats, n=8, **kw):
        pats = list(pats)
        for i in range(0, len(pats), n):
            yield dict(sys=sys, keys=keys, pats=pats[i:i + n], kw=kw)
    # every table: all pairs of patterns for two quantities of each element
    yield from group('A', ['conv__p', 'conv__s'], itertools.product(every, repeat=2))
    yield from group('A', ['conv__q', 'conv__r'], itertools.product(every if deep else few, repeat=2), dt=(1, 1, 1))
    yield from group('A', ['src__f', 'snk__g', ('B1', 'in'), ('B1', 'out')], itertools.product(few if deep else ['z', 'up', 'neg'], repeat=4))
    yield from group('A', ['conv__s', ('B3', 'in'), ('B3', 'out')], itertools.product(few[1:], repeat=3), window=[0, 1])
    yield from group('A', ['src__f', 'conv__r', ('B1', 'in')], itertools.product(few, repeat=3), window=[1, 2], dt=(1, 2, 2))
    yield from group('B', ['sto__in', 'sto__out', 'ss__o'], itertools.product(few if not deep else every, repeat=3))
    yield from group('B', ['ss__i', ('B 2', 'out')], itertools.product(every, repeat=2), dt=(2, 1, 1))
    yield from group('C', ['h__f', 'h2__f', 'f__h', ('heat 2', 'in')], itertools.product(['z', 'up', 'neg'] if not deep else few, repeat=4))
    yield from group('C', ['H__heat', 'a h__f', 'f__f', ('heat', 'out')], itertools.product(['z', 'up', 'neg'] if not deep else few, repeat=4), window=[1, 2], dt=(1, 2, 2))
