import copy

from .. import explore, impl, ref
from .c32 import lists
from .common import *

PID, LEVEL = 'C34', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2]
RULE = ('a family of systems in which every argument of every kind of element has an effect; for each argument all supported ways to write the same value (int, float, numpy scalars, constant arrays of several types, TimeSeriesData of '
        'either; effects as number, by None or by name; defaults given or left out), each alone, all time series at once, and all ways to write the time axis (unit, type, start, length of the last step, window); the system as '
        'written first and the variant are modelled by the real code and both problems searched exhaustively: same words, same reported values')

FLOW = {k: 'ts' for k in ('fixed', 'rmin', 'rmax')} | {k: 'num' for k in ('fh_min', 'fh_max', 'lf_min', 'lf_max')} | {'prev': 'prev', 'eff': 'eff'}
ONOFF = {k: 'num' for k in ('on_min', 'on_max', 'sw_max')} | {k: 'ts' for k in ('con_min', 'con_max', 'coff_min', 'coff_max')} | {'switch_eff': 'eff', 'run_eff': 'eff'}
INV = {k: 'num' for k in ('fixed', 'min', 'max')} | {k: 'ieff' for k in ('fix_eff', 'spec_eff', 'div_eff')}
COMP = {k: 'ts' for k in ('eta', 'cop', 'sed', 'eta_th', 'eta_el', 'eta_c', 'eta_d', 'loss', 'rel', 'abs')} | {'rmin': 'ts1', 'rmax': 'ts1', 'fmin': 'num', 'fmax': 'num', 'init': 'num'}
EFFECT = {k: 'num' for k in ('op_min', 'op_max', 'inv_min', 'inv_max', 'tot_min', 'tot_max')} | {'oph_min': 'ts', 'oph_max': 'ts'}
DEFAULTS = {'flow': {'rmin': 0, 'rmax': 1}, 'inv': {'optional': True, 'min': 0}, 'onoff': {'force': False},
            'Storage': {'rmin': 0, 'rmax': 1, 'eta_c': 1, 'eta_d': 1, 'loss': 0, 'init': 0}, 'Transmission': {'rel': 0, 'abs': 0}}


def places(spec):
    """(path, kind of argument) of all numbers and series of a system"""
    def onoff(path, o):
        for k in o or {}:
            if k in ONOFF:
                yield from one_(path + (k,), ONOFF[k], o[k])

    def size(path, z):
        if isinstance(z, dict) and 'inv' in z:
            for k, v in z['inv'].items():
                if k in INV:
                    yield from one_(path + ('inv', k), INV[k], v)
                if k == 'seg':
                    for i in range(len(v[0])):
                        for j in (0, 1):
                            yield path + ('inv', 'seg', 0, i, j), 'num'
                            for m in range(len(v[1])):
                                yield path + ('inv', 'seg', 1, m, 1, i, j), 'num'
        elif z is not None:
            yield path, 'num'

    def one_(path, kind, v):
        if isinstance(v, dict) and 'eff' in v:
            for i in range(len(v['eff'])):
                yield path + ('eff', i, 1), 'num' if kind == 'ieff' else 'ts'
            if len(v['eff']) == 1:
                yield path, kind
        elif v is not None:
            yield path, kind
            if kind == 'eff':
                yield path, 'ts'
            elif kind == 'ieff':
                yield path, 'num'

    for i, c in enumerate(spec['comps']):
        for k in c:
            if k in COMP:
                yield from one_(('comps', i, k), COMP[k], c[k])
        if 'cap' in c:
            yield from size(('comps', i, 'cap'), c['cap'])
        yield from onoff(('comps', i, 'onoff'), c.get('onoff'))
        for j, e in enumerate(c.get('factors') or []):
            for m in range(len(e)):
                yield ('comps', i, 'factors', j, m, 1), 'ts'
        for j, (l, sg) in enumerate(c.get('segs') or []):
            for m in range(len(sg)):
                for n in (0, 1):
                    yield ('comps', i, 'segs', j, 1, m, n), 'ts'
        for d in ('ins', 'outs'):
            for j, f in enumerate(c.get(d, [])):
                at = ('comps', i, d, j)
                for k in f:
                    if k in FLOW:
                        yield from one_(at + (k,), FLOW[k], f[k])
                yield from onoff(at + ('onoff',), f.get('onoff'))
                yield from size(at + ('size',), f.get('size'))
    for i, e in enumerate(spec['effects']):
        for k in e:
            if k in EFFECT:
                yield from one_(('effects', i, k), EFFECT[k], e[k])
            if k in ('op_share', 'inv_share'):
                for j in range(len(e[k])):
                    yield ('effects', i, k, j, 1), 'ts' if k == 'op_share' else 'num'
    for b, d in spec['buses'].items():
        if d.get('penalty') is not None:
            yield ('buses', b, 'penalty'), 'ts'


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def writings(v, kind, N, std):
    """the same value written otherwise"""
    n = N + 1 if kind == 'ts1' else N
    if kind in ('eff', 'ieff'):
        if isinstance(v, dict) and 'eff' in v:
            l, x = v['eff'][0]
            if l == std:
                yield x
                yield {'eff': [[None, x]]}
            elif l is None:
                yield x
                yield {'eff': [[std, x]]}
        else:
            yield {'eff': [[None, v]]}
            yield {'eff': [[std, v]]}
        return
    if number(v):
        whole = float(v) == int(v)
        yield float(v)
        yield {'n': float(v)}
        yield {'nf': float(v)} if float(v) * 4096 % 1 == 0 else {'n': v}
        if whole:
            yield int(v)
            yield {'ni': int(v)}
        if kind == 'prev':
            yield {'a': [float(v)]}
            yield {'l': [float(v)]}
            if whole:
                yield {'i': [int(v)]}
        if kind in ('ts', 'ts1'):
            yield {'a': [float(v)] * n}
            yield {'ts': float(v)}
            yield {'ts': [float(v)] * n}
            yield {'l': [v] * n}
            if kind == 'ts':
                yield {'a': [float(v)]}
                yield {'ts': [float(v)]}
            if whole:
                yield {'i': [int(v)] * n}
                yield {'ti': [int(v)] * n}
            if float(v) * 4096 % 1 == 0:
                yield {'f32': [float(v)] * n}
    elif isinstance(v, dict) and list(v)[0] in ('a', 'ts', 'i') and isinstance(list(v.values())[0], list):
        x = [float(y) for y in list(v.values())[0]]
        yield {'l': x}
        yield {'l': [int(y) if y == int(y) else y for y in x]}      # whole numbers next to fractions
        if kind != 'prev':
            yield {'ts': x}
        yield {'a': x}
        if all(y * 4096 % 1 == 0 for y in x):
            yield {'f32': x}
        if all(y == int(y) for y in x):
            yield {'i': [int(y) for y in x]}
            if kind != 'prev':
                yield {'ti': [int(y) for y in x]}


def get(spec, path):
    for k in path:
        spec = spec[k]
    return spec


def put(spec, path, v):
    s = copy.deepcopy(spec)
    get(s, path[:-1])[path[-1]] = v
    return s


def variants(spec):
    N = len(spec['dt'])
    std = next(e['label'] for e in spec['effects'] if e.get('std'))
    ps = list(places(spec))
    for path, kind in ps:
        v = get(spec, path)
        for w in writings(v, kind, N, std):
            if isinstance(w, dict) and 'l' in w and path[-1] in ('eta', 'cop', 'sed', 'eta_th', 'eta_el'):
                continue        # arrays only: checked against their limits
            if repr(w) != repr(v):
                yield f'{"/".join(map(str, path))} written as {w}', put(spec, path, w)
    # all at once
    for name, form in (('arrays', lambda v, n: {'a': [float(v)] * n}), ('TimeSeriesData', lambda v, n: {'ts': [float(v)] * n}), ('TimeSeriesData of numbers', lambda v, n: {'ts': v}), ('numpy numbers', lambda v, n: {'n': v})):
        s = spec
        for path, kind in ps:
            v = get(s, path)
            if kind in ('ts', 'ts1') and number(v):
                s = put(s, path, form(v, N + 1 if kind == 'ts1' else N))
        yield f'all series written as {name}', s
    # defaults given
    def give(path, d):
        for k, v in DEFAULTS[d].items():
            if get(spec, path).get(k) is None:
                s = copy.deepcopy(spec)
                get(s, path)[k] = v
                yield f'{"/".join(map(str, path))}: default {k} = {v} given', s
    for i, c in enumerate(spec['comps']):
        if c['kind'] in DEFAULTS:
            yield from give(('comps', i), c['kind'])
        if c.get('onoff') is not None:
            yield from give(('comps', i, 'onoff'), 'onoff')
        for d in ('ins', 'outs'):
            for j, f in enumerate(c.get(d, [])):
                yield from give(('comps', i, d, j), 'flow')
                if f.get('onoff') is not None:
                    yield from give(('comps', i, d, j, 'onoff'), 'onoff')
                if isinstance(f.get('size'), dict):
                    yield from give(('comps', i, d, j, 'size', 'inv'), 'inv')
        if isinstance(c.get('cap'), dict):
            yield from give(('comps', i, 'cap', 'inv'), 'inv')
    # time axis
    for u in ('s', 'us', 'ns', 'm', 'h', 'ms'):
        yield f'times in {u}', dict(spec, unit=u)
    for st in ('2019-12-31T23:00:00', '2020-02-28T23:00:00', '2021-02-28T22:00:00', '1969-12-31T23:00:00', '1900-02-28T23:00:00', '2024-03-31T01:00:00', '2023-10-29T01:00:00', '2000-02-29T00:00:00', '2016-12-31T23:00:00'):
        yield f'starting at {st}', dict(spec, start=st)
    for f in ('list',):
        yield f'times as {f}', dict(spec, tform=f)
    L = spec['dt'][-1]
    for w in ({'td': L * 3600}, float(L), {'n': L}, {'ni': L}) + ((None,) if spec['dt'][-1] == spec['dt'][-2] else ()):
        yield f'last step written as {w}', dict(spec, last=w)
    if spec.get('prev_dt') is None:
        for w in (spec['dt'][0], float(spec['dt'][0]), {'n': spec['dt'][0]}):
            yield f'previous step written as {w}', dict(spec, prev_dt=w)
    if not any(k == 'ts1' for _, k in ps):
        yield 'all steps in a list', dict(spec, window=list(range(N)))
        yield 'all steps in a range', dict(spec, window=list(range(N)), wform='range')


def systems(deep):
    E = [dict(label='k', oph_max=9, op_max=40, tot_min=0, inv_max=30), dict(label='c', std=True, obj=True, op_share=[['k', 2]], inv_share=[['k', 1]], tot_max=90, op_min=-5, inv_min=0, oph_min=-4)]
    Ea = [dict(label='k', oph_max={'a': [9.0, 4.0, 9.0]}), dict(label='c', std=True, obj=True, op_share=[['k', {'a': [1.0, 2.0, 0.5]}]])]
    for dt in ((1, 2), (1, 1)) + (((2, 1, 1),) if deep else ()):
        N = len(dt)
        pen = {'b': {'penalty': 3}, 'q': {'penalty': {'a': [2.0, 1.0, 3.0][:N]}}}
        ea = [dict(e, **{k: {'a': e[k]['a'][:N]} for k in ('oph_max',) if k in e}, **({'op_share': [['k', {'a': [1.0, 2.0, 0.5][:N]}]]} if 'op_share' in e else {})) for e in Ea]
        for eff in (E, ea):
            # sizes, limits, effects, histories
            s = system([source('u', flow('p', 'b', inv(min=1, max=2, fix_eff=2, spec_eff={'eff': [['k', 3]]}, div_eff={'eff': [['c', 1]]}), rmin=0, rmax=1, eff=1, fh_max=4, lf_min=0.25))], dt=dt, effects=eff, buses={'b': {'penalty': 3}}, grid={'u.p': [0, 1, 2]})
            s['sizes'] = {'u.p': [0, 1, 2]}
            yield s
            yield system([source('u', flow('p', 'b', 2, rmin=0.5, rmax={'a': [1.0, 0.5, 1.0][:N]}, prev=1, eff={'eff': [['c', {'a': [1.0, 2.0, 1.0][:N]}], ['k', 2]]}, onoff=dict(con_min=2, coff_min=2, switch_eff=1, sw_max=1, run_eff={'eff': [['k', 1]]}))),
                          sink('d', flow('g', 'b', 1, fixed={'a': [1.0, 0.0, 1.0][:N]}))], dt=dt, effects=eff, buses={'b': {'penalty': 3}}, grid={'u.p': [0, 0.5, 1, 2], 'd.g': [0, 1]})
            yield system([source('u', flow('p', 'b', 2, prev={'a': [0.0, 1.0]}, onoff=dict(con_max=2, on_min=1, on_max=2, coff_max=3, switch_eff={'eff': [[None, {'a': [1.0, 2.0, 3.0][:N]}]]}, run_eff=2), fh_min=1, lf_max=0.75)),
                          sink('d', flow('g', 'b', 1, fixed=1))], dt=dt, effects=eff, buses={'b': {'penalty': 3}}, grid={'u.p': [0, 1, 2], 'd.g': [0, 1]})
        s = system([source('u', flow('p', 'b', inv(min=0, max=4, optional=False, seg=([(0, 1), (2, 4)], [['c', [(0, 5), (7, 9)]], ['k', [(1, 2), (3, 4)]]]))))], dt=dt, effects=E2, grid={'u.p': [0, 1]})
        s['sizes'] = {'u.p': [0, 1, 1.5, 2, 4]}
        yield s
        s = system([source('u', flow('p', 'b', inv(fixed=2, optional=True, fix_eff={'eff': [[None, 2]]}), rmin=0.5, onoff={}))], dt=dt, effects=E2, grid={'u.p': [0, 1, 2]})
        s['sizes'] = {'u.p': [0, 2]}
        yield s
        # storages
        S = dict(kind='Storage', label='S', cap=2, init=1, rmin=0.25, rmax=1, eta_c=0.5, eta_d=1, loss=0, fmin=0.5, fmax=2, ins=[flow('c', 'b', 1)], outs=[flow('d', 'b', 1)])
        yield system([S], dt=dt, effects=E2, grid={'S.c': [0, 0.5, 1], 'S.d': [0, 0.5, 1]})
        yield system([dict(S, eta_c={'a': [0.5, 1.0, 0.5][:N]}, eta_d={'a': [1.0, 0.5, 1.0][:N]}, loss=0.5, rmin=0, rmax={'a': [1.0, 0.5, 1.0, 0.75][:N] + [0.75]}, fmin=0, init=0)], dt=dt, effects=E2, grid={'S.c': [0, 0.5, 1], 'S.d': [0, 0.5, 1]})
        s = system([dict(kind='Storage', label='S', cap=inv(min=1, max=2, optional=False, spec_eff=1), init=0, ins=[flow('c', 'b', 1)], outs=[flow('d', 'b', 1)])], dt=dt, effects=E2, grid={'S.c': [0, 1], 'S.d': [0, 1]})
        s['sizes'] = {'S': [1, 2]}
        yield s
        # converters
        g = {'K.i': [0, 1, 2], 'K.o': [0, 0.5, 1, 2]}
        for oo in (None, dict(on_max=2, run_eff=2)):
            yield system([dict(kind='LinearConverter', label='K', onoff=oo, factors=[[['i', 1], ['o', 2]]], ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 2)])], dt=dt, effects=E2, buses=pen, grid=g)
            yield system([dict(kind='LinearConverter', label='K', onoff=oo, factors=[[['i', {'a': [1.0, 2.0, 1.0][:N]}], ['o', 2]]], ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 2)])], dt=dt, effects=E2, buses=pen, grid=g)
            yield system([dict(kind='LinearConverter', label='K', onoff=oo, segs=[['i', [[0, 0], [1, 2]]], ['o', [[0, 0], [1, 1]]]], ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 1)])], dt=dt, effects=E2, buses=pen, grid=g)
        I = [flow('i', 'b', 2)]
        for c, gr in ((dict(kind='Boiler', eta=0.5, ins=I, outs=[flow('o', 'q', 2)]), g), (dict(kind='Power2Heat', eta=0.5, ins=I, outs=[flow('o', 'q', 2)]), g), (dict(kind='HeatPump', cop=2, ins=I, outs=[flow('o', 'q', 2)]), g),
                      (dict(kind='CoolingTower', sed=0.5, ins=[flow('i', 'b', 2), flow('o', 'q', 2)]), g),
                      (dict(kind='CHP', eta_th=0.5, eta_el=0.25, ins=I, outs=[flow('e', 'e', 1), flow('o', 'q', 2)]), dict(g, **{'K.e': [0, 0.25, 0.5]})),
                      (dict(kind='HeatPumpWithSource', cop=2, ins=[flow('i', 'b', 2), flow('e', 'e', 1)], outs=[flow('o', 'q', 2)]), dict(g, **{'K.e': [0, 0.5, 1]})),
                      (dict(kind='Transmission', rel=0.5, abs=0.25, ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 2)]), dict(g, **{'K.o': [0, 0.25, 0.5, 0.75, 1]})),
                      (dict(kind='Transmission', ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 2)]), g)):
            bs = dict(pen, **({'e': {'penalty': 1}} if 'K.e' in gr else {}))
            yield system([dict(c, label='K')], dt=dt, effects=E2, buses=bs, grid=gr)


def run(task):
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag='writing', nontrivial=0)
    a = task['spec']

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, **kw))

    base = None
    R = ref.Ref(a)
    for what, b in task['variants']:
        try:
            if base is None:
                base = impl.Sys(explore.model(a)[1])
            s = impl.Sys(explore.model(b)[1])
        except impl.HarnessError:
            raise
        except Exception as e:
            import traceback
            viol('build', f'({what}) {type(e).__name__}: {e}', spec=b, trace=traceback.format_exc()[-1200:])
            continue
        texts, st = explore.diff(base, s, R, 'the system as first written', f'the system with {what}')
        for t in texts:
            viol('diff', t, spec=b)
        for k, v in (('words', st['words']), ('states', st['words']), ('transitions', st['words']), ('nodes', st['nodes'])):
            out[k] += v
        out['feeds'] += 1
        out['nontrivial'] += int(st['words'] > 0)
    return out


def tasks(tier):
    deep = tier == 'thorough'
    for s in systems(deep):
        s = lists(s)
        v = list(variants(s))
        for i in range(0, len(v), 10):
            yield dict(spec=s, variants=v[i:i + 10])
