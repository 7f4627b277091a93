import collections
import re
import copy
import itertools

from .. import build, explore, impl, ref
from .c21 import LABELS as ODD
from .c32 import lists
from .common import *

PID, LEVEL = 'C33', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2] + ['labels without leading, trailing or double underscores (reserved); labels of flows and effects that are names of quantities of the results may be rejected',
                                      'elements of different kinds have different labels']
RULE = ('a family of systems with all kinds of elements; for each kind of element every label of an alphabet (signs, scripts, numbers, words of configuration formats, all names flixOpt uses for its own quantities) and for '
        'each pair of elements of a kind all pairs of labels that differ little (prefix, underscore, case, blank, combining character); the system is modelled by the real code with plain and with these labels and both problems '
        'are searched exhaustively: same words, same reported values under the new labels')

WORDS = ['flow_rate', 'on', 'off', 'on_off', 'onoff', 'OnOff', 'size', 'isInvested', 'is_invested', 'Investment', 'Investments', 'sumFlowHours', 'totalOnHours', 'switch_on', 'switch_off', 'nrSwitchOn', 'consecutive_on', 'ConsecutiveOn',
         'operation', 'invest', 'all', 'sum', 'sum_TS', 'total', 'shares', 'penalty', 'excess_input', 'excess_output', 'busBalance', 'charge_state', 'netto_discharge', 'Objective', 'objective', 'Effects', 'Effect', 'Components',
         'Buses', 'Others', 'Time', 'Segments', 'Segment_1', 'Aggregation', 'None', 'model', 'self', '0', 'nan', 'effects_per_flow_hour', 'fix_effects', 'specific_effects', 'var', 'eq', 'index', 'PreventSimultaneousUsage']
NEAR = [('f', 'f_on'), ('f', 'f_f'), ('f', 'F'), ('f', 'f '), (' f', 'f'), ('a b', 'a_b'), ('a-b', 'a_b'), ('a.b', 'a_b'), ('a(1)', 'a[1]'), ('é', 'e\u0301'), ('1', '01'), ('1', '1.0'), ('x', 'x_flow_rate'), ('x', 'x_sum'),
        ('x', 'x_operation'), ('x', 'x_invest'), ('x', 'x_1'), ('a_b', 'a'), ('x', 'x|y'), ('x', 'x~y'), ('a', 'a_f'), ('S', 'S_f'), ('true', 'True'), ('on', 'off'), ('x', 'x_size'), ('x', 'x_excess'), ('b', 'b_busBalance')]
# names under which results of components and of all effects together are reported: such labels may be rejected
RESERVED = {'charge_state', 'netto_discharge', 'Investment', 'PreventSimultaneousUsage', 'OnOff', 'penalty', 'Segments', 'SegmentedConversion', 'on', 'off', 'totalOnHours'}


def relabel(spec, comp=None, fl=None, eff=None, bus=None):
    """new labels for components, flows (component, flow), effects, buses"""
    C, F, E, B = (comp or {}), (fl or {}), (eff or {}), (bus or {})
    s = copy.deepcopy(spec)

    def effs(v):
        if isinstance(v, dict) and 'eff' in v:
            return {'eff': [[E.get(l, l), x] for l, x in v['eff']]}
        return v

    def onoff(o):
        return None if o is None else {k: effs(v) if k in ('switch_eff', 'run_eff') else v for k, v in o.items()}

    def size(z):
        if not (isinstance(z, dict) and 'inv' in z):
            return z
        i = {k: effs(v) if k in ('fix_eff', 'spec_eff', 'div_eff') else v for k, v in z['inv'].items()}
        if i.get('seg'):
            i['seg'] = [i['seg'][0], [[E.get(l, l), v] for l, v in i['seg'][1]]]
        return {'inv': i}

    for c in s['comps']:
        L = c['label']
        R = lambda l: F.get((L, l), l)
        c['label'] = C.get(L, L)
        if c.get('factors'):
            c['factors'] = [[[R(l), x] for l, x in e] for e in c['factors']]
        if c.get('segs'):
            c['segs'] = [[R(l), x] for l, x in c['segs']]
        if isinstance(c.get('prevent'), list):
            c['prevent'] = [R(l) for l in c['prevent']]
        if c.get('onoff') is not None:
            c['onoff'] = onoff(c['onoff'])
        if 'cap' in c:
            c['cap'] = size(c['cap'])
        for f in c.get('ins', []) + c.get('outs', []):
            f['label'] = R(f['label'])
            f['bus'] = B.get(f['bus'], f['bus'])
            if f.get('onoff') is not None:
                f['onoff'] = onoff(f['onoff'])
            if 'size' in f:
                f['size'] = size(f['size'])
            if 'eff' in f:
                f['eff'] = effs(f['eff'])
    for e in s['effects']:
        e['label'] = E.get(e['label'], e['label'])
        for k in ('op_share', 'inv_share'):
            if e.get(k):
                e[k] = [[E.get(l, l), x] for l, x in e[k]]
    s['buses'] = {B.get(b, b): d for b, d in s['buses'].items()}

    def key(k):
        c, f = k.split('.', 1) if '.' in k else (k, None)
        return C.get(c, c) + ('' if f is None else '.' + F.get((c, f), f))
    for g in ('grid', 'sizes', 'c0'):
        if s.get(g):
            s[g] = {key(k): v for k, v in s[g].items()}
    return s


def systems(deep):
    E = [dict(label='k'), dict(label='c', std=True, obj=True, op_share=[['k', 2]])]
    dt = (1, 2)
    u = source('u', flow('p', 'b', inv(min=1, max=2, optional=True, fix_eff={'eff': [['c', 1], ['k', 2]]}), eff={'eff': [['k', 1]]}, onoff=dict(con_min=2, switch_eff=1, sw_max=1)))
    d = sink('d', flow('g', 'b', 1))
    s = system([u, d], dt=dt, effects=E, buses={'b': {'penalty': 3}}, grid={'u.p': [0, 1], 'd.g': [0, 1]})
    s['sizes'] = {'u.p': [0, 1, 2]}
    yield s
    S = dict(kind='Storage', label='S', cap=2, init=1, ins=[flow('c', 'b', 1)], outs=[flow('d', 'b', 1, onoff={})])
    yield system([S, source('u', flow('p', 'b', 1, eff=1))], dt=dt, effects=E, grid={'S.c': [0, 1], 'S.d': [0, 1], 'u.p': [0, 1]})
    K = dict(kind='LinearConverter', label='K', onoff=dict(on_max=2, run_eff=2), factors=[[['i', 1], ['o', 2]]], ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 1, onoff={})])
    yield system([K, source('u', flow('p', 'b', 2))], dt=dt, effects=E, buses={'b': {'penalty': None}, 'q': {'penalty': 2}}, grid={'K.i': [0, 1, 2], 'K.o': [0, 0.5, 1], 'u.p': [0, 1, 2]})
    K2 = dict(kind='LinearConverter', label='K', segs=[['i', [[0, 0], [1, 2]]], ['o', [[0, 0], [1, 1]]]], ins=[flow('i', 'b', 2)], outs=[flow('o', 'q', 1)])
    T_ = dict(kind='Transmission', label='T', rel=0.5, abs=0.25, ins=[flow('i', 'q', 1)], outs=[flow('o', 'b', 1)])
    yield system([K2, T_], dt=dt, effects=E, grid={'K.i': [0, 1, 2], 'K.o': [0, 1], 'T.i': [0, 1], 'T.o': [0, 0.25]})
    yield system([dict(kind='Component', label='X', prevent=['i', 'o'], ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)], onoff={})], dt=dt, effects=E, grid={'X.i': [0, 1], 'X.o': [0, 1]})


def variants(spec, deep):
    labels = list(dict.fromkeys(ODD + WORDS))
    comps = [c['label'] for c in spec['comps']]
    flows = {c['label']: [f['label'] for f in c.get('ins', []) + c.get('outs', [])] for c in spec['comps']}
    effs = [e['label'] for e in spec['effects']]
    buses = list(spec['buses'])
    ok = lambda l: not (l.startswith('_') or l.endswith('_') or '__' in l)
    for l in filter(ok, labels):
        for kind, names, kw in (('component', comps, lambda n: dict(comp={n: l})), ('effect', effs, lambda n: dict(eff={n: l})), ('bus', buses, lambda n: dict(bus={n: l}))):
            for n in names[: None if deep else 1]:
                if l not in set(comps + effs + buses) - {n}:
                    yield f'{kind} {n} named {l!r}', relabel(spec, **kw(n))
        for c in comps:
            for f in flows[c][: None if deep else 1]:
                if l not in set(flows[c]) - {f}:
                    yield f'flow {c}.{f} named {l!r}', relabel(spec, fl={(c, f): l})
        # everything of a kind at once
    for a, b in NEAR:
        for x, y in ((a, b), (b, a)):
            if len(comps) > 1 and not {x, y} & set(effs + buses):
                yield f'components named {x!r} and {y!r}', relabel(spec, comp={comps[0]: x, comps[1]: y})
                # label of one component made of those of the other and its flow
            if len(buses) > 1 and not {x, y} & set(effs + comps):
                yield f'buses named {x!r} and {y!r}', relabel(spec, bus={buses[0]: x, buses[1]: y})
            if not {x, y} & set(buses + comps):
                yield f'effects named {x!r} and {y!r}', relabel(spec, eff={effs[0]: x, effs[1]: y})
            for c in comps:
                if len(flows[c]) > 1:
                    yield f'flows of {c} named {x!r} and {y!r}', relabel(spec, fl={(c, flows[c][0]): x, (c, flows[c][1]): y})
    # labels that are equal once joined
    for j in ('_', '', ' ', '-', '|', '/', ':', ',', '>', '~', '#'):
        A, F, J = 'a', 'f' + j + 'g', 'a' + j + 'f'
        for c, d in itertools.permutations(comps, 2):
            yield f'components {A!r} and {J!r} with flows {F!r} and \'g\'', relabel(spec, comp={c: A, d: J}, fl={(c, flows[c][0]): F, (d, flows[d][0]): 'g'})
            yield f'components {A!r} and {J!r} with flows \'f\'', relabel(spec, comp={c: A, d: J}, fl={(c, flows[c][0]): 'f', (d, flows[d][0]): 'f'})
        for n in buses:
            yield f'component {A!r} with flow \'f\', bus {J!r}', relabel(spec, comp={comps[0]: A}, fl={(comps[0], flows[comps[0]][0]): 'f'}, bus={n: J})
        for n in effs:
            yield f'component {A!r} with flow \'f\', effect {J!r}', relabel(spec, comp={comps[0]: A}, fl={(comps[0], flows[comps[0]][0]): 'f'}, eff={n: J})
    # equal labels of flows of different components, flows named like elements
    for l in comps + effs + buses:
        yield f'flows named {l!r}', relabel(spec, fl={(c, flows[c][0]): l for c in comps if l not in flows[c][1:]})


def names(spec):
    """labels in the order of the description"""
    out = []
    for c in spec['comps']:
        out.append(c['label'])
        out += [f['label'] for f in c.get('ins', []) + c.get('outs', [])]
    return out + [e['label'] for e in spec['effects']] + list(spec['buses'])


def marked(spec):
    """the system with labels that occur nowhere else"""
    n = iter(f'zq{i}qz' for i in range(10, 99))
    comp, fl = {}, {}
    for c in spec['comps']:
        comp[c['label']] = next(n)
        for f in c.get('ins', []) + c.get('outs', []):
            fl[c['label'], f['label']] = next(n)
    return relabel(spec, comp=comp, fl=fl, eff={e['label']: next(n) for e in spec['effects']}, bus={b: next(n) for b in spec['buses']})


def paths(s):
    return collections.Counter(p for p in impl.flat(s.tree(lambda i: 0.0)))


def run(task):
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag='labels', nontrivial=0)
    a = task['spec']

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, **kw))

    base = None
    for what, b in task['variants']:
        try:
            if base is None:
                base = impl.Sys(explore.model(a)[1])
                mark = marked(a)
                plain = paths(impl.Sys(explore.model(mark)[1]))
            s = impl.Sys(explore.model(b)[1])
        except impl.HarnessError:
            raise
        except Exception as e:
            import traceback
            if what.startswith(('flow', 'effect')) and any(repr(l) in what for l in RESERVED):
                out['feeds'] += 1
                continue
            viol('build', f'({what}) {type(e).__name__}: {e}', spec=b, trace=traceback.format_exc()[-1200:])
            continue
        new = dict(zip(names(mark), names(b)))
        want = collections.Counter(tuple(re.sub('zq..qz', lambda m: new[m[0]], x) if isinstance(x, str) else x for x in p) for p in plain)
        got = paths(s)
        if want != got:
            viol('names', f'({what}) results below {sorted(got - want, key=str)[:3]} instead of {sorted(want - got, key=str)[:3]}', spec=b)
        texts, st = explore.diff(base, s, ref.Ref(a), 'the system with plain labels', f'the system with {what}', RB=ref.Ref(b))
        for t in texts:
            viol('diff', t, spec=b)
        for k, v in (('words', st['words']), ('states', st['words']), ('transitions', st['words']), ('nodes', st['nodes'])):
            out[k] += v
        out['feeds'] += 1
        out['nontrivial'] += int(st['words'] > 0)
    return out


def tasks(tier):
    deep = tier == 'thorough'
    for s in systems(deep):
        s = lists(s)
        v = list(variants(s, deep))
        for i in range(0, len(v), 20):
            yield dict(spec=s, variants=v[i:i + 20])
