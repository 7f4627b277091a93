import copy
import itertools

from .. import build, explore, impl, ref
from .common import *

PID, LEVEL = 'C32', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2]
RULE = ('a family of systems with all kinds of components, effects with shares, several conversion equations, segments and exclusive groups; for each all permutations of every list or dictionary of its description '
        '(elements, their order of adding, flows of a component, effects of a dictionary, flows of an equation, equations, segments, groups), one at a time, and all ways of adding; the '
        'description as given and the permuted one are modelled by the real code and both problems searched exhaustively: same words, same reported values')


def perms(n, cap):
    """all permutations but the identity (lists longer than cap: all rotations, transpositions and the reversal)"""
    idx = list(range(n))
    if n <= cap:
        yield from (list(p) for p in itertools.permutations(idx) if list(p) != idx)
        return
    seen = {tuple(idx)}
    for i, j in itertools.combinations(idx, 2):
        p = idx[:]
        p[i], p[j] = p[j], p[i]
        if tuple(p) not in seen:
            seen.add(tuple(p))
            yield p
    for p in [idx[k:] + idx[:k] for k in range(1, n)] + [idx[::-1]]:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            yield p


def places(spec):
    """paths of lists whose order has no meaning"""
    yield ('comps',)
    def eff(path, v):
        if isinstance(v, dict) and 'eff' in v and len(v['eff']) > 1:
            yield path + ('eff',)
    for i, c in enumerate(spec['comps']):
        free = c['kind'] in ('LinearConverter', 'Component')
        for k in ('ins', 'outs'):
            if free and len(c.get(k, [])) > 1:
                yield ('comps', i, k)
            for j, f in enumerate(c.get(k, [])):
                yield from eff(('comps', i, k, j, 'eff'), f.get('eff'))
                for o in ('switch_eff', 'run_eff'):
                    yield from eff(('comps', i, k, j, 'onoff', o), (f.get('onoff') or {}).get(o))
                s = f.get('size')
                if isinstance(s, dict):
                    for o in ('fix_eff', 'spec_eff', 'div_eff'):
                        yield from eff(('comps', i, k, j, 'size', 'inv', o), s['inv'].get(o))
                    if s['inv'].get('seg') and len(s['inv']['seg'][1]) > 1:
                        yield ('comps', i, k, j, 'size', 'inv', 'seg', 1)
        for o in ('switch_eff', 'run_eff'):
            yield from eff(('comps', i, 'onoff', o), (c.get('onoff') or {}).get(o))
        if c.get('factors'):
            if len(c['factors']) > 1:
                yield ('comps', i, 'factors')
            for j, e in enumerate(c['factors']):
                if len(e) > 1:
                    yield ('comps', i, 'factors', j)
        if c.get('segs'):
            yield ('comps', i, 'segs')
            yield ('comps', i, 'segs', '*')
        if c.get('prevent') and isinstance(c['prevent'], list):
            yield ('comps', i, 'prevent')
    for i, e in enumerate(spec['effects']):
        for k in ('op_share', 'inv_share'):
            if e.get(k) and len(e[k]) > 1:
                yield ('effects', i, k)


def apply(spec, path, p):
    s = copy.deepcopy(spec)
    at = s
    if path[-1] == '*':      # the segments of all flows of a converter alike
        for k in path[:-1]:
            at = at[k]
        for x in at:
            x[1] = [x[1][i] for i in p]
        return s
    for k in path[:-1]:
        at = at[k]
    if isinstance(at, tuple):
        raise impl.HarnessError('tuple')
    at[path[-1]] = [at[path[-1]][i] for i in p]
    return s


def length(spec, path):
    at = spec
    for k in path:
        at = at[0][1] if k == '*' else at[k]
    return len(at)


def lists(x):
    if isinstance(x, dict):
        return {k: lists(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [lists(v) for v in x]
    return x


def variants(spec, deep):
    cap = 4 if deep else 3
    for path in places(spec):
        n = length(spec, path)
        for p in perms(n, cap):
            yield '/'.join(map(str, path)) + f' in the order {p}', apply(spec, path, p)
    n = len(spec['effects']) + len(spec['comps'])
    for p in perms(n, 5 if len(spec['comps']) == 1 else cap):
        yield f'elements added in the order {p}', dict(spec, order=p)
    for how in ('one by one', 'ec', 'ce'):
        yield f'added {how}', dict(spec, add=how)
        yield f'added {how}, reversed', dict(spec, add=how, order='reversed')


def systems(deep):
    E3 = [dict(label='p', op_max=50), dict(label='k', op_share=[['p', 3], ]), dict(label='c', std=True, obj=True, op_share=[['p', {'a': [1.0, 2.0]}]], inv_share=[['p', 2], ['k', 5]])]
    E3b = [dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', 2]]), dict(label='p', op_share=[['k', 3], ['c', {'a': [1.0, 2.0]}]], inv_share=[['c', 2], ['k', 5]])]
    dt = (1, 2)
    many = {'eff': [['c', 1], ['k', {'a': [1.0, 0.5]}], ['p', 2]]}
    for E in (E3, E3b):
        yield system([source('s', flow('f', 'b', 2, eff=many, onoff=dict(switch_eff={'eff': [['k', 1], ['c', 2]]}, run_eff={'eff': [['p', 3], ['k', {'a': [1.0, 2.0]}]]}))), sink('d', flow('g', 'b', 1, eff={'eff': [[None, 2], ['k', 1]]}))],
                     dt=dt, effects=E, buses={'b': {'penalty': 3}}, grid={'s.f': [0, 1, 2], 'd.g': [0, 1]})
        s = system([source('s', flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff={'eff': [['c', 1], ['k', 2], ['p', 3]]}, spec_eff={'eff': [['k', 4], ['p', 5]]}, div_eff={'eff': [['p', 7], ['c', 6]]}))), sink('d', flow('g', 'b', 1))],
                   dt=dt, effects=E, grid={'s.f': [0, 1], 'd.g': [0, 1]})
        s['sizes'] = {'s.f': [0, 1, 2]}
        yield s
        s = system([source('s', flow('f', 'b', inv(min=0, max=4, optional=False, seg=([(0, 1), (2, 4)], [['c', [(0, 5), (7, 9)]], ['k', [(1, 2), (3, 4)]]]))))], dt=dt, effects=E, grid={'s.f': [0, 1]})
        s['sizes'] = {'s.f': [0, 1, 1.5, 2, 4]}
        yield s
    # chains of shares
    E4 = [dict(label='a', op_share=[['m', 3]], inv_share=[['m', 3]]), dict(label='m', op_share=[['c', {'a': [1.0, 2.0]}]], inv_share=[['c', 2]]), dict(label='c', std=True, obj=True)]
    E5 = [dict(label='a', op_share=[['m', 3], ['c', 1]], inv_share=[['m', 3], ['c', 1]]), dict(label='m', op_share=[['n', 2]], inv_share=[['n', 2]]), dict(label='n', op_share=[['c', 5]], inv_share=[['c', 5]]),
          dict(label='c', std=True, obj=True)]
    for E in (E4, E5):
        E = E[::-1]
        s = system([source('s', flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff={'eff': [['a', 1], ['m', 2]]}, spec_eff={'eff': [['a', 4]]}), eff={'eff': [['a', 1], ['m', 1]]}))], dt=dt, effects=E, grid={'s.f': [0, 1]})
        s['sizes'] = {'s.f': [0, 1, 2]}
        yield s
    three = [flow('i', 'b', 2), flow('j', 'b', 2), flow('l', 'q', 2)]
    g = {'K.i': [0, 1, 2], 'K.j': [0, 1, 2], 'K.l': [0, 1], 'K.o': [0, 1, 2], 'K.n': [0, 1]}
    cut = lambda c: {k: v for k, v in g.items() if k[2:] in [f['label'] for f in c['ins'] + c['outs']]}
    o, n = flow('o', 'q', 2), flow('n', 'b', 2)
    for oo in (None, dict(sw_max=1)):
        for c in (dict(kind='LinearConverter', factors=[[['i', 1], ['j', {'a': [2.0, 1.0]}], ['o', 1]]], ins=three[:2], outs=[o]),
                  dict(kind='LinearConverter', factors=[[['i', 1], ['o', {'a': [2.0, 1.0]}]], [['j', 1], ['n', 2]]], ins=three[:2], outs=[o, n]),
                  dict(kind='LinearConverter', factors=[[['i', 1], ['o', 1]], [['i', 1], ['n', 1]], [['j', 2], ['n', 1]]], ins=three[:2], outs=[o, n]),
                  dict(kind='LinearConverter', segs=[['i', [(0, 0), (1, 2)]], ['j', [(0, 0), (2, 1)]], ['o', [(0, 0), (1, 1)]]], ins=three[:2], outs=[o]),
                  dict(kind='Component', ins=three, outs=[o], prevent=['i', 'j', 'l'])):
            yield system([dict(c, label='K', onoff=oo)], dt=dt, effects=E2, grid=cut(c))
    S = dict(kind='Storage', label='S', cap=2, init=1, ins=[flow('c', 'b', 1)], outs=[flow('d', 'b', 1)])
    T_ = dict(kind='Transmission', label='T', rel=0.5, ins=[flow('i', 'b', 1)], outs=[flow('o', 'q', 1)])
    W = dict(kind='SourceAndSink', label='W', ins=[flow('x', 'q', 1)], outs=[flow('y', 'b', 1)])
    B_ = dict(kind='Boiler', label='B', eta=0.5, ins=[flow('f', 'q', 2)], outs=[flow('h', 'b', 1, onoff={'con_min': 2})])
    gg = {'S.c': [0, 1], 'S.d': [0, 1], 'T.i': [0, 1], 'T.o': [0, 0.5], 'W.x': [0, 1], 'W.y': [0, 1], 'B.f': [0, 2], 'B.h': [0, 1], 's.f': [0, 1], 'd.g': [0, 1]}
    src, snk = source('s', flow('f', 'b', 1, eff=2)), sink('d', flow('g', 'q', 1, fixed={'a': [1.0, 0.0]}))
    for pen in (None, {'a': [1.0, 2.0]}):
        for cs in ([S, T_, src], [S, W, snk], [B_, src, snk], [T_, W, B_], [S, B_, snk], [T_, src, snk], [S, T_, snk, src]):
            k = [f'{c["label"]}.{f["label"]}' for c in cs for f in c.get('ins', []) + c.get('outs', [])]
            yield system(cs, dt=dt, effects=E2, buses={'b': {'penalty': pen}, 'q': {'penalty': 2}}, grid={x: gg[x] for x in k})


def run(task):
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag='order', nontrivial=0)
    a = task['spec']

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, **kw))

    base = None
    for what, b in task['variants']:
        try:
            if base is None:
                base = impl.Sys(explore.model(a)[1])
            s = impl.Sys(explore.model(b)[1])
        except impl.HarnessError:
            raise
        except Exception as e:
            import traceback
            viol('build', f'({what}) {type(e).__name__}: {e}', spec=b, trace=traceback.format_exc()[-1200:])
            continue
        texts, st = explore.diff(base, s, ref.Ref(a), 'the system as described', f'the system with {what}')
        for t in texts:
            viol('diff', t, spec=b)
        for k, v in (('words', st['words']), ('states', st['words']), ('transitions', st['words']), ('nodes', st['nodes'])):
            out[k] += v
        out['feeds'] += 1
        out['nontrivial'] += int(st['words'] > 0)
    return out


def tasks(tier):
    deep = tier == 'thorough'
    for s in systems(deep):
        s = lists(s)
        v = list(variants(s, deep))
        for i in range(0, len(v), 10):
            yield dict(spec=s, variants=v[i:i + 10])
