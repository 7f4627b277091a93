import copy

from .common import *

PID, LEVEL, ASSUMPTIONS = 'C36', 'model_checking', LANG_ASSUMPTIONS
RULE = LANG_RULE + ('; the systems of this family are all pairs and triples (thorough: also sets of four) of the features of a flow, of a storage, of a converter and of effects; the legal schedules of a combination '
                    'are those that each of its features admits')
ALL = ['C%02d' % i for i in range(1, 17)] + ['EFF', 'PEN']


def run(task):
    from .. import explore
    r = explore.compare(task['spec'], 'C36', feed=1, attribute=ALL)
    r['nontrivial'] = int(r['words'] > 0)
    r['tag'] = task['tag']
    return r


def choose(groups, k):
    """all sets of k features out of different groups -> list of names"""
    for gs in itertools.combinations(list(groups), k):
        yield from itertools.product(*[groups[g] for g in gs])


def A(*x):
    return {'a': [float(v) for v in x]}


# features of one flow; each: group -> name -> (keys of the flow, keys of its on/off parameters)
FLOW = {
    'low': {'rmin': (dict(rmin=0.5), {}), 'rmins': (dict(rmin=A(0.5, 0, 1)), {})},
    'high': {'rmaxs': (dict(rmax=A(1, 0.5, 1)), {}), 'fixed': (dict(fixed=A(0.5, 1, 0)), {})},
    'fmax': {'fh_max': (dict(fh_max=3), {}), 'fh_max loose': (dict(fh_max=5), {})},
    'fmin': {'fh_min': (dict(fh_min=2), {}), 'fh_min loose': (dict(fh_min=1), {})},
    'lmax': {'lf_max': (dict(lf_max=0.5), {}), 'lf_max loose': (dict(lf_max=0.75), {})},
    'lmin': {'lf_min': (dict(lf_min=0.25), {})},
    'hours': {'on_max': ({}, dict(on_max=2)), 'on_min': ({}, dict(on_min=1.5))},
    'con': {'con_min': ({}, dict(con_min=2)), 'con_max': ({}, dict(con_max=A(2, 1, 3)))},
    'coff': {'coff_min': ({}, dict(coff_min=A(2, 1.5, 2))), 'coff_max': ({}, dict(coff_max=2))},
    'sw': {'sw_max': ({}, dict(sw_max=1)), 'force': ({}, dict(force=True))},
    'sweff': {'switch_eff': ({}, dict(switch_eff={'eff': [['k', 2], ['c', A(1, 0, 3)]]}))},
    'run': {'run_eff': ({}, dict(run_eff={'eff': [['k', A(1, 2, 0)]]}))},
    'prev': {'was on': (dict(prev=A(0, 1)), {}), 'was off': (dict(prev=A(1, 0, 0)), {})},
    'eff': {'eff': (dict(eff={'eff': [['c', 1], ['k', A(2, 1, 3)]]}), {}), 'plain': (dict(eff=2), {})},
    'inv': {'opt': (dict(size=inv(min=1, max=2, optional=True, fix_eff={'eff': [['c', 3], ['k', 1]]}, div_eff=2)), {}),
            'must': (dict(size=inv(min=1, max=2, optional=False, spec_eff={'eff': [['k', 3]]}, fix_eff=1)), {}),
            'fixsize': (dict(size=inv(fixed=2, optional=True, spec_eff=1)), {}),
            'seg': (dict(size=inv(min=0, max=2, optional=True, seg=([(0, 1), (1, 2)], [['c', [(0, 2), (2, 5)]], ['k', [(1, 1), (1, 3)]]]))), {})},
    'lim': {'op_max': 'e', 'tot_max': 'e', 'oph_max': 'e', 'op_min': 'e'},
}
LIM = {'op_max': ('k', dict(op_max=4)), 'tot_max': ('c', dict(tot_max=5)), 'oph_max': ('k', dict(oph_max=A(2, 1, 3))), 'op_min': ('c', dict(op_min=1))}


def find(groups, n):
    return next(g[n] for g in groups.values() if n in g)


def effects(lims):
    E = copy.deepcopy(E2)
    for l in lims:
        k, d = LIM[l]
        next(e for e in E if e['label'] == k).update(d)
    return E


def flow_system(names, dt, kind='Source'):
    f, oo, lims = dict(size=2), None, []
    for n in names:
        x = find(FLOW, n)
        if x == 'e':
            lims.append(n)
            continue
        f.update(copy.deepcopy(x[0]))
        if x[1]:
            oo = {**(oo or {}), **copy.deepcopy(x[1])}
    if 'fixed' in names and 'inv' in [g for g in FLOW for n in names if n in FLOW[g]] and oo is not None:
        return None         # the profile is followed whether on or not (C02)
    size = f.pop('size')
    kw = dict(sizes={'s.f': [0, 1, 2]}) if isinstance(size, dict) else {}
    return one(flow('f', 'b', size, onoff=oo, **f), [0, 1, 2], kind, dt=dt, effects=effects(lims), **kw)


STO = {
    'cap': {'cap': dict(cap=4), 'opt': dict(cap=inv(min=2, max=4, optional=True, fix_eff=3, div_eff={'eff': [['k', 1]]})), 'must': dict(cap=inv(min=2, max=4, optional=False, spec_eff={'eff': [['c', 1], ['k', 2]]}))},
    'init': {'one': dict(init=1), 'free': dict(init=None), 'last': dict(init='lastValueOfSim')},
    'fmin': {'fmin': dict(fmin=1), 'fmin high': dict(fmin=2)},
    'fmax': {'fmax': dict(fmax=1.5)},
    'eta_c': {'eta_c': dict(eta_c=0.5), 'etas_c': dict(eta_c=A(1, 0.5))},
    'eta_d': {'eta_d': dict(eta_d=0.5), 'etas_d': dict(eta_d=A(0.5, 1))},
    'loss': {'loss': dict(loss=0.25), 'losses': dict(loss=A(0.5, 0))},
    'rmin': {'rmin': dict(rmin=0.25), 'rmins': dict(rmin=A(0, 0.25, 0.25))},
    'rmax': {'rmax': dict(rmax=0.5), 'rmaxs': dict(rmax=A(1, 0.5, 0.75))},
    'prevent': {'both': dict(prevent=False)},
    'cflow': {'c onoff': dict(C=dict(onoff=dict(con_min=2))), 'c low': dict(C=dict(rmin=0.5)), 'c max': dict(C=dict(fh_max=2)), 'c inv': dict(C=dict(size=inv(min=1, max=2, optional=True, spec_eff=1))),
              'c eff': dict(C=dict(eff={'eff': [['k', 1]]}))},
    'dflow': {'d onoff': dict(D=dict(onoff=dict(switch_eff=1))), 'd lf': dict(D=dict(lf_max=0.5)), 'd fix': dict(D=dict(fixed=A(0, 0.5)))},
}


def storage_system(names, dt):
    S = dict(kind='Storage', label='S', cap=4, init=1)
    C, D = dict(size=2), dict(size=2)
    for n in names:
        d = copy.deepcopy(find(STO, n))
        C.update(d.pop('C', {}))
        D.update(d.pop('D', {}))
        S.update(d)
    sizes = {}
    if isinstance(S['cap'], dict):
        sizes['S'] = [0, 2, 4]
    cs = C.pop('size')
    if isinstance(cs, dict):
        sizes['S.c'] = [0, 1, 2]
    S['ins'], S['outs'] = [flow('c', 'b', cs, **C)], [flow('d', 'b', D.pop('size'), **D)]
    kw = dict(sizes=sizes) if sizes else {}
    if S['init'] in (None, 'lastValueOfSim'):
        kw['c0'] = {'S': [0, 1, 2]}
    return system([S], dt=dt, effects=copy.deepcopy(E2), grid={'S.c': [0, 1, 2], 'S.d': [0, 1]}, **kw)


# converter: own on/off parameters and features of its flows
CONV = {
    'own': {'on_max': dict(O=dict(on_max=2)), 'con_min': dict(O=dict(con_min=2)), 'coff_min': dict(O=dict(coff_min=2)), 'sw_max': dict(O=dict(sw_max=1)), 'run': dict(O=dict(run_eff=1, switch_eff={'eff': [['k', 2]]})), 'plain': dict(O={})},
    'second': {'con_max': dict(O=dict(con_max=2)), 'coff_max': dict(O=dict(coff_max=2)), 'force': dict(O=dict(force=True)), 'on_min': dict(O=dict(on_min=1))},
    'form': {'factors': dict(factors=[[['i', A(0.5, 1, 0.5)], ['o', 1]]]), 'segs': dict(segs=[['i', [(0, 0), (1, 2)]], ['o', [(0, 0), (1, 1)]]])},
    'i on': {'i con': dict(I=dict(onoff=dict(con_min=2))), 'i plain': dict(I=dict(onoff={})), 'i sw': dict(I=dict(onoff=dict(switch_eff=1, sw_max=1)))},
    'o on': {'o coff': dict(X=dict(onoff=dict(coff_max=2))), 'o run': dict(X=dict(onoff=dict(run_eff={'eff': [['k', 1]]})))},
    'i': {'i low': dict(I=dict(rmin=0.5)), 'i fh': dict(I=dict(fh_max=3)), 'i eff': dict(I=dict(eff=1)), 'i prev': dict(I=dict(prev=A(1, 0)))},
    'o': {'o high': dict(X=dict(rmax=A(1, 0.5, 1))), 'o lf': dict(X=dict(lf_min=0.25)), 'o fix': dict(X=dict(fixed=A(0.5, 0, 0.5))), 'o prev': dict(X=dict(prev=A(0, 1)))},
}


def converter_system(names, dt):
    c = dict(kind='LinearConverter', label='X')
    I, O, X = dict(), None, dict()
    for n in names:
        d = copy.deepcopy(find(CONV, n))
        if 'O' in d:
            O = {**(O or {}), **d.pop('O')}
        for k, t in (('I', I), ('X', X)):
            x = d.pop(k, {})
            if 'onoff' in x and 'onoff' in t:
                x['onoff'] = {**t['onoff'], **x['onoff']}
            t.update(x)
        c.update(d)
    if 'factors' not in c and 'segs' not in c:
        c['factors'] = [[['i', 0.5], ['o', 1]]]
    if 'prev' in I and 'prev' in X:
        pass
    if O is not None:
        c['onoff'] = O
    c['ins'], c['outs'] = [flow('i', 'a', 2, **I)], [flow('o', 'b', 2, **X)]
    return system([c], dt=dt, effects=copy.deepcopy(E2), grid={'X.i': [0, 1, 2], 'X.o': [0, 0.5, 1, 2]})


# the parameters of an investment, of a flow or of a storage; together with features of the element
INV = {
    'size': {'range': dict(I=dict(min=1, max=2)), 'fixed': dict(I=dict(fixed=2)), 'upper': dict(I=dict(max=2))},
    'opt': {'must': dict(I=dict(optional=False))},
    'fix': {'fix': dict(I=dict(fix_eff=2)), 'fixes': dict(I=dict(fix_eff={'eff': [['c', 3], ['k', 1]]}))},
    'div': {'div': dict(I=dict(div_eff=2)), 'divs': dict(I=dict(div_eff={'eff': [['k', 2]]}))},
    'spec': {'spec': dict(I=dict(spec_eff=1)), 'specs': dict(I=dict(spec_eff={'eff': [['k', 3], ['c', 1]]}))},
    'seg': {'segs': dict(I=dict(seg=([(0, 1), (1, 2)], [['c', [(0, 2), (2, 5)]], ['k', [(1, 1), (1, 3)]]])))},
    'on': {'on': dict(F=dict(onoff={})), 'sw': dict(F=dict(onoff=dict(switch_eff=1)))},
    'low': {'low': dict(F=dict(rmin=0.5)), 'lows': dict(F=dict(rmin=A(0.5, 0, 1)))},
    'prof': {'prof': dict(F=dict(fixed=A(0.5, 1, 0)))},
    'lf': {'lf_min': dict(F=dict(lf_min=0.25)), 'lf_max': dict(F=dict(lf_max=0.5)), 'lf_max loose': dict(F=dict(lf_max=0.75)), 'fh': dict(F=dict(fh_max=3)), 'fhmin': dict(F=dict(fh_min=1))},
    'lim': {'inv_max': 'c', 'k tot': 'k'},
}


def invest_systems(names, dt):
    """the flow and (if possible) the storage with these parameters"""
    I, F, E = dict(max=2, optional=True), {}, copy.deepcopy(E2)
    for n in names:
        d = copy.deepcopy(find(INV, n))
        if isinstance(d, str):
            next(e for e in E if e['label'] == d).update({'c': dict(inv_max=4), 'k': dict(tot_max=3)}[d])
            continue
        F.update(d.get('F', {}))
        I.update(d.get('I', {}))
    if 'fixed' in I:
        I.pop('max', None)
        if 'seg' in I:
            return
    if 'fixed' in F and 'onoff' in F:
        return
    yield one(flow('f', 'b', inv(**I), **F), [0, 1, 2], dt=dt, effects=copy.deepcopy(E), sizes={'s.f': [0, 1, 2]})
    if not set(F) - {'onoff', 'rmin'} and 'sw' not in names:
        S = dict(kind='Storage', label='S', cap=inv(**I), init=0, ins=[flow('c', 'b', 2)], outs=[flow('d', 'b', 1)], prevent='onoff' in F)
        if 'rmin' in F:
            S.update(init=None, rmin=0.25)
        yield system([S], dt=dt[:2], effects=E, grid={'S.c': [0, 1, 2], 'S.d': [0, 1]}, sizes={'S': [0, 1, 2]}, **({'c0': {'S': [0, 1]}} if 'rmin' in F else {}))


TRANS = {
    'rel': {'rel': dict(rel=0.5), 'rels': dict(rel=A(0.5, 0))},
    'abs': {'abs': dict(abs=0.25), 'abss': dict(abs=A(0.5, 0.25))},
    'two': {'two': dict(two=True), 'two free': dict(two=True, prevent=False)},
    'inv': {'opt': dict(I=dict(size=inv(min=1, max=2, optional=True, fix_eff=2))), 'must': dict(I=dict(size=inv(min=1, max=2, optional=False, spec_eff={'eff': [['k', 1]]})))},
    'own': {'plain': dict(O={}), 'con': dict(O=dict(con_min=2)), 'sw': dict(O=dict(switch_eff=1))},
    'i': {'i on': dict(I=dict(onoff=dict(coff_min=2))), 'i eff': dict(I=dict(eff={'eff': [['k', 1]]})), 'i fh': dict(I=dict(fh_max=2))},
    'o': {'o lf': dict(X=dict(lf_max=0.25)), 'o on': dict(X=dict(onoff=dict(run_eff=1))), 'o high': dict(X=dict(rmax=A(0.25, 1)))},
}


def transmission_system(names, dt):
    c = dict(kind='Transmission', label='X')
    I, X, O, two = dict(size=2), dict(), None, False
    for n in names:
        d = copy.deepcopy(find(TRANS, n))
        two = d.pop('two', two)
        if 'O' in d:
            O = {**(O or {}), **d.pop('O')}
        I.update(d.pop('I', {}))
        X.update(d.pop('X', {}))
        c.update(d)
    if O is not None:
        c['onoff'] = O
    s = I.pop('size')
    c['ins'], c['outs'] = [flow('i', 'a', s, **I)], [flow('o', 'b', 2, **X)]
    grid = {'X.i': [0, 1, 2], 'X.o': sorted({0, 0.25, 0.5, 0.75, 1, 1.5, 1.75, 2})}
    if two:
        c['ins'].append(flow('j', 'b', None if isinstance(s, dict) else 1))
        c['outs'].append(flow('p', 'a', 2))
        grid.update({'X.i': [0, 1], 'X.o': [0, 0.25, 0.5, 0.75, 1], 'X.j': [0, 1], 'X.p': [0, 0.25, 0.5, 0.75, 1]})
    if isinstance(s, dict) and O is not None:
        pass
    return system([c], dt=dt, effects=copy.deepcopy(E2), grid=grid, **(dict(sizes={'X.i': [0, 1, 2]}) if isinstance(s, dict) else {}))


EFF = {
    'share': {'op_share': dict(k=dict(op_share=[['c', 2]])), 'op_shares': dict(k=dict(op_share=[['c', A(1, 0, 2)], ['z', 1]])), 'chain': dict(k=dict(op_share=[['z', 1]]), z=dict(op_share=[['c', A(1, 2, 0)]]))},
    'ishare': {'inv_share': dict(k=dict(inv_share=[['c', 2]])), 'inv_chain': dict(k=dict(inv_share=[['z', 1]]), z=dict(inv_share=[['c', 3]]))},
    'c op': {'c op_max': dict(c=dict(op_max=4)), 'c op_min': dict(c=dict(op_min=2))},
    'c inv': {'c inv_max': dict(c=dict(inv_max=4)), 'c inv_min': dict(c=dict(inv_min=3))},
    'c tot': {'c tot_max': dict(c=dict(tot_max=6)), 'c tot_min': dict(c=dict(tot_min=5))},
    'c oph': {'c oph_max': dict(c=dict(oph_max=A(2, 3, 1))), 'c oph_min': dict(c=dict(oph_min=A(0, 1, 0)))},
    'z': {'z op_max': dict(z=dict(op_max=2)), 'z tot_max': dict(z=dict(tot_max=3)), 'z oph_max': dict(z=dict(oph_max=1)), 'z inv_max': dict(z=dict(inv_max=1))},
    'k': {'k op_max': dict(k=dict(op_max=2)), 'k tot_min': dict(k=dict(tot_min=2)), 'k inv_max': dict(k=dict(inv_max=1))},
}


def effect_system(names, dt):
    E = {'c': dict(label='c', std=True, obj=True), 'z': dict(label='z'), 'k': dict(label='k')}
    for n in names:
        for l, d in copy.deepcopy(find(EFF, n)).items():
            E[l].update(d)
    f = flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff={'eff': [['k', 1], ['c', 1]]}, spec_eff={'eff': [['z', 1]]}), eff={'eff': [['c', 1], ['k', A(1, 0, 1)]]})
    return system([source('s', f)], dt=dt, effects=[E['c'], E['z'], E['k']], grid={'s.f': [0, 1, 2]}, sizes={'s.f': [0, 1, 2]})


def padded(x, T, key=None, at=1):
    """the data with further values: two more, the given ones start at position `at`"""
    if isinstance(x, dict):
        if set(x) == {'a'} and key != 'prev' and len(x['a']) == T:
            return {'a': [0.75] * at + x['a'] + [0.75] * (2 - at)}
        return {k: padded(v, T, k, at) for k, v in x.items()}
    if isinstance(x, list):
        return [padded(v, T, key, at) for v in x]
    return x


def stretched(x, T, key=None):
    """the same data for T steps (arrays are repeated), previous values stay"""
    if isinstance(x, dict):
        if set(x) == {'a'}:
            return x if key == 'prev' else {'a': [x['a'][i % len(x['a'])] for i in range(T)]}
        return {k: stretched(v, T, k) for k, v in x.items()}
    if isinstance(x, list):
        return [stretched(v, T, key) for v in x]
    return x


def longer(s, dt):
    """the system with repeated data on other steps, or None"""
    if s is None or any(isinstance(c.get(k), dict) for c in s['comps'] if c['kind'] == 'Storage' for k in ('rmin', 'rmax')):
        return None
    w = stretched({k: s[k] for k in ('effects', 'comps', 'buses')}, len(dt))
    return {**s, **w, 'dt': list(dt)}


def operation_only(kinds=('flow', 'storage', 'converter'), dt=(1,) * 6, k=2):
    """systems with pairs of features, without investments (e.g. for calculations in parts)"""
    def free(g):
        return {a: {n: v for n, v in b.items() if 'inv(' not in str(v) and "'optional'" not in str(v)} for a, b in g.items()}
    for kind in kinds:
        groups, make = {'flow': (FLOW, flow_system), 'storage': (STO, storage_system), 'converter': (CONV, converter_system)}[kind]
        for names in choose(free(groups), k):
            s = longer(make(names, dt[:3] if kind != 'storage' else dt[:2]), dt)
            if s:
                yield kind, names, s


def windowed(s):
    """the same system as a window of a longer one (the values outside are not those inside)"""
    T = len(s['dt'])
    if any(isinstance(c.get(k), dict) for c in s['comps'] if c['kind'] == 'Storage' for k in ('rmin', 'rmax')):
        return None
    w = padded({k: s[k] for k in ('effects', 'comps', 'buses')}, T)
    return {**s, **w, 'dt': [4] + s['dt'] + [3], 'prev_dt': s['dt'][0], 'window': list(range(1, T + 1))}


SCALED = ('size', 'prev', 'fh_min', 'fh_max', 'switch_eff', 'run_eff', 'min', 'max', 'fixed', 'fix_eff', 'div_eff', 'cap', 'init', 'fmin', 'fmax', 'abs', 'op_min', 'op_max', 'inv_min', 'inv_max',
          'tot_min', 'tot_max', 'oph_min', 'oph_max')


def magnified(s, q):
    """the same system in other units of power: all amounts times q"""
    def num(x):
        if isinstance(x, dict):
            return {k: num(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [num(v) for v in x]
        return x * q if isinstance(x, (int, float)) and not isinstance(x, bool) else x

    def go(x, inside=None):
        if isinstance(x, list):
            return [go(v, inside) for v in x]
        if not isinstance(x, dict):
            return x
        out = {}
        for k, v in x.items():
            if k == 'size' and isinstance(v, dict) or k == 'cap' and isinstance(v, dict):
                out[k] = go(v, 'inv')
            elif k in ('segs', 'seg'):
                out[k] = num(v)
            elif k in SCALED and not (k == 'fixed' and inside != 'inv'):
                out[k] = num(v)
            else:
                out[k] = go(v, inside)
        return out

    w = go({k: s[k] for k in ('effects', 'comps', 'buses')})
    return {**s, **w, **{k: num(s[k]) for k in ('grid', 'sizes', 'c0') if k in s}}


LIMITS = [('op_max', 'op_min'), ('inv_max', 'inv_min'), ('tot_max', 'tot_min'), ('oph_max', 'oph_min')]


def negated(s):
    """the same system with revenues instead of costs"""
    def num(x):
        if isinstance(x, dict) and 'eff' in x:
            return {'eff': [[l, num(v)] for l, v in x['eff']]}
        if isinstance(x, dict):
            return {k: num(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [num(v) for v in x]
        return -x if isinstance(x, (int, float)) and not isinstance(x, bool) else x

    def go(x):
        if isinstance(x, list):
            return [go(v) for v in x]
        if not isinstance(x, dict):
            return x
        out = {}
        for k, v in x.items():
            if k in ('eff', 'switch_eff', 'run_eff', 'fix_eff', 'spec_eff', 'div_eff'):
                out[k] = num(v)
            elif k == 'seg' and v:
                out[k] = [v[0], [[l, num(y)] for l, y in v[1]]]
            else:
                out[k] = go(v)
        return out

    E = []
    for e in s['effects']:
        e2 = {k: v for k, v in e.items() if k not in [x for p in LIMITS for x in p]}
        for a, b in LIMITS:
            for x, y in ((a, b), (b, a)):
                if x in e:
                    e2[y] = num(e[x])
        E.append(e2)
    w = {**s, 'comps': go(s['comps']), 'effects': E}
    return None if w == s else w


def lengths(tier):
    """every feature (and pairs) on horizons of two to five (thorough: seven) steps, also as a window at either end"""
    deep = tier == 'thorough'
    for kind, (groups, make, n) in {'flow': (FLOW, flow_system, 3), 'storage': (STO, storage_system, 2), 'converter': (CONV, converter_system, 3), 'transmission': (TRANS, transmission_system, 2),
                                    'effects': (EFF, effect_system, 3)}.items():
        for k in (1, 2):
            for names in choose(groups, k):
                s = make(names, (1, 2, 0.5)[:n])
                for T in (2, 4, 5, 6, 7) if deep else (2, 4, 5) if k == 1 else (2,):
                    if T > 4 and kind in ('storage', 'transmission') or T > 5 and (k == 2 or len(s['grid']) > 1) or T == 2 and n == 2 and k == 2:
                        continue
                    w = longer(s, ((1, 2, 0.5, 1) * 2)[:T]) if s else None
                    if w is None:
                        continue
                    yield dict(spec=w, tag=kind + f' on {T} steps')
                    for i in (0, 2) if T == 2 else ():     # the first or the last two of four steps
                        v = padded({x: w[x] for x in ('effects', 'comps', 'buses')}, 2, at=i)
                        yield dict(spec={**w, **v, 'dt': [3, 3] * (i // 2) + [1, 2] + [3, 3] * (1 - i // 2), 'prev_dt': 1, 'window': [i, i + 1]}, tag=kind + ' on two of four steps')


def tasks(tier):
    yield from plain(tier)
    yield from lengths(tier)
    for t in plain('quick' if tier == 'thorough' else 'pairs'):
        for q in (1000, 0.01):
            yield dict(spec=magnified(t['spec'], q), tag=t['tag'] + f' times {q}')
    for t in plain('quick' if tier == 'thorough' else 'pairs'):
        s = negated(t['spec'])
        if s:
            yield dict(spec=s, tag=t['tag'] + ' with revenues')
    for t in plain('quick' if tier == 'thorough' else 'pairs'):
        s = windowed(t['spec'])
        if s:
            yield dict(spec=s, tag=t['tag'] + ' in a window')


def plain(tier):
    deep = tier == 'thorough'
    for k in {'pairs': (2,), 'quick': (2, 3), 'thorough': (2, 3, 4)}[tier]:
        for names in choose(FLOW, k):
            for kind in ('Source', 'Sink') if k == 2 else ('Source',):
                s = flow_system(names, (1, 2, 0.5), kind)
                if s:
                    yield dict(spec=s, tag='flow ' + str(k))
        for names in choose(STO, k):
            if not deep and k == 3 and len({n[0] for n in names if n[:2] in ('c ', 'd ')}) == 2:
                continue
            yield dict(spec=storage_system(names, (1, 2)), tag='storage ' + str(k))
        for names in choose(CONV, k):
            yield dict(spec=converter_system(names, (1, 2, 0.5)), tag='converter ' + str(k))
        for names in choose(INV, k):
            for s in invest_systems(names, (1, 2, 0.5)):
                yield dict(spec=s, tag='investment ' + str(k))
        for names in choose(TRANS, k):
            yield dict(spec=transmission_system(names, (1, 2)), tag='transmission ' + str(k))
        for names in choose(EFF, k):
            # the order of effects matters for shares: targets come first
            yield dict(spec=effect_system(names, (1, 2, 0.5)), tag='effects ' + str(k))
