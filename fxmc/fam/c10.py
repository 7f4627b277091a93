import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C10', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C10', eff=True)


def graphs(T, deep):
    """effect systems: targets are defined before the effects that pass on shares"""
    fs = [2, -1, {'a': [1, 3, 2, 4][:T]}, {'ts': [0.5, 2, 1, 3][:T]}, 0]
    for f in fs:
        for g in (None, 3, -2, 0):
            yield [dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', f]], inv_share=[['c', g]] if g is not None else None)]
            yield [dict(label='c', obj=True), dict(label='k', std=True, op_share=[['c', f]], inv_share=[['c', g]] if g is not None else None)]
    for f, g in itertools.product(fs[:4], repeat=2):
        # chain p -> k -> c, fork p -> {k, c}, join {p, k} -> c, both
        yield [dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', f]], inv_share=[['c', 2]]), dict(label='p', op_share=[['k', g]], inv_share=[['k', 3]])]
        yield [dict(label='c', std=True, obj=True), dict(label='k'), dict(label='p', op_share=[['k', g], ['c', f]], inv_share=[['c', 3]])]
        yield [dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', f]]), dict(label='p', op_share=[['c', g]], inv_share=[['k', 3], ['c', 5]])]
        yield [dict(label='c', obj=True), dict(label='k', std=True, op_share=[['c', f]]), dict(label='p', op_share=[['k', g], ['c', 4]], inv_share=[['k', 3]])]
    yield [dict(label='c', std=True, obj=True), dict(label='k'), dict(label='p')]
    if deep:
        for f, g, h in itertools.product(fs[:3], repeat=3):
            yield [dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', f]], inv_share=[['c', 2]]),
                   dict(label='p', op_share=[['k', g]], inv_share=[['k', 3]]), dict(label='q', op_share=[['p', h], ['c', 1]], inv_share=[['p', 1]])]


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (0.5, 1, 3)] + ([(1, 1, 1, 1)] if deep else []):
        T = len(dt)
        ea = {'eff': [['c', 1], ['k', {'a': [2, 5, 1, 3][:T]}]]}
        for e in graphs(T, deep):
            e = [clean(x) for x in e]
            last = e[-1]['label']
            if e[-1].get('std'):
                last = 'c'
            std = next(x['label'] for x in e if x.get('std'))
            oth = 'k' if std != 'k' else 'c'
            eb = {'eff': [[last, {'ts': [1, 4, 2, 5][:T]}], [None, 3]]}
            for order in (None, 'reversed'):
                if order and any(x.get('op_share') or x.get('inv_share') for x in e) and T == 3 and not deep:
                    continue
                comps = [source('x', flow('f', 'b', 2, eff=ea)), sink('y', flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff={'eff': [[last, 5]]}, spec_eff={'eff': [[oth, 2], [None, 1]]}, div_eff=7), eff=eb))]
                yield lang(system(comps, dt=dt, effects=e, order=order, grid={'x.f': [0, 1, 2] if T == 2 else [0, 2], 'y.f': [0, 1]}, sizes={'y.f': [0, 1, 2]}))
                comps = [source('x', flow('f', 'b', 2, rmin=0.5, eff=eb, onoff=dict(run_eff=ea, switch_eff=eb))),
                         dict(kind='Component', label='y', onoff=dict(run_eff=eb), ins=[flow('f', 'b', 1, eff=ea)], outs=[])]
                yield lang(system(comps, dt=dt, effects=e, order=order, grid={'x.f': [0, 1, 2] if T == 2 else [0, 2], 'y.f': [0, 1]}))
    # contributions of one element in all places and forms
    for dt in [(1, 2), (2, 0.5, 1)]:
        T = len(dt)
        fm = [3, -2, 0, {'a': [1, 4, 2][:T]}, {'ts': [2, 0, 5][:T]}, {'ts': 3}, {'i': [1, 2, 3][:T]}]
        for v in fm:
            for where in ('std', 'c', 'k', 'ck', None):
                ev = v if where == 'std' else {'eff': [[w if w != 'x' else None, v] for w in {'c': ['c'], 'k': ['k'], 'ck': ['c', 'k'], None: [None]}[where]]}
                yield lang(one(flow('f', 'b', 2, eff=ev), [0, 0.5, 1, 2] if T == 2 else [0, 1, 2], dt=dt, effects=E2))
                yield lang(one(flow('f', 'b', 2, rmin=0.5, eff=ev, onoff=dict(run_eff=ev, switch_eff=ev)), [0, 1, 2], dt=dt, effects=E2))
                c = dict(kind='Boiler', label='B', eta=0.5, ins=[flow('Q', 'a', 4, eff=ev)], outs=[flow('P', 'b', 4, eff=ev)], onoff=dict(run_eff=ev))
                yield lang(system([c], dt=dt, effects=E2, grid={'B.Q': [0, 2, 4], 'B.P': [0, 1, 2]}))
                c = dict(kind='Storage', label='S', cap=4, init=1, ins=[flow('Q', 'a', 4, eff=ev)], outs=[flow('P', 'b', 4, eff=ev)])
                yield lang(system([c], dt=dt, effects=E2, grid={'S.Q': [0, 1], 'S.P': [0, 1]}))
        # investments: signs, several effects, mandatory and optional
        for opt, fixed in itertools.product((True, False), repeat=2):
            for fv, sv, dv in itertools.product((3, -2, 0, {'eff': [['c', -1], ['k', 4]]}), (None, -3, {'eff': [['k', -2], [None, 5]]}), (None, -4, {'eff': [['k', 6]]})):
                i = inv(fixed=2, optional=opt, fix_eff=fv, spec_eff=sv, div_eff=dv) if fixed else inv(min=1, max=2, optional=opt, fix_eff=fv, spec_eff=sv, div_eff=dv)
                if T == 2:
                    s = one(flow('f', 'b', i), [0, 1, 2], dt=dt, effects=E2)
                    s['sizes'] = {'s.f': [0, 1, 2]}
                    yield lang(s)
    # more elements, many contributions to the same effect
    for n in (3,):
        for order in (None, 'reversed'):
            comps = [source(f's{i}', flow('f', 'b', 1, eff={'eff': [['c', i + 1], ['k', {'a': [1, i]}]]})) for i in range(n)]
            yield lang(system(comps, dt=(1, 2), effects=E2, order=order, grid={f's{i}.f': [0, 1] for i in range(n)}))
    # contributions of flows in every kind of component
    for ev in (3, {'a': [2, 5]}, {'eff': [['k', {'a': [1, 4]}], ['c', 2]]}):
        for k in (dict(eff=ev), dict(eff=ev, onoff=dict(run_eff=ev, switch_eff=ev))):
            for s in contexts(flow('f', 'b', 2, **k), [0, 1, 2], dt=(1, 2), small=True):
                yield lang(s)
    # steps of seconds up to months
    for s in scaled('C10'):
        yield lang(s)
