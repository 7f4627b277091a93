import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C09', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C09', eff=True)

SEGS = [
    ([[1, 2], [2, 4]], [['c', [[2, 3], [3, 9]]]]),
    ([[1, 2], [3, 4]], [['c', [[2, 3], [7, 5]]]]),                   # gap
    ([[0, 2], [2, 4]], [['c', [[0, 3], [3, 9]]], ['k', [[5, 1], [1, 8]]]]),
    ([[1, 4]], [['k', [[2, 8]]]]),
    ([[2, 2], [3, 4]], [['c', [[6, 6], [7, 8]]]]),                   # single point
    ([[1, 2], [2, 4]], [['c', [[2, 3], [5, 9]]]]),                   # jump
    ([[0, 2], [2, 4]], [['c', [[-3, -1], [-1, 2]]], ['k', [[0, -4], [-4, -9]]]]),   # subsidies
    ([[0, 1], [1, 3], [3, 4]], [['c', [[0, 4], [4, 6], [6, 7]]], ['k', [[0, 0], [0, 2], [2, 10]]]]),
]


def tasks(tier):
    deep = tier == 'thorough'
    S = [0, 1, 1.5, 2, 2.5, 3, 4]
    vals = [None, 3, {'eff': [['c', 2], ['k', 5]]}, {'eff': [[None, 4]]}, {'eff': [['k', -1]]}]
    dts = [(1, 2)] + ([(2, 1), (0.5, 1, 1)] if deep else [])
    for dt in dts:
        T = len(dt)
        for b in (dict(min=1, max=4), dict(fixed=2), dict(max=4)):
            for opt in (True, False):
                def sys1(kind='flow', effects=E2, **kw):
                    if kind == 'flow':
                        s = one(flow('f', 'b', inv(optional=opt, **b, **kw)), [0, 1], dt=dt, effects=effects)
                        s['sizes'] = {'s.f': S}
                    else:
                        c = dict(kind='Storage', label='S', cap=inv(optional=opt, **b, **kw), ins=[flow('c', 'b', 4)], outs=[flow('d', 'b', 4)])
                        s = system([c], dt=dt, effects=effects, grid={'S.c': [0, 1], 'S.d': [0]}, sizes={'S': S})
                    return lang(s)

                for f, sp, dv in itertools.product(vals, repeat=3):
                    yield sys1(fix_eff=f, spec_eff=sp, div_eff=dv)
                    if dt == (1, 2):
                        yield sys1('storage', fix_eff=f, spec_eff=sp, div_eff=dv)
                if 'fixed' in b:
                    continue
                for seg in SEGS:
                    yield sys1(seg=seg)
                    yield sys1('storage', seg=seg)
                    for f, sp, dv in [(3, None, None), (None, {'eff': [['k', 2]]}, None), (None, None, 5), ({'eff': [['c', 1], ['k', 2]]}, 2, {'eff': [['k', 7]]}), (2, 1, None)]:
                        yield sys1(seg=seg, fix_eff=f, spec_eff=sp, div_eff=dv)
                        # with shares between the effects
                        e = [{'label': 'c', 'std': True, 'obj': True}, {'label': 'k', 'inv_share': [['c', 3]], 'op_share': [['c', 2]]}]
                        yield sys1(seg=seg, fix_eff=f, spec_eff=sp, div_eff=dv, effects=e)
    # fixed size that does not fit the segments; operation next to it
    for opt in (True, False):
        for seg in SEGS:
            for oo in (None, {}):
                s = one(flow('f', 'b', inv(optional=opt, min=1, max=4, seg=seg), eff=2, onoff=oo), [0, 1, 2, 4], effects=E2, dt=(1, 2))
                s['sizes'] = {'s.f': [0, 1, 2, 3, 4]}
                yield lang(s)
    # several investments at once, same labels, sum up per effect
    for o1, o2 in itertools.product((True, False), repeat=2):
        for k1, k2 in itertools.product((dict(fix_eff=3), dict(spec_eff={'eff': [['k', 2], ['c', 1]]}), dict(div_eff=4), dict(seg=SEGS[0]), dict(seg=SEGS[2], div_eff=1)), repeat=2):
            comps = [source('x', flow('f', 'b', inv(min=1, max=4, optional=o1, **k1))), sink('y', flow('f', 'b', inv(min=1, max=4, optional=o2, **k2)))]
            yield lang(system(comps, dt=(1, 1), effects=E2, grid={'x.f': [0, 1], 'y.f': [0]}, sizes={'x.f': S, 'y.f': [0, 1, 2, 4]}))
            comps = [dict(kind='Storage', label='S', cap=inv(min=1, max=4, optional=o1, **k1), ins=[flow('c', 'b', inv(min=1, max=4, optional=o2, **k2))], outs=[flow('d', 'b', 4)])]
            yield lang(system(comps, dt=(1, 1), effects=E2, grid={'S.c': [0, 1], 'S.d': [0]}, sizes={'S': S, 'S.c': [0, 1, 2, 4]}))
    # investments in flows of every kind of component
    for opt, k in itertools.product((True, False), (dict(fix_eff=3), dict(spec_eff={'eff': [['k', 2], ['c', 1]]}), dict(div_eff=4), dict(seg=SEGS[0]), dict(fix_eff={'eff': [['k', 1]]}, spec_eff=2, div_eff={'eff': [['c', 5]]}))):
        for s in contexts(flow('f', 'b', inv(min=1, max=4, optional=opt, **k)), [0, 1], sizes=S, dt=(1, 1), small=True):
            yield lang(s)
