import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C08', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C08')


def tasks(tier):
    deep = tier == 'thorough'
    dts = [(1, 2)] + ([(1, 1, 1), (0.5, 2, 1)] if deep else [])
    S = [0, 0.5, 1, 2, 3, 4, 5]
    for dt in dts:
        T = len(dt)
        g = [0, 0.5, 1, 2, 3, 4] if T == 2 else [0, 1, 2, 4]
        bounds = [dict(fixed=2), dict(min=1, max=3), dict(min=2, max=4), dict(max=3), dict(min=0, max=2), dict(min=2, max=2), dict(min=1)]
        for b in bounds:
            for opt in (True, False):
                for rmin, rmax in [(None, None), (0.5, None), (None, 0.5), (0.25, 0.75), ({'a': [0.5, 0, 1][:T]}, {'ts': [1, 0.5, 1][:T]})]:
                    for oo in (None, {}, {'con_min': 2}, {'switch_eff': 1}):
                        for kind in ('Source', 'Sink'):
                            s = one(flow('f', 'b', inv(optional=opt, **b), rmin=rmin, rmax=rmax, onoff=oo), g, kind, dt=dt)
                            s['sizes'] = {'s.f': S}
                            yield lang(s)
                for fp in (0.5, {'a': [0.5, 1, 0][:T]}, {'ts': [0, 0.25, 1][:T]}):
                    s = one(flow('f', 'b', inv(optional=opt, **b), fixed=fp), g, dt=dt)
                    s['sizes'] = {'s.f': S}
                    yield lang(s)
                # limits of totals with the chosen size
                s = one(flow('f', 'b', inv(optional=opt, **b), lf_min=0.25, fh_max=6), g, dt=dt)
                s['sizes'] = {'s.f': S}
                yield lang(s)
                # storages
                for rmin, rmax in [(None, None), (0.25, None), (None, 0.5), ({'a': [0, 0.25, 0.5, 0][:T + 1]}, {'a': [1, 1, 0.75, 1][:T + 1]})]:
                    for init in (0, 1, None, 'lastValueOfSim'):
                        c = dict(kind='Storage', label='S', cap=inv(optional=opt, **b), rmin=rmin, rmax=rmax, init=init, ins=[flow('c', 'b', 4)], outs=[flow('d', 'b', 4)])
                        s = system([c], dt=dt, grid={'S.c': [0, 1, 2] if T == 2 else [0, 1], 'S.d': [0, 1] if T == 2 else [0, 1]}, sizes={'S': S}, c0={'S': [0, 1, 2]})
                        yield lang(s)
                # investment in the flows of a storage
                for pv in (True, False):
                    c = dict(kind='Storage', label='S', cap=4, init=1, prevent=pv, ins=[flow('c', 'b', inv(optional=opt, **b))], outs=[flow('d', 'b', 2)])
                    yield lang(system([c], dt=dt, grid={'S.c': [0, 1, 2] if T == 2 else [0, 1], 'S.d': [0, 1]}, sizes={'S.c': S}))
                # converters, components with on/off
                for co in (None, {}):
                    c = dict(kind='Boiler', label='B', eta=0.5, onoff=co, ins=[flow('i', 'a', 8)], outs=[flow('o', 'b', inv(optional=opt, **b), rmin=0.5)])
                    yield lang(system([c], dt=dt, grid={'B.i': [0, 1, 2, 4], 'B.o': [0, 0.5, 1, 2]}, sizes={'B.o': S}))
    # independent sizes of several elements with the same labels
    for o1, o2 in itertools.product((True, False), repeat=2):
        for order in (None, 'reversed'):
            comps = [source('x', flow('f', 'b', inv(min=1, max=2, optional=o1))), sink('y', flow('f', 'b', inv(fixed=2, optional=o2)))]
            yield lang(system(comps, order=order, grid={'x.f': [0, 1, 2], 'y.f': [0, 1, 2]}, sizes={'x.f': [0, 1, 2], 'y.f': [0, 1, 2]}))
            comps = [dict(kind='Component', label='X', ins=[flow('i', 'b', inv(min=1, max=2, optional=o1))], outs=[flow('o', 'b', inv(min=2, max=3, optional=o2))])]
            yield lang(system(comps, order=order, grid={'X.i': [0, 1, 2], 'X.o': [0, 2, 3]}, sizes={'X.i': [0, 1, 2], 'X.o': [0, 1, 2, 3]}))
    # default maximum size
    for opt in (True, False):
        for oo in (None, {}):
            s = one(flow('f', 'b', inv(min=1, optional=opt), onoff=oo), [0, 1, 1e6, 1e7, 2e7])
            s['sizes'] = {'s.f': [0, 0.5, 1, 1e6, 1e7, 2e7]}
            s['buses'] = {'b': {'penalty': 0.0}}
            yield lang(s)
    # investments in flows of every kind of component
    for opt, b, oo in itertools.product((True, False), (dict(min=1, max=2), dict(fixed=2)), (None, {}, {'con_min': 2})):
        for k in (dict(), dict(rmin=0.5, rmax={'a': [1, 0.5]})):
            for s in contexts(flow('f', 'b', inv(optional=opt, **b), onoff=oo, **k), [0, 0.5, 1, 2], sizes=[0, 1, 2], dt=(1, 2), small=True):
                yield lang(s)
