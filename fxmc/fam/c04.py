from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C04', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C04', eff=True)


def tasks(tier):
    deep = tier == 'thorough'
    dts = [(1, 2, 0.5), (2, 2, 2)] + ([(1, 1, 1, 1), (0.5, 3, 1, 1)] if deep else [])
    for dt in dts:
        T = len(dt)
        tot = sum(dt)
        runs = [None, 2, {'a': [1, 2, 4, 3][:T]}, {'ts': [3, 1, 2, 5][:T]}, {'eff': [['c', {'a': [1, 2, 4, 8][:T]}], ['k', 3]]}, {'eff': [[None, -2]]}, {'ts': 3}]
        # a flow
        for kind in ('Source', 'Sink'):
            for rmin in (None, 0.5, {'a': [0, 0.5, 0.25, 0.5][:T]}):
                for re in runs:
                    yield lang(one(flow('f', 'b', 2, rmin=rmin, onoff=dict(run_eff=re)), [0, 0.5, 1, 2, 3] if T < 4 else [0, 1, 2], kind, dt=dt, effects=E2))
                for omin in (None, 0, dt[0], tot - dt[-1]):
                    for omax in (None, dt[1], tot, 0):
                        if omin is not None and omax is not None and omin > omax:
                            continue
                        for extra in ({}, {'coff_min': 1}, {'force': True}, {'run_eff': 3}):
                            yield lang(one(flow('f', 'b', 2, rmin=rmin, onoff=dict(on_min=omin, on_max=omax, **extra)), [0, 0.5, 1, 2] if T < 4 else [0, 1, 2], kind, dt=dt, effects=E2))
        for opt in (True, False):
            for rmin in (None, 0.5):
                for o in ({}, {'on_min': dt[0]}, {'on_max': dt[1]}, {'run_eff': 2}, {'coff_min': 1, 'run_eff': {'a': [1, 2, 3, 4][:T]}}):
                    s = one(flow('f', 'b', inv(min=1, max=2, optional=opt), rmin=rmin, onoff=o), [0, 0.5, 1, 2] if T < 4 else [0, 1], dt=dt, effects=E2)
                    s['sizes'] = {'s.f': [0, 1, 2]}
                    yield lang(s)
        for fixed in (0.5, {'a': [0.5, 0, 1, 0.5][:T]}, {'ts': [1, 0.5, 0.5, 0][:T]}):
            for o in ({}, {'on_max': dt[1]}, {'run_eff': 2}, {'coff_max': 2}):
                yield lang(one(flow('f', 'b', 2, fixed=fixed, onoff=o), [0, 1, 2], dt=dt, effects=E2))
    # components with several flows, own on/off of the flows as well
    for dt in [(1, 2), (0.5, 1, 1)]:
        T = len(dt)
        for co in ({}, {'run_eff': 2}, {'run_eff': {'a': [1, 3, 2][:T]}}, {'on_min': dt[0]}, {'on_max': dt[1]}, {'coff_min': 1, 'run_eff': {'eff': [['k', 1], ['c', 2]]}}):
            for fo in (None, {}, {'run_eff': 5}, {'on_max': dt[0]}):
                for sizes in ((2, 2), (1, 4), (0.5, 1000)):
                    for rm in ((None, None), (0.5, None), (0.5, 0.5)):
                        gi = [0, sizes[0] / 2, sizes[0]] if T == 2 else [0, sizes[0]]
                        go = [0, sizes[1] / 2, sizes[1]] if T == 2 else [0, sizes[1]]
                        comps = [dict(kind='Component', label='X', onoff=co, ins=[flow('i', 'b', sizes[0], rmin=rm[0], onoff=fo)], outs=[flow('o', 'b', sizes[1], rmin=rm[1])])]
                        yield lang(system(comps, dt=dt, effects=E2, grid={'X.i': gi, 'X.o': go}))
            # three flows
            comps = [dict(kind='Component', label='X', onoff=co, ins=[flow('i', 'b', 1), flow('j', 'b', 2)], outs=[flow('o', 'b', 3, rmin=0.5)])]
            yield lang(system(comps, dt=dt, effects=E2, grid={'X.i': [0, 1], 'X.j': [0, 2], 'X.o': [0, 3]}))
            # converters
            comps = [dict(kind='LinearConverter', label='X', onoff=co, factors=[[['i', 1], ['o', 2]]], ins=[flow('i', 'a', 4, rmin=0.5)], outs=[flow('o', 'b', 2)])]
            yield lang(system(comps, dt=dt, effects=E2, grid={'X.i': [0, 1, 2, 4], 'X.o': [0, 0.5, 1, 2]}))
            comps = [dict(kind='CHP', label='X', onoff=co, eta_th=0.5, eta_el=0.25, ins=[flow('f', 'a', 4)], outs=[flow('p', 'b', 4, rmin=0.25), flow('q', 'd', 4, onoff={})])]
            yield lang(system(comps, dt=dt, effects=E2, grid={'X.f': [0, 2, 4], 'X.p': [0, 0.5, 1], 'X.q': [0, 1, 2]}))
            # two components with the same flow labels
            comps = [dict(kind='Component', label='X', onoff=co, outs=[flow('o', 'b', 1)], ins=[]),
                     dict(kind='Component', label='Y', onoff={'run_eff': 7}, outs=[flow('o', 'b', 2, rmin=0.5)], ins=[])]
            yield lang(system(comps, dt=dt, effects=E2, grid={'X.o': [0, 1], 'Y.o': [0, 1, 2]}))
    # the same parameters of a flow in every kind of component
    for dt in [(1, 2)] + ([(0.5, 1, 1)] if deep else []):
        T = len(dt)
        for k in (dict(on_max=1), dict(on_min=dt[1]), dict(run_eff={'a': [2, 3, 5][:T]}), dict(run_eff={'eff': [['k', 1]]}, coff_max=2)):
            for rm in (None, 0.5):
                for s in contexts(flow('f', 'b', 2, rmin=rm, onoff=k), [0, 1, 2], dt=dt, small=True):
                    yield lang(s)
    # steps of seconds up to months
    for s in scaled('C04'):
        yield lang(s)
