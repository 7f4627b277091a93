from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C03', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C03')


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (0.5, 1, 4), (2, 0.5)] + ([(1, 1, 1, 1), (3, 0.5, 0.25)] if deep else []):
        T = len(dt)
        tot = sum(dt)
        g = [0, 1, 2, 3, 4] if T < 4 else [0, 2, 4]
        for kind in ('Source', 'Sink'):
            for L in prod(fh_min=[None, 0, tot], fh_max=[None, tot, 2.5 * tot], lf_min=[None, 0.25, 0.5], lf_max=[None, 0.5, 0.75, 1]):
                yield lang(one(flow('f', 'b', 4, **L), g, kind, dt=dt))
                if deep or (L['fh_min'] is None or L['fh_max'] is None):
                    yield lang(one(flow('f', 'b', 4, onoff={}, rmin=0.25, **L), g, kind, dt=dt))
            for L in prod(fh_min=[None, tot], fh_max=[None, 2 * tot], lf_min=[None, 0.25, 0.5], lf_max=[None, 0.5, 0.75]):
                for opt in (True, False):
                    for oo in (None, {}):
                        s = one(flow('f', 'b', inv(min=1, max=4, optional=opt), onoff=oo, **L), [0, 1, 2, 4] if T < 4 else [0, 2], kind, dt=dt)
                        s['sizes'] = {'s.f': [0, 1, 2, 4]}
                        yield lang(s)
                s = one(flow('f', 'b', inv(fixed=4, optional=False), **L), [0, 1, 2, 4] if T < 4 else [0, 2], kind, dt=dt)
                s['sizes'] = {'s.f': [4]}
                yield lang(s)
        for z in prod(fh_min=[None, 0], fh_max=[None, 0], lf_min=[None, 0, 1], lf_max=[None, 0]):
            if 0 in z.values():
                for size in (4, inv(min=1, max=4, optional=True), inv(min=0, max=4, optional=False), inv(fixed=2, optional=True)):
                    for oo in (None, {}):
                        s = one(flow('f', 'b', size, onoff=oo, **z), [0, 1, 4] if T < 4 else [0, 2], dt=dt)
                        if isinstance(size, dict):
                            s['sizes'] = {'s.f': [0, 1, 2, 4]}
                        yield lang(s)
    # limits of different flows are independent; limits next to a fixed profile
    for dt in [(1, 2), (0.5, 2)]:
        tot = sum(dt)
        for a, b in [(dict(fh_max=tot), dict(lf_min=0.5)), (dict(lf_max=0.5), dict(fh_min=2)), (dict(lf_min=0.25, lf_max=0.5), dict(fh_min=1, fh_max=3))]:
            comps = [dict(kind='Component', label='X', ins=[flow('i', 'b', 4, **a)], outs=[flow('o', 'b', 2, **b)])]
            yield lang(system(comps, dt=dt, grid={'X.i': [0, 1, 2, 4], 'X.o': [0, 1, 2]}))
            comps = [source('x', flow('f', 'b', 4, **a)), source('y', flow('f', 'b', 2, **b))]
            yield lang(system(comps, dt=dt, grid={'x.f': [0, 1, 2, 4], 'y.f': [0, 1, 2]}))
            comps = [dict(kind='Storage', label='S', cap=8, init=4, prevent=False, ins=[flow('i', 'b', 4, **a)], outs=[flow('o', 'b', 2, **b)])]
            yield lang(system(comps, dt=dt, grid={'S.i': [0, 1, 2, 4], 'S.o': [0, 1, 2]}))
    # the same limits in every kind of component
    for dt in [(1, 2)] + ([(0.5, 1, 1)] if deep else []):
        for k in (dict(fh_max=2), dict(fh_min=3), dict(lf_max=0.5), dict(lf_min=0.5), dict(fh_min=1, lf_max=0.75, onoff={})):
            for s in contexts(flow('f', 'b', 2, **k), [0, 1, 2], dt=dt, small=True):
                yield lang(s)
    # steps of seconds up to months
    for s in scaled('C03'):
        yield lang(s)
