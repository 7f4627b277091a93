from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C02', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C02')


def tasks(tier):
    deep = tier == 'thorough'
    G = [0, 0.5, 1, 1.5, 2, 3, 4, 5]
    for dt in [(1, 2)] + ([(0.5, 1, 2)] if deep else []):
        T = len(dt)
        g = G if T == 2 else [0, 1, 2, 4, 5]
        rmins = [None, 0, 0.25, {'a': [0.25, 0.5, 0][:T]}, {'ts': [0.5, 0.25, 1][:T]}, {'l': [0, 0.5, 0.25][:T]}, {'ts': 0.25}, {'i': [0, 1, 0][:T]}]
        rmaxs = [None, 1, 0.5, 1.25, {'a': [0.5, 1, 1.25][:T]}, {'ts': [1, 0.5, 1.25][:T]}, {'i': [1, 1, 1][:T]}, {'l': [0.5, 1, 1][:T]}]
        from ..ref import series
        for kind in ('Source', 'Sink'):
            for a in rmins:
                for b in rmaxs:
                    if any(x > y for x, y in zip(series(a or 0, T), series(1 if b is None else b, T))):
                        continue
                    for oo in (None, {}, {'con_min': 2}):
                        yield lang(one(flow('f', 'b', 4, rmin=a, rmax=b, onoff=oo), g, kind, dt=dt))
                    for opt in (False, True):
                        for oo in (None, {}):
                            s = one(flow('f', 'b', inv(min=2, max=4, optional=opt), rmin=a, rmax=b, onoff=oo), [0, 0.5, 1, 2, 4, 5], kind, dt=dt)
                            s['sizes'] = {'s.f': [0, 2, 4]}
                            yield lang(s)
            for p in [0.5, 0, {'a': [0.25, 0.5, 1][:T]}, {'ts': [0.5, 0, 0.25][:T]}, {'a': [1, 0, 1.25][:T]}, {'l': [0.25, 1, 1][:T]}, {'i': [1, 0, 1][:T]},
                      {'a': [-0.25, 0.5, 0][:T]}]:
                neg = isinstance(p, dict) and 'a' in p and p['a'][0] < 0
                gg = ([-2, -1] + g) if neg else g
                yield lang(one(flow('f', 'b', 4, fixed=p), gg, kind, dt=dt))
                yield lang(one(flow('f', 'b', 4, fixed=p, rmin=0.25, rmax=0.75), gg, kind, dt=dt))   # the profile decides
                if not neg:
                    yield lang(one(flow('f', 'b', 4, fixed=p, onoff={}), gg, kind, dt=dt))
                for opt in (False, True):
                    s = one(flow('f', 'b', inv(min=2, max=4, optional=opt), fixed=p), [0, 0.5, 1, 1.5, 2, 4, 5] + ([-0.5, -1] if neg else []), kind, dt=dt)
                    s['sizes'] = {'s.f': [0, 2, 4]}
                    yield lang(s)
                s = one(flow('f', 'b', inv(fixed=4, optional=True), fixed=p), [0, 1, 2, 4, 5] + ([-1] if neg else []), kind, dt=dt)
                s['sizes'] = {'s.f': [0, 2, 4]}
                yield lang(s)
        # sizes: none given, zero, fractional, large
        for size, gg in [(None, [0, 1, 5e6, 1e7, 1.5e7]), (0, [0, 1]), (0.5, [0, 0.25, 0.5, 0.75]), (1e4, [0, 1, 5000, 1e4, 2e4])]:
            for oo in (None, {}):
                for rmin in (None, 0.5):
                    for rmax in (None, 0.75):
                        if size == 0 and oo is not None:
                            continue
                        if size is None and rmin and oo is None:
                            gg2 = gg
                        s = one(flow('f', 'b', size, rmin=rmin, rmax=rmax, onoff=oo), gg, dt=dt)
                        if size is None:
                            s['buses'] = {'b': {'penalty': 0.0}}
                        yield lang(s)
    # several flows with own limits in one component and in several components with the same labels
    for a, b in [(0.25, 0.5), ({'a': [0.25, 0.5]}, {'ts': [0.5, 0]}), (0, {'a': [0.5, 1]})]:
        for order in (None, 'reversed'):
            comps = [dict(kind='Component', label='X', ins=[flow('i', 'b', 4, rmin=a), flow('j', 'b', 2, rmax=b)], outs=[flow('o', 'b', 2, fixed=b)])]
            yield lang(system(comps, grid={'X.i': [0, 1, 2, 4], 'X.j': [0, 1, 2], 'X.o': [0, 1, 2]}, order=order))
            comps = [source('x', flow('f', 'b', 4, rmin=a)), sink('y', flow('f', 'b', 2, rmax=b)), source('z', flow('f', 'b', 2, fixed=a))]
            yield lang(system(comps, grid={'x.f': [0, 1, 2, 4], 'y.f': [0, 1, 2], 'z.f': [0, 0.5, 1, 2]}, order=order))
            comps = [dict(kind='Component', label='X', onoff={}, ins=[flow('i', 'b', 4, rmin=a)], outs=[flow('o', 'b', 2, rmin=0.5, rmax={'a': [1, 0.5]})])]
            yield lang(system(comps, grid={'X.i': [0, 1, 2, 4], 'X.o': [0, 0.5, 1, 2]}, order=order))
    # the same limits in every kind of component
    for dt in [(1, 2)] + ([(0.5, 1, 1)] if deep else []):
        T = len(dt)
        for k in (dict(), dict(rmin=0.5, onoff={}), dict(rmax={'a': [0.5, 1, 0.5][:T]}), dict(fixed={'a': [0.5, 1, 0.5][:T]}), dict(fixed={'ts': [1, 0, 0.5][:T]}, onoff={}), dict(rmin={'a': [0, 0.5, 0.5][:T]}, rmax=0.75)):
            for s in contexts(flow('f', 'b', 2, **k), [0, 0.5, 1, 1.5, 2, 3] if T == 2 else [0, 1, 2, 3], dt=dt, small=True):
                yield lang(s)
