from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C01', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C01', eff=False)
EX = [0, 1, 2]


def node(ns, nk, pen, dt, g, exg, order=None, same=False):
    comps, grid = [], {}
    for i in range(ns):
        comps.append(source(f's{i}', flow('f', 'b', 4)))
        grid[f's{i}.f'] = g
    for i in range(nk):
        comps.append(sink(f'k{i}', flow('f', 'b', 4)))
        grid[f'k{i}.f'] = g
    if pen is not None and exg:
        grid['b#in'] = grid['b#out'] = exg
    return system(comps, dt=dt, buses={'b': {'penalty': pen}}, grid=grid, order=order)


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (0.5, 1, 4)] + ([(1, 1, 1, 1), (2, 0.25, 1)] if deep else []):
        T = len(dt)
        pens = [None, 0, 3, {'a': [1, 5, 2, 4][:T]}, {'ts': [2, 0, 7, 1][:T]}, 100000]
        for ns, nk in [(1, 0), (0, 1), (1, 1), (2, 1), (1, 2)] + ([(2, 2), (3, 1)] if deep else []):
            for pen in pens:
                n = ns + nk
                g = [0, 1, 2, 3] if n * T <= 4 else [0, 1, 2] if n * T <= 6 else [0, 1]
                for order in (None, 'reversed'):
                    yield lang(node(ns, nk, pen, dt, g, None, order))
                if pen is not None and n * T <= 6:
                    yield lang(node(ns, nk, pen, dt, [0, 1, 2] if n == 1 or T == 2 and n == 2 else [0, 1],
                                    EX if n == 1 else [0, 1], None))
    # several buses, mixed excess
    for dt in [(1, 2), (0.5, 1)]:
        for pa, pb in [(None, 3), (3, None), (None, None), (2, {'a': [1, 4]}), ({'ts': [5, 1]}, 2), (0, 1)]:
            for order in (None, 'reversed'):
                # converter between the buses, same flow labels everywhere
                comps = [source('s', flow('Q', 'a', 4)), dict(kind='Boiler', label='B', eta=0.5, ins=[flow('Q1', 'a', 4)], outs=[flow('Q2', 'ab', 4)]),
                         sink('k', flow('Q', 'ab', 4))]
                yield lang(system(comps, dt=dt, buses={'a': {'penalty': pa}, 'ab': {'penalty': pb}}, order=order,
                                  grid={'s.Q': [0, 2, 4], 'B.Q1': [0, 2, 4], 'B.Q2': [0, 1, 2], 'k.Q': [0, 1, 2]}))
                # storage at the first, transmission to the second
                comps = [dict(kind='Storage', label='S', cap=4, init=2, prevent=False, ins=[flow('i', 'a', 2)], outs=[flow('o', 'a', 2)]),
                         dict(kind='Transmission', label='T', ins=[flow('i', 'a', 2)], outs=[flow('o', 'b', 2)]),
                         sink('k', flow('f', 'b', 2))]
                yield lang(system(comps, dt=dt, buses={'a': {'penalty': pa}, 'b': {'penalty': pb}}, order=order,
                                  grid={'S.i': [0, 1], 'S.o': [0, 1], 'T.i': [0, 1], 'T.o': [0, 1], 'k.f': [0, 1]}))
                # two flows of one component on one bus; source and sink in one
                comps = [dict(kind='SourceAndSink', label='X', prevent=False, ins=[flow('i', 'a', 2)], outs=[flow('o', 'a', 2)]),
                         dict(kind='Component', label='Y', ins=[flow('i', 'b', 2), flow('j', 'a', 2)], outs=[flow('o', 'b', 2)])]
                yield lang(system(comps, dt=dt, buses={'a': {'penalty': pa}, 'b': {'penalty': pb}}, order=order,
                                  grid={'X.i': [0, 1], 'X.o': [0, 2], 'Y.i': [0, 1], 'Y.j': [0, 1], 'Y.o': [0, 1]}))
    # several flows of one component at one bus, on the same side
    for dt in [(1, 2), (0.5, 1)]:
        for pa in [None, 2, {'a': [1, 4]}]:
            for order in (None, 'reversed'):
                for a, b in ((2, 0), (0, 2), (2, 1), (1, 2), (2, 2), (3, 0)):
                    comps = [dict(kind='Component', label='Y', ins=[flow(f'i{k}', 'a', 2) for k in range(a)], outs=[flow(f'o{k}', 'a', 2) for k in range(b)]),
                             source('s', flow('f', 'a', 2)), sink('k', flow('f', 'a', 2))]
                    g = [0, 1, 2] if a + b == 2 else [0, 1]
                    yield lang(system(comps, dt=dt, buses={'a': {'penalty': pa}}, order=order,
                                      grid={**{f'Y.i{k}': g for k in range(a)}, **{f'Y.o{k}': g for k in range(b)}, 's.f': [0, 1], 'k.f': [0, 1]}))
                # two inputs, two outputs of a converter at one bus each
                c = dict(kind='LinearConverter', label='C', factors=[[['i', 1], ['j', 1], ['o', 1], ['q', 1]]],
                         ins=[flow('i', 'a', 2), flow('j', 'a', 2)], outs=[flow('o', 'b', 2), flow('q', 'b', 2)])
                yield lang(system([c, source('s', flow('f', 'a', 4)), sink('k', flow('f', 'b', 4))], dt=dt, buses={'a': {'penalty': None}, 'b': {'penalty': pa}}, order=order,
                                  grid={'C.i': [0, 1], 'C.j': [0, 1], 'C.o': [0, 1], 'C.q': [0, 1], 's.f': [0, 1, 2], 'k.f': [0, 1, 2]}))
    # flows with other features at the bus: on/off, investment, fixed profiles
    for dt in [(1, 2), (2, 1, 1)]:
        T = len(dt)
        for pen in [None, 2, {'a': [3, 1, 2][:T]}]:
            comps = [source('s', flow('f', 'b', 2, rmin=0.5, onoff={'con_min': 2})), sink('k', flow('f', 'b', 2, fixed={'a': [0.5, 1, 0][:T]}))]
            yield lang(system(comps, dt=dt, buses={'b': {'penalty': pen}}, grid={'s.f': [0, 1, 2], 'k.f': [0, 1, 2]}))
            comps = [source('s', flow('f', 'b', inv(min=1, max=2, optional=True))), sink('k', flow('f', 'b', 2, fixed={'a': [0.5, 1, 0.5][:T]}))]
            yield lang(system(comps, dt=dt, buses={'b': {'penalty': pen}}, grid={'s.f': [0, 1, 2], 'k.f': [0, 1, 2]}, sizes={'s.f': [0, 1, 2]}))
            # negative rates are legal for flows with negative limits (fixed profile below zero)
            comps = [source('s', flow('f', 'b', 2)), sink('k', flow('f', 'b', 2, fixed={'a': [-0.5, 1, 0.5][:T]}))]
            yield lang(system(comps, dt=dt, buses={'b': {'penalty': pen}}, grid={'s.f': [0, 1, 2], 'k.f': [-1, 0, 1, 2]}))
    # steps of seconds up to months
    for s in scaled('C01'):
        yield lang(s)
