import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C07', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C07')


def tasks(tier):
    deep = tier == 'thorough'
    dts = [(1, 2), (0.5, 1)] + ([(1, 1, 1)] if deep else [])
    for dt in dts:
        T = len(dt)
        # generic components: every group of at least two of three or four flows
        for n in (2, 3) + ((4,) if deep and T == 2 else ()):
            names = 'ijkl'[:n]
            groups = [None] + [g for r in range(2, n + 1) for g in itertools.combinations(names, r)]
            for nin in range(0, n + 1):
                for g in groups:
                    for fo in (None, {}, {'con_min': 2}):
                        for co in (None, {}):
                            for rm in (None, 0.5):
                                fl = [flow(x, 'b', s, rmin=rm if q == 0 and fo is not None else None, onoff=fo if q == 0 else None) for q, (x, s) in enumerate(zip(names, (1, 2, 1, 4)))]
                                comps = [dict(kind='Component', label='X', onoff=co, ins=fl[:nin], outs=fl[nin:], prevent=list(g) if g else None)]
                                gr = {f'X.{x}': ([0, s / 2, s] if n == 2 else [0, s]) for x, s in zip(names, (1, 2, 1, 4))}
                                if T == 3 and n >= 3:
                                    continue
                                yield lang(system(comps, dt=dt, grid=gr))
        for prevent in (True, False):
            for fo in (None, {}, {'sw_max': 1}):
                for rm in (None, 0.5):
                    for rest in ({}, {'fh_max': 2}, {'prev': 1}):
                        a, b = flow('i', 'b', 2, onoff=fo, rmin=rm if (fo is not None or prevent) else None, **rest), flow('o', 'b', 4)
                        yield lang(system([dict(kind='SourceAndSink', label='X', prevent=prevent, ins=[a], outs=[b])], dt=dt, grid={'X.i': [0, 1, 2], 'X.o': [0, 2, 4]}))
                        yield lang(system([dict(kind='Storage', label='X', cap=100, init=50, prevent=prevent, ins=[a], outs=[b])], dt=dt, grid={'X.i': [0, 1, 2], 'X.o': [0, 2, 4]}))
            # investment in the flows of the group
            for opt in (True, False):
                for kind in ('SourceAndSink', 'Storage'):
                    a, b = flow('i', 'b', inv(min=1, max=2, optional=opt)), flow('o', 'd', 2)
                    c = dict(kind=kind, label='X', prevent=prevent, ins=[a], outs=[b])
                    if kind == 'Storage':
                        c.update(cap=100, init=50)
                    yield lang(system([c], dt=dt, grid={'X.i': [0, 1, 2], 'X.o': [0, 1, 2]}, sizes={'X.i': [0, 1, 2]}))
            # bidirectional transmissions
            for rel, ab in ((None, None), (0.5, None), (None, 0.5), (0.5, 0.25), (None, {'a': [0.5, 0, 1][:T]})):
                ins = [flow('i1', 'a', 4), flow('i2', 'b', 4)]
                outs = [flow('o1', 'b', 4), flow('o2', 'a', 4)]
                c = dict(kind='Transmission', label='X', rel=rel, abs=ab, prevent=prevent, ins=ins, outs=outs)
                go = sorted({0, 2, 1, 4, 1.5, 3.5, 0.5, 0.75, 1.75, 3})
                if T == 2:
                    yield lang(system([c], dt=dt, grid={'X.i1': [0, 2, 4], 'X.i2': [0, 2], 'X.o1': go, 'X.o2': go}))
        # two groups in two components; groups do not interfere
        comps = [dict(kind='SourceAndSink', label='X', ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)]),
                 dict(kind='SourceAndSink', label='Y', ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)])]
        for pv in itertools.product((True, False), repeat=2):
            cs = [dict(c, prevent=p) for c, p in zip(comps, pv)]
            for order in (None, 'reversed'):
                yield lang(system(cs, dt=dt[:2], grid={k: [0, 1] for k in ('X.i', 'X.o', 'Y.i', 'Y.o')}, order=order))
    # exclusivity holds in every step of longer horizons
    for dt in [(1, 1, 1, 1)]:
        for prevent in (True, False):
            yield lang(system([dict(kind='SourceAndSink', label='X', prevent=prevent, ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)])], dt=dt, grid={'X.i': [0, 1], 'X.o': [0, 1]}))
