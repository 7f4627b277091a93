import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C15', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C15')


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (1, 0.5, 1)] + ([(1, 1, 1, 1)] if deep else []):
        T = len(dt)
        A = lambda *x: {'a': list(x)[:T]}
        TS = lambda *x: {'ts': list(x)[:T]}
        two = [
            ([[1, 2], [2, 4]], [[0.5, 1], [1, 3]]),                      # connected
            ([[1, 2], [3, 4]], [[0.5, 1], [2, 3]]),                      # gap
            ([[0, 2], [2, 4]], [[0, 1], [1, 3]]),                        # contains zero
            ([[0, 0], [2, 4]], [[0, 0], [1, 3]]),                        # single point zero
            ([[1, 1], [2, 4]], [[2, 2], [1, 3]]),                        # single point, descending
            ([[1, 3], [3, 4]], [[2, 1], [1, 1]]),                        # descending and constant
            ([[1, 4]], [[0.5, 3]]),                                      # one segment
            ([[1, 2], [1, 4]], [[0.5, 1], [2, 3]]),                      # overlapping
            ([[0, 1], [1, 2], [2, 4]], [[0, 1], [1, 1], [1, 3]]),
            ([[A(1, 0, 1, 2), A(2, 1, 2, 3)], [A(2, 1, 3, 3), A(4, 4, 4, 4)]], [[0.5, 1], [1, TS(3, 2, 3, 2)]]),
            ([[TS(0, 1, 0, 1), 2], [2, TS(4, 3, 4, 3)]], [[TS(0, 0.5, 0, 1), 1], [TS(1, 1, 2, 1), 3]]),
            ([[0, A(2, 1, 2, 1)], [A(2, 1, 2, 1), 4]], [[0, 1], [1, 3]]),
        ]
        g1 = [0, 0.5, 1, 1.5, 2, 3, 4]
        g2 = [0, 0.5, 1, 1.5, 2, 3]
        if T == 3:
            g1, g2 = [0, 1, 2, 4], [0, 0.5, 1, 2, 3]
        if T == 4:
            g1, g2 = [0, 1, 2], [0, 0.5, 1]
        for si, so in two:
            for co in (None, {}, {'con_min': 2}, {'run_eff': 2}, {'switch_eff': 1, 'sw_max': 1}):
                c = dict(kind='LinearConverter', label='C', segs=[['i', si], ['o', so]], onoff=co, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)])
                yield lang(system([c], dt=dt, grid={'C.i': g1, 'C.o': g2}))
                # own on/off parameters, minimum load of a flow
                if co is None or co == {}:
                    for fo in ({}, {'sw_max': 1}):
                        c = dict(kind='LinearConverter', label='C', segs=[['o', so], ['i', si]], onoff=co, ins=[flow('i', 'a', 4, onoff=fo, rmin=0.25)], outs=[flow('o', 'b', 4)])
                        yield lang(system([c], dt=dt, grid={'C.i': g1, 'C.o': g2}))
            # three flows: same position for all
            for co in (None, {}):
                sq = [[2, 1] for _ in si]
                c = dict(kind='LinearConverter', label='C', segs=[['i', si], ['o', so], ['q', sq]], onoff=co, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4), flow('q', 'd', 2)])
                if T == 2:
                    yield lang(system([c], dt=dt, grid={'C.i': [0, 1, 1.5, 2, 3, 4], 'C.o': [0, 0.5, 0.75, 1, 2, 3], 'C.q': [0, 1, 1.5, 2]}))
    # two converters with the same flow labels
    for co in (None, {}):
        for order in (None, 'reversed'):
            cs = [dict(kind='LinearConverter', label=l, segs=[['i', si], ['o', so]], onoff=co, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)])
                  for l, (si, so) in zip(('C', 'D'), two[:2])]
            yield lang(system(cs, dt=(1, 2), order=order, grid={k: [0, 1, 2] if k.endswith('i') else [0, 0.5, 1] for k in ('C.i', 'C.o', 'D.i', 'D.o')}))
