import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C14', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C14')

G4 = [0, 0.5, 1, 2, 4]


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (0.5, 1, 1)] + ([(1, 1, 1, 1)] if deep else []):
        T = len(dt)
        g = G4 if T == 2 else [0, 1, 2]
        vs = [1, 0.5, 2, {'a': [0.5, 1, 2, 0.5][:T]}, {'ts': [2, 0.5, 1, 2][:T]}, {'ts': 0.5}, {'l': [1, 2, 0.5, 1][:T]}, {'i': [1, 2, 1, 2][:T]}]
        oos = [None, {}, {'con_min': 2}]
        # specialised converters
        for v in vs:
            for oo in oos:
                for lim in (None, 0.5):
                    a, b = flow('in', 'a', 4), flow('out', 'b', 4, rmin=lim if oo is not None else None)
                    gr = {'C.in': g, 'C.out': g}
                    if not (isinstance(v, dict) and 'l' in v):
                        for kind, par in (('Boiler', 'eta'), ('Power2Heat', 'eta'), ('HeatPump', 'cop')):
                            yield lang(system([dict(kind=kind, label='C', ins=[a], outs=[b], onoff=oo, **{par: v})], dt=dt, grid=gr))
                        yield lang(system([dict(kind='CoolingTower', label='C', sed=v, ins=[a, flow('q', 'b', 4, rmin=lim if oo is not None else None)], outs=[], onoff=oo)], dt=dt, grid={'C.in': g, 'C.q': g}))
        e1 = [0.5, 0.25, {'a': [0.5, 0.25, 0.5, 1][:T]}, {'ts': [0.25, 0.5, 1, 0.5][:T]}]
        for a, b in itertools.product(e1, repeat=2):
            for oo in oos:
                c = dict(kind='CHP', label='C', eta_th=a, eta_el=b, onoff=oo, ins=[flow('f', 'a', 4)], outs=[flow('p', 'b', 4), flow('q', 'd', 4)])
                gg = [0, 0.5, 1, 2] if T == 2 else [0, 0.5, 1]
                yield lang(system([c], dt=dt, grid={'C.f': [0, 1, 2, 4] if T == 2 else [0, 2], 'C.p': gg, 'C.q': gg}))
        for cop in (2, 4, 1.25, {'a': [2, 4, 1.5, 3][:T]}, {'ts': [4, 2, 3, 2][:T]}, {'ts': 2}):
            for oo in oos:
                c = dict(kind='HeatPumpWithSource', label='C', cop=cop, onoff=oo, ins=[flow('p', 'a', 4), flow('q', 'b', 8)], outs=[flow('h', 'd', 8)])
                yield lang(system([c], dt=dt, grid={'C.p': [0, 1, 2, 4] if T == 2 else [0, 1], 'C.q': [0, 0.25, 1, 2, 3] if T == 2 else [0, 0.25, 1, 2, 3], 'C.h': [0, 1.25, 1.5, 2, 4] if T == 2 else [0, 1.25, 1.5, 2, 4]}))
        # general converters: several inputs/outputs/equations
        ks = [1, 2, {'a': [1, 2, 0.5, 1][:T]}, {'ts': [0.5, 1, 2, 1][:T]}]
        for u, v in itertools.product(ks + [{'l': [1, 2, 1, 2][:T]}], repeat=2):
            for oo in (None, {}):
                c = dict(kind='LinearConverter', label='C', factors=[[['i', u], ['o', v]]], onoff=oo, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)])
                yield lang(system([c], dt=dt, grid={'C.i': g, 'C.o': g}))
        for u, v, w in itertools.product(ks[:3], repeat=3):
            gg = [0, 1, 2] if T == 2 else [0, 1]
            c = dict(kind='LinearConverter', label='C', factors=[[['i', u], ['j', v], ['o', w]]], ins=[flow('i', 'a', 4), flow('j', 'b', 4)], outs=[flow('o', 'd', 8)])
            yield lang(system([c], dt=dt, grid={'C.i': gg, 'C.j': gg, 'C.o': [0, 1, 2, 3, 4, 6] if T == 2 else [0, 1, 2, 3]}))
            c = dict(kind='LinearConverter', label='C', factors=[[['i', u], ['o', v], ['q', w]]], ins=[flow('i', 'a', 8)], outs=[flow('o', 'b', 4), flow('q', 'd', 4)])
            yield lang(system([c], dt=dt, grid={'C.i': [0, 1, 2, 3, 4] if T == 2 else [0, 1, 2], 'C.o': gg, 'C.q': gg}))
            c = dict(kind='LinearConverter', label='C', factors=[[['i', u], ['o', v]], [['i', 1], ['q', w]]], ins=[flow('i', 'a', 8)], outs=[flow('o', 'b', 4), flow('q', 'd', 4)])
            yield lang(system([c], dt=dt, grid={'C.i': [0, 1, 2, 4] if T == 2 else [0, 1, 2], 'C.o': [0, 0.5, 1, 2], 'C.q': [0, 0.5, 1, 2] if T == 2 else [0, 1]}))
            # only inputs / only outputs in an equation; equations of different flows
            c = dict(kind='LinearConverter', label='C', factors=[[['i', u], ['o', v]], [['j', 2], ['o', w]]], ins=[flow('i', 'a', 8), flow('j', 'a', 8)], outs=[flow('o', 'b', 4)])
            yield lang(system([c], dt=dt, grid={'C.i': [0, 1, 2, 4] if T == 2 else [0, 1, 2], 'C.j': [0, 0.5, 1, 2] if T == 2 else [0, 1], 'C.o': [0, 1, 2]}))
    # negative factors; equations with flows of one side only; the same flow in several equations
    for dt in [(1, 2), (0.5, 1, 1)]:
        T = len(dt)
        gg = [0, 1, 2] if T == 2 else [0, 1]
        neg = [-1, -0.5, {'a': [-1, 2, -0.5][:T]}, {'ts': [0.5, -1, -2][:T]}, {'ts': -2}, {'l': [1, -1, 2][:T]}, {'n': -1}]
        for u in neg:
            for v in [1, 2, {'a': [2, 1, 1][:T]}]:
                def conv(fac, ins, outs):
                    c = dict(kind='LinearConverter', label='C', factors=fac, ins=[flow(x, 'a', 8) for x in ins], outs=[flow(x, 'b', 8) for x in outs])
                    gr = {f'C.{x}': ([0, 1, 2, 3, 4] if T == 2 and len(ins + outs) < 4 else gg) for x in ins + outs}
                    return lang(system([c], dt=dt, grid=gr))
                yield conv([[['i', v], ['o', 1], ['q', u]]], ['i'], ['o', 'q'])
                yield conv([[['i', v], ['q', u], ['o', 1]]], ['i'], ['o', 'q'])
                yield conv([[['i', 1], ['j', u], ['o', v]]], ['i', 'j'], ['o'])
                yield conv([[['o', v], ['q', u]]], ['i'], ['o', 'q'])
                yield conv([[['i', v], ['j', u]]], ['i', 'j'], ['o'])
                yield conv([[['i', 1], ['o', v]], [['o', v], ['q', u]]], ['i'], ['o', 'q'])
                yield conv([[['i', v], ['o', 1]], [['i', u], ['q', u]]], ['i'], ['o', 'q'])
                yield conv([[['i', u], ['o', u]]], ['i'], ['o'])
                # several limits as in fuel mixes: share of j in the input
                yield conv([[['i', 1], ['j', 1], ['o', v]], [['i', u], ['j', 1]]], ['i', 'j'], ['o'])
    # several converters in one system, same flow labels
    for order in (None, 'reversed'):
        for a, b in ((0.5, 0.25), ({'a': [0.5, 1]}, {'ts': [0.25, 0.5]})):
            cs = [dict(kind='Boiler', label='B1', eta=a, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)]), dict(kind='Boiler', label='B2', eta=b, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)])]
            yield lang(system(cs, dt=(1, 2), order=order, grid={'B1.i': [0, 2, 4], 'B2.i': [0, 2, 4], 'B1.o': [0, 1, 2], 'B2.o': [0, 0.5, 1]}))
            cs = [dict(kind='CHP', label='B1', eta_th=a, eta_el=b, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4), flow('q', 'b', 4)]), dict(kind='HeatPump', label='B2', cop=2, ins=[flow('i', 'b', 4)], outs=[flow('o', 'b', 4)])]
            yield lang(system(cs, dt=(1, 2), order=order, grid={'B1.i': [0, 2], 'B2.i': [0, 1], 'B1.o': [0, 0.5, 1], 'B1.q': [0, 1, 2], 'B2.o': [0, 2]}))
