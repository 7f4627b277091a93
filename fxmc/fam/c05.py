import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C05', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C05')


def hist(n):
    yield None
    for k in range(1, n + 1):
        for h in itertools.product((0, 1), repeat=k):
            yield {'l': list(h)}


def tasks(tier):
    deep = tier == 'thorough'
    G = [0, 1]
    # one limit at a time x history x step lengths
    dts = [((1, 1, 1, 1, 1), None), ((1, 2, 0.5, 1), None), ((2, 1, 1, 2), 0.5)] + ([((0.5, 0.5, 1, 1, 2), 2), ((1, 1, 1, 1, 1, 1), None)] if deep else [])
    for dt, pdt in dts:
        for h in hist(4 if deep else 3):
            for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
                vals = [1, 2, 3, 2.5] + ([0.5, 4, 5] if deep else [])
                vals += [{'a': [2, 1, 3, 2, 1, 2][:len(dt)]}, {'ts': [1, 3, 2, 1, 2, 3][:len(dt)]}]
                for v in vals:
                    yield lang(one(flow('f', 'b', 1, prev=h, onoff={k: v}), G, dt=dt, prev_dt=pdt))
    # pairs of limits
    for dt, pdt in dts[:2] if not deep else dts:
        for h in hist(2):
            for a, b in itertools.combinations(('con_min', 'con_max', 'coff_min', 'coff_max'), 2):
                for va, vb in [(1, 2), (2, 2), (2, 3), (3, 2), (2, 4)]:
                    if b == a.replace('min', 'max') and va > vb:
                        continue
                    yield lang(one(flow('f', 'b', 1, prev=h, onoff={a: va, b: vb}), G, dt=dt, prev_dt=pdt))
    # all four with further features that add the same auxiliary variables
    for dt in [(1, 1, 1, 1)] + ([(1, 2, 1, 0.5, 1)] if deep else []):
        for h in hist(3):
            for v in [(1, 3, 1, 3), (2, 2, 2, 2), (2, 3, 1, 2), (1, 2, 2, 4)]:
                for extra in ({}, {'sw_max': 1}, {'switch_eff': 2}, {'force': True}):
                    yield lang(one(flow('f', 'b', 1, prev=h, onoff=dict(con_min=v[0], con_max=v[1], coff_min=v[2], coff_max=v[3], **extra)), G, dt=dt))
    # previous step lengths given per step; rates of any value; scalar forms
    for dt in [(1, 1, 1, 1)]:
        for h in itertools.product((0, 3), repeat=2):
            for pdt in ({'a': [1, 3]}, {'a': [3, 0.5]}, 2):
                for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
                    for v in (1, 2, 3, 4, 5):
                        yield lang(one(flow('f', 'b', 4, prev={'l': list(h)}, onoff={k: v}), [0, 2], dt=dt, prev_dt=pdt))
                        yield lang(one(flow('f', 'b', 4, prev={'a': [float(x) for x in h]}, rmin=0.25, onoff={k: v}), [0, 2], dt=dt, prev_dt=pdt))
        for h in (0, 2, 0.5, 1e-6, -1e-7, 1e-3, {'l': [2, 1e-6]}, {'a': [2, 1e-6, 1e-3]}):
            for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
                for v in (1, 2, 3):
                    for pdt in (None, 2):
                        yield lang(one(flow('f', 'b', 4, prev=h, onoff={k: v}), [0, 2], dt=dt, prev_dt=pdt))
    # components: the state before follows from all flows
    for dt in [(1, 2, 1), (1, 1, 1, 1)]:
        for hi, ho in itertools.product([None, 0, 2, {'l': [0, 1]}, {'l': [1, 0]}, {'l': [1, 1]}, {'l': [0, 0]}], repeat=2):
            if isinstance(hi, (int, float)) and isinstance(ho, dict) or isinstance(ho, (int, float)) and isinstance(hi, dict):
                continue
            for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
                for v in (2, 3):
                    comps = [dict(kind='Component', label='X', onoff={k: v}, ins=[flow('i', 'b', 1, prev=hi)], outs=[flow('o', 'b', 1, prev=ho)])]
                    yield lang(system(comps, dt=dt, grid={'X.i': [0, 1], 'X.o': [0, 1]}))
            comps = [dict(kind='Component', label='X', onoff={'con_min': 2}, ins=[flow('i', 'b', 1, prev=hi, onoff={'coff_min': 2})], outs=[flow('o', 'b', 1, prev=ho, onoff={'con_max': 2})])]
            yield lang(system(comps, dt=dt, grid={'X.i': [0, 1], 'X.o': [0, 1]}))
    # minimum load, investment
    for h in hist(2):
        for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
            for opt in (True, False):
                s = one(flow('f', 'b', inv(min=1, max=2, optional=opt), rmin=0.5, prev=h, onoff={k: 2}), [0, 1, 2], dt=(1, 1, 1))
                s['sizes'] = {'s.f': [0, 1, 2]}
                yield lang(s)
    # the same limits for flows in every kind of component
    for dt in [(1, 1, 1)] + ([(1, 2, 1, 0.5)] if deep else []):
        for k, h in itertools.product((dict(con_min=2), dict(con_max=1), dict(coff_min=2), dict(coff_max=1), dict(con_min=2, coff_max=2)), (None, 1, {'l': [0, 1]})):
            for s in contexts(flow('f', 'b', 1, prev=h, onoff=k), [0, 1], dt=dt, small=True):
                yield lang(s)
    # steps of seconds up to months
    for s in scaled('C05'):
        yield lang(s)
