import itertools

from .common import *
from .c05 import hist

PID, LEVEL, RULE, ASSUMPTIONS = 'C06', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C06', eff=True)


def tasks(tier):
    deep = tier == 'thorough'
    dts = [(1, 2, 1, 0.5), (1, 1, 1)] + ([(1, 1, 1, 1, 1, 1), (2, 1, 0.5, 1, 2)] if deep else [])
    for dt in dts:
        T = len(dt)
        effs = [None, 3, {'a': [1, 2, 4, 8, 16, 32][:T]}, {'ts': [5, 1, 2, 3, 1, 1][:T]}, {'eff': [['k', {'a': [1, 2, 3, 4, 5, 6][:T]}], ['c', 2]]}, {'eff': [[None, 4]]}, -1]
        for kind in ('Source', 'Sink'):
            for h in hist(3 if deep else 2):
                for sw in (None, 0, 1, 2):
                    for se in effs:
                        for extra in ({},) + (({'force': True}, {'con_min': 2}, {'coff_min': 2, 'run_eff': 1}) if kind == 'Source' else ()):
                            if sw is None and se is None and not extra.get('force'):
                                continue
                            yield lang(one(flow('f', 'b', 1, prev=h, onoff=dict(sw_max=sw, switch_eff=se, **extra)), [0, 1], kind, dt=dt, effects=E2))
        for h in (0, 0.5, 2, 1e-6, -1e-7, 1e-3, {'l': [2, 1e-6]}, {'a': [1e-6, 1e-3]}):
            for se in effs[1:4]:
                yield lang(one(flow('f', 'b', 2, rmin=0.25, prev=h, onoff=dict(sw_max=1, switch_eff=se)), [0, 1, 2] if T < 5 else [0, 1], dt=dt, effects=E2))
    # components
    for dt in [(1, 2, 1)]:
        hs = [None, 0, 2, -2, {'l': [0, 1]}, {'l': [1, 0]}, {'l': [0, 0]}, {'l': [1, -1]}, {'l': [0, -1]}]
        for hi, ho in itertools.product(hs, repeat=2):
            if isinstance(hi, (int, float)) and isinstance(ho, dict) or isinstance(ho, (int, float)) and isinstance(hi, dict):
                continue
            for co in ({'sw_max': 1}, {'switch_eff': 3}, {'switch_eff': {'a': [1, 2, 4]}, 'sw_max': 2}, {'force': True}):
                for fo in (None, {'switch_eff': 10}, {'sw_max': 1}):
                    comps = [dict(kind='Component', label='X', onoff=co, ins=[flow('i', 'b', 1, prev=hi, onoff=fo)], outs=[flow('o', 'b', 1, prev=ho)])]
                    yield lang(system(comps, dt=dt, effects=E2, grid={'X.i': [0, 1], 'X.o': [0, 1]}))
    # two units with the same flow labels
    for a, b in itertools.product(({'switch_eff': 1}, {'sw_max': 1}, {'force': True, 'con_min': 2}), repeat=2):
        comps = [source('x', flow('f', 'b', 1, onoff=a)), source('y', flow('f', 'b', 1, prev=1, onoff=b))]
        yield lang(system(comps, dt=(1, 1, 2), effects=E2, grid={'x.f': [0, 1], 'y.f': [0, 1]}))
    # investment and minimum load
    for opt in (True, False):
        for h in hist(1):
            for o in ({'sw_max': 1}, {'switch_eff': {'a': [1, 2, 4]}}, {'force': True}):
                s = one(flow('f', 'b', inv(min=1, max=2, optional=opt), rmin=0.5, prev=h, onoff=o), [0, 1, 2], dt=(1, 2, 1), effects=E2)
                s['sizes'] = {'s.f': [0, 1, 2]}
                yield lang(s)
    # the same parameters of flows in every kind of component
    for dt in [(1, 2, 1)] + ([(1, 2, 1, 0.5)] if deep else []):
        for k, h in itertools.product((dict(sw_max=1), dict(switch_eff={'a': [1, 2, 4, 8][:len(dt)]}), dict(force=True), dict(sw_max=1, switch_eff={'eff': [['k', 3]]}, con_min=2)), (None, 1)):
            for s in contexts(flow('f', 'b', 1, prev=h, onoff=k), [0, 1], dt=dt, small=True):
                yield lang(s)
