import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C11', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C11')


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (0.5, 2, 1)] + ([(1, 1, 1, 1)] if deep else []):
        T = len(dt)
        g = [0, 1, 2, 4] if T < 4 else [0, 1, 2]
        lims = [dict(op_min=2), dict(op_max=6), dict(oph_min=1), dict(oph_max=2), dict(oph_max={'a': [1, 4, 2, 1][:T]}), dict(oph_min={'ts': [1, 0, 2, 1][:T]}), dict(tot_min=5), dict(tot_max=8),
                dict(inv_min=3), dict(inv_max=4), dict(op_max=0), dict(tot_max=0), dict(inv_max=0), dict(oph_max={'ts': [2, 2, 1, 2][:T]}), dict(oph_min={'i': [0, 1, 1, 0][:T]})]
        for L in lims:
            for eff in (1, {'a': [1, 2, 0.5, 1][:T]}, -1):
                # limits on the effect itself
                if eff == -1:
                    L = {k.replace('max', 'min') if 'max' in k else k.replace('min', 'max'): (-v if not isinstance(v, dict) else {q: [-z for z in w] for q, w in v.items()}) for k, v in L.items()} if not any(k.startswith('inv') for k in L) else L
                yield lang(one(flow('f', 'b', 4, eff=eff), g, dt=dt, effects=[dict(label='c', std=True, obj=True, **L)]))
                for opt in (True, False):
                    s = one(flow('f', 'b', inv(min=1, max=4, optional=opt, spec_eff=1, fix_eff=2), eff=eff), [0, 1, 2, 4] if T == 2 else [0, 2], dt=dt, effects=[dict(label='c', std=True, obj=True, **L)])
                    s['sizes'] = {'s.f': [0, 1, 2, 4]}
                    yield lang(s)
        for L in lims:
            # limits apply including shares from other effects, for both of them
            for sh in (2, {'a': [1, 2, 3, 1][:T]}):
                for tgt in (True, False):
                    e = [dict(label='c', std=True, obj=True, **(L if tgt else {})), dict(label='k', op_share=[['c', sh]], inv_share=[['c', 2]], **({} if tgt else L))]
                    s = one(flow('f', 'b', inv(min=1, max=4, optional=True, spec_eff={'eff': [['k', 1]]}, fix_eff=1), eff={'eff': [['k', 1], ['c', 0.5]]}), [0, 1, 2] if T == 2 else [0, 2], dt=dt, effects=e)
                    s['sizes'] = {'s.f': [0, 1, 2, 4]}
                    yield lang(s)
        # pairs
        for a, b in itertools.combinations(range(len(lims)), 2):
            A, B = lims[a], lims[b]
            if set(A) & set(B):
                continue
            if not deep and (a + b) % 3 and T == 3:
                continue
            e = [dict(label='c', std=True, obj=True, **A), dict(label='k', **B)]
            s = one(flow('f', 'b', inv(min=1, max=4, optional=True, spec_eff={'eff': [['k', 1], ['c', 1]]}), eff={'eff': [['k', 1], ['c', 1]]}), [0, 1, 2] if T == 2 else [0, 2], dt=dt, effects=e)
            s['sizes'] = {'s.f': [0, 2, 4]}
            yield lang(s)
            e = [dict(label='c', std=True, obj=True, **A, **B)]
            s = one(flow('f', 'b', inv(min=1, max=4, optional=True, spec_eff=1), eff=1), [0, 1, 2] if T == 2 else [0, 2], dt=dt, effects=e)
            s['sizes'] = {'s.f': [0, 2, 4]}
            yield lang(s)
    # contributions of all kinds count
    for L in (dict(oph_max=3), dict(op_max=5), dict(tot_max=6), dict(oph_max={'a': [4, 2, 1]}), dict(op_min=4), dict(inv_max=3)):
        e = [dict(label='c', std=True, obj=True, **L)]
        comps = [source('x', flow('f', 'b', 2, rmin=0.5, onoff=dict(run_eff=1, switch_eff=2))), sink('y', flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff=2, spec_eff=1), eff=1))]
        yield lang(system(comps, dt=(1, 2, 0.5), effects=e, grid={'x.f': [0, 1], 'y.f': [0, 1]}, sizes={'y.f': [0, 1, 2]}))
    # steps of seconds up to months
    for s in scaled('C11'):
        yield lang(s)
