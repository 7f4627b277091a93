import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C13', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C13')


def st(dt, gi, go, cap=4, fi=None, fo=None, c0=(0, 1, 2, 4, 5), sizes=None, **kw):
    c = dict(kind='Storage', label='S', cap=cap, ins=[fi or flow('c', 'b', 4)], outs=[fo or flow('d', 'b', 4)], **kw)
    s = system([c], dt=dt, grid={'S.c': gi, 'S.d': go}, c0={'S': list(c0)})
    if sizes:
        s['sizes'] = {'S': sizes}
    return lang(s)


def tasks(tier):
    deep = tier == 'thorough'
    for dt in [(1, 2), (1, 1, 1), (0.5, 2, 1)] + ([(1, 1, 1, 1), (2, 0.5, 1, 1)] if deep else []):
        T = len(dt)
        gi, go = ([0, 1, 2, 4], [0, 0.5, 1, 2]) if T == 2 else ([0, 1, 2], [0, 1]) if T == 3 else ([0, 1], [0, 1])
        etas = [(None, None), (0.5, None), (None, 0.5), (0.5, 0.25), ({'a': [0.5, 1, 0.25, 0.5][:T]}, None), (None, {'ts': [0.5, 1, 0.5, 0.25][:T]}), ({'ts': [1, 0.5, 1, 0.25][:T]}, {'a': [1, 0.5, 0.25, 0.5][:T]})]
        losses = [None, 0.25, {'a': [0.25, 0.125, 0, 0.5][:T]}, {'ts': [0, 0.25, 0.125, 0.25][:T]}]
        for (ec, ed), ls in itertools.product(etas, losses):
            for init in (0, 2, None, 'lastValueOfSim'):
                for pv in (True, False):
                    yield st(dt, gi, go, eta_c=ec, eta_d=ed, loss=ls, init=init, prevent=pv)
        lim = [(None, None), (0.25, None), (None, 0.75), ({'a': [0.25, 0.5, 0, 0.25, 0.5][:T + 1]}, None), (None, {'a': [1, 0.5, 0.75, 1, 0.5][:T + 1]}), ({'a': [0, 0, 0, 0, 0.25][-T - 1:]}, {'ts': [1, 1, 1, 1, 0.5][-T - 1:]})]
        fins = [(None, None), (2, None), (None, 1), (1, 3), (2, 2), (0, 4), (None, 0)]
        for (a, b), (fm, fM) in itertools.product(lim, fins):
            for init in (0, 1, 2, None, 'lastValueOfSim'):
                for ls in (None, 0.25):
                    yield st(dt, gi, go, rmin=a, rmax=b, fmin=fm, fmax=fM, init=init, loss=ls)
        # initial state at the border or outside of the limits
        for init in (4, 5, 3, 0):
            for a, b in [(None, None), (0.25, 0.75), (None, {'a': [0.5] + [1] * T})]:
                yield st(dt, gi, go, rmin=a, rmax=b, init=init)
        # capacity as investment
        for opt in (True, False):
            for init in (0, 1, None, 'lastValueOfSim'):
                for b in (dict(min=1, max=4), dict(fixed=2), dict(max=4)):
                    for a in (None, 0.25):
                        for fm, fM in ((None, None), (1, 2)):
                            yield st(dt, gi[:3], go[:2], cap=inv(optional=opt, **b), init=init, rmin=a, fmin=fm, fmax=fM, c0=(0, 0.5, 1, 2), sizes=[0, 1, 2, 4])
        # on/off and limits of the flows
        for fi, fo in [(flow('c', 'b', 2, rmin=0.5, onoff={}), None), (None, flow('d', 'b', 2, onoff={'con_min': 2})), (flow('c', 'b', 2, fixed={'a': [0.5, 0, 1, 0][:T]}), None),
                       (flow('c', 'b', inv(min=1, max=2, optional=False)), None)]:
            for pv in (True, False):
                for init in (1, None):
                    if fi and 'fixed' in fi and pv:
                        continue
                    k = st(dt, gi, go, fi=fi, fo=fo, prevent=pv, init=init, eta_c=0.5)
                    if fi and isinstance(fi.get('size'), dict):
                        k['spec']['sizes'] = {'S.c': [1, 2]}
                        k['spec']['grid']['S.c'] = [0, 1, 2]
                    yield k
    # two storages
    for i1, i2 in itertools.product((0, 1, None, 'lastValueOfSim'), repeat=2):
        for order in (None, 'reversed'):
            cs = [dict(kind='Storage', label=l, cap=cap, init=i, eta_c=e, loss=ls, ins=[flow('c', 'b', 2)], outs=[flow('d', 'b', 2)]) for l, cap, i, e, ls in (('S', 2, i1, 0.5, None), ('R', 4, i2, 1, 0.25))]
            yield lang(system(cs, dt=(1, 2), order=order, grid={'S.c': [0, 1], 'S.d': [0, 1], 'R.c': [0, 1], 'R.d': [0, 1]}, c0={'S': [0, 1, 3], 'R': [0, 2]}))
    # steps of seconds up to months
    for s in scaled('C13'):
        yield lang(s)
