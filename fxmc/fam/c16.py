import itertools

from .common import *

PID, LEVEL, RULE, ASSUMPTIONS = 'C16', 'model_checking', LANG_RULE, LANG_ASSUMPTIONS
run = run_lang('C16')


def outs(g, rels, abss):
    o = {0.0}
    for x in g:
        for r in rels:
            for a in abss:
                if x:
                    o.add(max(0.0, x * (1 - r) - a))
                    o.add(x * (1 - r))
    return sorted(o)


def tasks(tier):
    from ..ref import series
    deep = tier == 'thorough'
    for dt in [(1, 2), (0.5, 1, 1)] + ([(1, 1, 1, 1)] if deep else []):
        T = len(dt)
        rels = [None, 0, 0.5, {'a': [0.5, 0.25, 0, 0.5][:T]}, {'ts': [0, 0.5, 0.25, 0.5][:T]}, {'ts': 0.25}]
        abss = [None, 0, 0.25, {'a': [0.25, 0, 0.5, 0.25][:T]}, {'ts': [0, 0.5, 0.25, 0][:T]}]
        for r, a in itertools.product(rels, abss):
            g = [0, 0.25, 1, 2, 4] if T == 2 else [0, 1, 4] if T == 3 else [0, 2]
            rv = sorted(set(series(r if r is not None else 0, T)))
            av = sorted(set(series(a if a is not None else 0, T)))
            go = outs(g, rv, av)
            for kw in ({}, {'onoff': {}}, {'onoff': {'con_min': 2}}):
                for fin in (dict(), dict(rmin=0.25), dict(rmin=0.25, onoff={})):
                    c = dict(kind='Transmission', label='X', rel=r, abs=a, ins=[flow('i', 'a', 4, **fin)], outs=[flow('o', 'b', 4)], **kw)
                    yield lang(system([c], dt=dt, grid={'X.i': g, 'X.o': go}))
            for b in (dict(min=1, max=4), dict(fixed=4)):
                for opt in (True, False):
                    c = dict(kind='Transmission', label='X', rel=r, abs=a, ins=[flow('i', 'a', inv(optional=opt, **b))], outs=[flow('o', 'b', 4)])
                    yield lang(system([c], dt=dt, grid={'X.i': g[-3:] + [0], 'X.o': go}, sizes={'X.i': [0, 1, 2, 4]}))
            # bidirectional
            if T == 2:
                g1, g2 = [0, 1, 2], [0, 2]
                o1, o2 = outs(g1, rv, av), outs(g2, rv, av)
                for pv in (True, False):
                    for kw in ({}, {'onoff': {}}):
                        c = dict(kind='Transmission', label='X', rel=r, abs=a, prevent=pv, ins=[flow('i1', 'a', 4), flow('i2', 'b', 2)], outs=[flow('o1', 'b', 4), flow('o2', 'a', 4)], **kw)
                        yield lang(system([c], dt=dt, grid={'X.i1': g1, 'X.i2': g2, 'X.o1': o1, 'X.o2': o2}))
                    for b in (dict(min=1, max=4), dict(fixed=2)):
                        for opt in (True, False):
                            c = dict(kind='Transmission', label='X', rel=r, abs=a, prevent=pv, ins=[flow('i1', 'a', inv(optional=opt, fix_eff=1, **b)), flow('i2', 'b', 3 if opt else None)], outs=[flow('o1', 'b', 4), flow('o2', 'a', 4)])
                            yield lang(system([c], dt=dt, grid={'X.i1': g1, 'X.i2': g2, 'X.o1': o1, 'X.o2': o2}, sizes={'X.i1': [0, 1, 2, 4]}))
    # two transmissions
    for order in (None, 'reversed'):
        cs = [dict(kind='Transmission', label=l, rel=r, abs=a, ins=[flow('i', 'a', 4)], outs=[flow('o', 'b', 4)]) for l, r, a in (('X', 0.5, None), ('Y', None, 0.5))]
        yield lang(system(cs, dt=(1, 2), order=order, grid={'X.i': [0, 1, 2], 'X.o': [0, 0.5, 1], 'Y.i': [0, 1, 2], 'Y.o': [0, 0.5, 1.5]}))
