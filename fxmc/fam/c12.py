import itertools

import numpy as np

from .. import build, explore, impl, ref
from .common import *

PID, LEVEL, ASSUMPTIONS = 'C12', 'model_checking', LANG_ASSUMPTIONS[1:] + ['HiGHS as installed']
RULE = ('two kinds of cases, both enumerated completely: (a) language comparison as for C01-C11 watching the objective; (b) small systems with discrete decisions solved '
        'by HiGHS through the real code: the reference enumerates every schedule over the grid and the reported objective must not exceed the least legal cost, and the '
        'reported schedule must be legal and cost exactly the reported objective')


def run(task):
    if 'spec' in task:
        r = explore.compare(task['spec'], 'C12', feed=1)
        r['tag'] = 'objective'
        return r
    return solve(task['solve'])


def solve(spec):
    import flixOpt as fx
    out = dict(viol=[], tag='optimum', feeds=0)
    R = ref.Ref(spec)
    acc = R.explore()
    out.update(states=R.stats['states'], transitions=R.stats['transitions'], words=R.stats['words'])
    k = len(R.obs) - 1
    assert R.obs[k][0] == (('Objective',), 0)
    best = min((lo[k], w) for w, (lo, hi) in acc.items()) if acc else None
    b = build.build(spec)
    c = fx.FullCalculation('c', b.fs, time_indices=spec.get('window'))
    c.do_modeling()

    def viol(text, **kw):
        out['viol'].append(dict(kind='optimum', text=text, spec=spec, **kw))

    try:
        c.solve(fx.solvers.HighsSolver(0.0, 100, False, threads=1))
        res = impl.numeric(c.results())
    except Exception as e:
        if best is not None:
            viol(f'no solution reported ({type(e).__name__}: {e}) although there is a schedule of cost {best[0]:g}', schedule=explore.word_text(R, best[1]))
        return out
    out['feeds'] = 1
    obj = float(res[('Objective',)][0])
    if best is None:
        return out        # the grid contains no legal schedule: nothing to compare with
    if obj > best[0] + 1e-4 * max(1, abs(best[0])):
        viol(f'reports {obj:.6g} as optimum, but there is a legal schedule of cost {best[0]:.6g}', schedule=explore.word_text(R, best[1]))
    # the reported schedule

    def q(v):
        r = round(float(v), 5)
        return r + 0.0

    vals = [q(res[p][t]) if p in res else None for (p, t), g in R.choices]
    head = tuple(vals[:R.head])
    n = len(R.letter_grids)
    xs = [tuple(vals[R.head + t * n:R.head + (t + 1) * n]) for t in range(R.T)]
    tol, refmod_tol = 2e-4, ref.TOL
    ref.TOL = tol
    try:
        tags, lo, hi = R.judge(head, xs)
    finally:
        ref.TOL = refmod_tol
    if tags:
        viol(f'the reported schedule violates {sorted(tags)}', schedule=dict(head=head, steps=xs))
        return out
    if not (lo[k] - 1e-3 * max(1, abs(obj)) <= obj <= hi[k] + 1e-3 * max(1, abs(obj))) and R.exact_excess or lo[k] > obj + 1e-3 * max(1, abs(obj)):
        viol(f'reports the objective {obj:.6g} for a schedule that costs {lo[k]:.6g}', schedule=dict(head=head, steps=xs))
    if abs(lo[k] - obj) > 1e-3 * max(1, abs(obj)):
        viol(f'reports the objective {obj:.6g} for a schedule that costs at least {lo[k]:.6g}', schedule=dict(head=head, steps=xs))
    for qq, (key, tg, d, req) in enumerate(R.obs):
        if key[0] in res and key[0][0] in ('Effects',) and d == 3 and 'C09' not in tg:
            v = float(res[key[0]][key[1]])
            t = 2e-3 * max(1, abs(v))
            if not lo[qq] - t <= v <= hi[qq] + t:
                viol(f'reports {explore.show(key)} = {v:.6g}, the schedule gives {lo[qq]:.6g}', schedule=dict(head=head, steps=xs))
    out['sample'] = dict(objective=obj, reference_minimum=best[0])
    return out


def tasks(tier):
    deep = tier == 'thorough'
    # (a) what is minimised
    eff = [
        [dict(label='c', std=True, obj=True)],
        [dict(label='k', std=True), dict(label='c', obj=True)],
        [dict(label='k', obj=True), dict(label='c', std=True)],
        [dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', 3]], inv_share=[['c', {'ts': 2}]])],
        [dict(label='c', obj=True), dict(label='k', std=True, op_share=[['c', {'a': [2, 5, 1, 1]}]], inv_share=[['c', 4]])],
        [dict(label='c', obj=True), dict(label='k', op_share=[['c', -2]]), dict(label='p', std=True, op_share=[['k', 3]], inv_share=[['k', 1], ['c', 2]])],
    ]
    for dt in [(1, 2), (0.5, 1, 2)] + ([(1, 1, 1, 1)] if deep else []):
        T = len(dt)
        for e in eff:
            e = [clean(dict(x, inv_share=None if x.get('inv_share') is None else [[l, v['ts'] if isinstance(v, dict) else v] for l, v in x['inv_share']],
                            op_share=None if x.get('op_share') is None else [[l, {'a': v['a'][:T]} if isinstance(v, dict) else v] for l, v in x['op_share']])) for x in e]
            labels = [x['label'] for x in e]
            for pen in (None, 0, 4, {'a': [1, 7, 2, 1][:T]}):
                for order in (None, 'reversed'):
                    f1 = flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff={'eff': [[l, i + 2] for i, l in enumerate(labels)]}, spec_eff=3), eff={'eff': [[l, 2 * i + 1] for i, l in enumerate(labels)]})
                    f2 = flow('f', 'b', 2, eff=1, rmin=0.5, onoff=dict(switch_eff=4, run_eff={'eff': [[labels[-1], 2]]}))
                    ex = [0, 1]
                    g = {'x.f': [0, 1], 'y.f': [0, 1]}
                    if pen is not None and T == 2:
                        g.update({'b#in': ex, 'b#out': ex})
                    yield lang(system([source('x', f1), sink('y', f2)], dt=dt, effects=e, order=order, buses={'b': {'penalty': pen}}, grid=g, sizes={'x.f': [0, 1, 2]}))
    # (b) optima
    dems = list(itertools.product((0, 2, 4), repeat=3)) if deep else [(2, 4, 0), (4, 0, 2), (0, 4, 4), (2, 2, 4), (4, 2, 4), (0, 2, 0)]
    for dem in dems:
        for dt in [(1, 1, 1), (1, 2, 0.5)]:
            D = sink('D', flow('h', 'h', 1, fixed={'a': [float(x) for x in dem]}))
            for su, run_, mn in itertools.product((0, 3), (0, 1), (None, 2)):
                U1 = source('U1', flow('h', 'h', 4, rmin=0.5, eff=1, prev=0, onoff=dict(switch_eff=su, run_eff=run_, con_min=mn)))
                for price in (2, {'a': [3, 1, 2]}):
                    U2 = source('U2', flow('h', 'h', 2, eff=price))
                    for pen in (None, 10, {'a': [1, 10, 2]}):
                        s = system([D, U1, U2], dt=dt, effects=E1, buses={'h': {'penalty': pen}}, grid={'D.h': sorted({0, *dem}), 'U1.h': [0, 2, 3, 4], 'U2.h': [0, 1, 2]})
                        yield dict(solve=s)
            # storage and investment
            for init, price in itertools.product((0, 2, None, 'lastValueOfSim'), (2, {'a': [4, 1, 5]})):
                S = dict(kind='Storage', label='S', cap=4, init=init, eta_c=0.5, ins=[flow('c', 'h', 4)], outs=[flow('d', 'h', 2)])
                U2 = source('U2', flow('h', 'h', 4, eff=price))
                yield dict(solve=system([D, U2, S], dt=dt, effects=E1, buses={'h': {'penalty': 20}}, c0={'S': [0, 2, 4]}, grid={'D.h': sorted({0, *dem}), 'U2.h': [0, 2, 4], 'S.c': [0, 2, 4], 'S.d': [0, 1, 2]}))
            for opt, fe, se, div in itertools.product((True, False), (0, 5), (1, 3), (None, 2)):
                U1 = source('U1', flow('h', 'h', inv(min=1, max=4, optional=opt, fix_eff=fe, spec_eff=se, div_eff=div), eff=1))
                U2 = source('U2', flow('h', 'h', 2, eff=4))
                yield dict(solve=system([D, U1, U2], dt=dt, effects=E1, buses={'h': {'penalty': 6}}, sizes={'U1.h': [0, 1, 2, 4]}, grid={'D.h': sorted({0, *dem}), 'U1.h': [0, 2, 4], 'U2.h': [0, 2]}))
            for e in eff[1:]:
                e = [clean(dict(x, inv_share=None, op_share=None if x.get('op_share') is None else [[l, {'a': v['a'][:3]} if isinstance(v, dict) else v] for l, v in x['op_share']])) for x in e]
                la = [x['label'] for x in e]
                U1 = source('U1', flow('h', 'h', 4, eff={'eff': [[la[-1], 1]]}))
                U2 = source('U2', flow('h', 'h', 2, eff={'eff': [[l, 1] for l in la]}, onoff=dict(switch_eff={'eff': [[la[0], 3]]})))
                yield dict(solve=system([D, U1, U2], dt=dt, effects=e, buses={'h': {'penalty': 6}}, grid={'D.h': sorted({0, *dem}), 'U1.h': [0, 2, 4], 'U2.h': [0, 2]}))
            # conversion chain
            K = dict(kind='CHP', label='K', eta_th=0.5, eta_el=0.25, onoff={'switch_eff': 1}, ins=[flow('f', 'g', 8, rmin=0.25)], outs=[flow('p', 'e', 4, eff=-6), flow('q', 'h', 4)])
            G = source('G', flow('f', 'g', 16, eff=1))
            Bo = dict(kind='Boiler', label='B', eta=0.5, ins=[flow('f', 'g', 8)], outs=[flow('q', 'h', 4)])
            X = sink('X', flow('p', 'e', 4))
            if dem[0] != dem[1] or deep:
                yield dict(solve=system([D, K, G, Bo, X], dt=dt, effects=E1, buses={'h': {'penalty': 50}, 'g': {'penalty': None}, 'e': {'penalty': None}},
                                        grid={'D.h': sorted({0, *dem}), 'K.f': [0, 4, 8], 'K.p': [0, 1, 2], 'K.q': [0, 2, 4], 'G.f': [0, 4, 8, 12, 16], 'B.f': [0, 4, 8], 'B.q': [0, 2, 4], 'X.p': [0, 1, 2]}))
