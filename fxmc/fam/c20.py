import itertools
import re

import numpy as np

from .. import build, explore, impl, ref
from . import c19
from .common import *
from .c18 import series_

PID, LEVEL = 'C20', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2]
RULE = ('all sequences of operations (model and solve a full calculation on all steps or a window, model only, failing solve, aggregated calculation with and without data aggregation, segmented '
        'calculation that completes or fails, reading infos and results) up to the stated length on one flow system of real objects; after every operation the problem handed to the solver, the results for '
        'a prescribed answer (all values different) and the data handed over by the user are compared with those of a fresh system; at the end all calculations of the sequence are '
        'solved once more in reverse order')


class Fail(Exception):
    pass


def strip(names):
    """names without the running number flixOpt adds (it depends on the order of sets)"""
    out = [re.sub(r'__\d+(\[|$)', r'\1', n) for n in names]
    seen = {}
    for i, n in enumerate(out):
        k = seen[n] = seen.get(n, -1) + 1
        out[i] = f'{n}#{k}' if k else n
    return out


def capture(calc, answer=None, fail=False):
    """solve calc with prescribed answers; -> (canonical problem, raw system)"""
    box = {}

    def fn(m):
        import pyomo.environ as pyo
        S = impl.Sys.__new__(impl.Sys)
        S._extract(m)
        names = strip([v.name for v in S.pv])
        rows = []
        for row, lo, hi in S.rows[:-1] if S.sense else S.rows:
            t = tuple(sorted((names[j], round(a, 9)) for j, a in row.items() if a != 0))
            rows.append((t, round(lo, 9) if np.isfinite(lo) else str(lo), round(hi, 9) if np.isfinite(hi) else str(hi)))
        box['sig'] = (tuple(sorted((n, S.lb[i], S.ub[i], S.isint[i]) for i, n in enumerate(names))), tuple(sorted(rows, key=repr)),
                      tuple(sorted((names[j], round(a, 9)) for j, a in S.obj_row.items() if a != 0)) if S.sense else None)
        if fail:
            raise Fail()
        order = sorted(range(len(names)), key=lambda i: names[i])
        for r, i in enumerate(order):
            S.pv[i].set_value(answer + r, skip_validation=True)

    try:
        calc.solve(impl.make_solver(fn))
    except Fail:
        pass
    return box.get('sig')


def full(b, w=None):
    import flixOpt as fx
    c = fx.FullCalculation('c', b.fs, time_indices=w)
    c.do_modeling()
    return c


def agg(b, data, spec):
    import flixOpt as fx
    np.random.seed(1)
    c = fx.AggregatedCalculation('c', b.fs, fx.AggregationParameters(3, 2, True, data))
    c.do_modeling()
    return c


def seg(b, n, fail):
    import flixOpt as fx
    c = fx.SegmentedCalculation('c', b.fs, 3, 1)
    k = [0]

    def fn(m):
        import pyomo.environ as pyo
        k[0] += 1
        if fail and k[0] == 2:
            raise Fail()
        vs = list(m.component_data_objects(pyo.Var))
        for i, (_, v) in enumerate(sorted(zip(strip([v.name for v in vs]), vs), key=lambda x: x[0])):
            v.set_value(1.0 + (i % 5), skip_validation=True)

    try:
        c.do_modeling_and_solve(impl.make_solver(fn), save_results=False)
    except Fail:
        return None
    return c.results(combined_arrays=True), c.results(combined_scalars=True), c.results(individual_results=True)


def same(a, b):
    fa, fb = impl.flat(a), impl.flat(b)
    if set(fa) != set(fb):
        return f'different entries {sorted(set(map(str, fa)) ^ set(map(str, fb)))[:4]}'
    for p in fa:
        x, y = fa[p], fb[p]
        if x is None or y is None:
            ok = x is y
        else:
            try:
                ok = np.shape(x) == np.shape(y) and bool(np.all((np.asarray(x) == np.asarray(y)) | np.isclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=1e-9)))
            except (TypeError, ValueError):
                ok = bool(np.all(np.asarray(x) == np.asarray(y)))
        if not ok:
            return f'{"/".join(map(str, p))}: {x} instead of {y}'
    return None


FRESH = {}


def fresh(key, spec, op, ans):
    """problem and results of the operation as the first one on a fresh system"""
    k = (key, op, ans)
    if k not in FRESH:
        b = build.build(spec)
        FRESH[k] = perform(b, spec, op, ans)[1:]
    return FRESH[k]


def perform(b, spec, op, ans):
    """-> (calculation or None, problem, results)"""
    n = len(spec['dt'])
    if op in 'FMWE':
        c = full(b, list(range(1, n - 1)) if op == 'W' else None)
    elif op in 'AD':
        c = agg(b, op == 'D', spec)
    elif op in 'GH':
        return None, None, seg(b, n, op == 'H')
    elif op == 'I':
        return None, None, (repr(b.fs.infos())[:0], str(b.fs)[:0], repr(b.fs.network_infos())[:0])
    else:
        raise ValueError(op)
    if op == 'M':
        return c, None, None
    sig = capture(c, ans, fail=op == 'E')
    return c, sig, None if op == 'E' else c.results()


def run(task):
    import plotly.offline
    plotly.offline.plot = lambda *a, **k: ''
    spec = task['spec']
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag=task['kind'])

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, spec=spec, **kw))

    if task['kind'] == 'shared':
        try:
            _, ca = explore.model(dict(spec, share=True))
            _, cb = explore.model(spec)
            texts, st = explore.diff(impl.Sys(ca), impl.Sys(cb), ref.Ref(spec), 'the system with shared parameter objects', 'the system with separate ones')
            out.update(words=st['words'], states=st['words'], transitions=st['words'], nodes=st['nodes'])
            for t in texts:
                viol('shared', t)
        except impl.HarnessError:
            raise
        except Exception as e:
            viol('shared', f'{type(e).__name__}: {e}')
        return out

    for seq in task['seqs']:
        build.TRACK = []
        b = build.build(spec)
        calcs, reported = [], []
        for k, op in enumerate(seq):
            pre = ''.join(seq[:k + 1])
            ans = 1.0 + k
            out['transitions'] += 1
            try:
                c, sig, res = perform(b, spec, op, ans)
            except impl.HarnessError:
                raise
            except Exception as e:
                viol('error', f'sequence {pre}: {type(e).__name__}: {e}')
                break
            fsig, fres = fresh(task['name'], spec, op, ans)
            if sig != fsig:
                why = explain(spec, seq[:k + 1], op, sig, fsig)
                if why:
                    viol('problem', f'sequence {pre}: the problem of the last calculation differs from that of a fresh system: {why}')
                    break
            bad = None
            if op in 'FWAD':
                bad = same(res, fres)
                reported.append((c, res, pre))
            elif op == 'G':
                bad = next((x for x in (same(p, q) for p, q in zip(res, fres)) if x), None)
            if bad:
                viol('results', f'sequence {pre}: {bad}')
                break
            if c is not None:
                calcs.append((c, op, k))
            ch = build.altered()
            if ch:
                viol('data', f'sequence {pre} alters data of the user: {ch[:2]}')
                break
            for c_, r_, p_ in reported:
                if same(c_.results(), r_):
                    viol('results', f'sequence {pre}: results of the calculation at {p_} have changed')
                    break
        else:
            for c, op, k in reversed(calcs):
                out['transitions'] += 1
                op_ = 'F' if op in 'ME' else op
                try:
                    capture(c, 7.0 + k)
                    res = c.results()
                except impl.HarnessError:
                    raise
                except Exception as e:
                    viol('error', f'sequence {"".join(seq)}: solving operation {k + 1} ({op}) at the end: {type(e).__name__}: {e}')
                    break
                bad = same(res, fresh(task['name'], spec, op_, 7.0 + k)[1])
                if bad:
                    viol('results', f'sequence {"".join(seq)}: solving operation {k + 1} ({op}) at the end: {bad}')
                    break
            ch = build.altered()
            if ch:
                viol('data', f'sequence {"".join(seq)} alters data of the user: {ch[:2]}')
        out['states'] += len(seq)
        out['feeds'] += len(calcs)
        build.TRACK = None
        if out['viol']:
            break
    out['nontrivial'] = 1
    return out


def explain(spec, seq, op, a, b):
    """the problems differ as written; do they differ in meaning? (words of both)"""
    n = len(spec['dt'])
    if a is None or b is None:
        return 'no problem handed to the solver'
    va, vb = dict((x[0], x[1:]) for x in a[0]), dict((x[0], x[1:]) for x in b[0])
    if set(va) != set(vb):
        text = f'variables {sorted(set(va) ^ set(vb))[:4]}'
    else:
        bad = [n for n in va if va[n] != vb[n]]
        if bad:
            text = f'bounds of {bad[0]}: {va[bad[0]]} instead of {vb[bad[0]]}'
        elif a[1] != b[1]:
            text = f'constraint {sorted(set(a[1]) - set(b[1]), key=repr)[:1]} instead of {sorted(set(b[1]) - set(a[1]), key=repr)[:1]}'
        else:
            text = 'objective'
    # meaning: exhaustive search on both
    space = 1.0
    for c in spec['comps']:
        for f in c.get('ins', []) + c.get('outs', []):
            space *= len(spec['grid'].get(f"{c['label']}.{f['label']}", [0, 1])) ** (n if op != 'W' else n - 2)
    if space > 2 ** 14 or op in 'AD':
        return text
    s = build.build(spec)
    f = build.build(spec)
    try:
        for i, o in enumerate(seq[:-1]):
            perform(s, spec, o, 1.0 + i)
        mk = {'F': lambda x: full(x), 'M': lambda x: full(x), 'E': lambda x: full(x), 'W': lambda x: full(x, list(range(1, n - 1))), 'A': lambda x: agg(x, False, spec), 'D': lambda x: agg(x, True, spec)}[op]
        R = ref.Ref(dict(spec, window=list(range(1, n - 1))) if op == 'W' else spec)
        texts, _ = explore.diff(impl.Sys(mk(s)), impl.Sys(mk(f)), R, 'the calculation after the sequence', 'the calculation on a fresh system', limit=1)
        return f'{text}; {texts[0]}'[:1500] if texts else None  # same meaning, written differently
    except impl.HarnessError:
        raise
    except Exception as e:
        return f'{text}; {type(e).__name__}: {e}'


def systems():
    dt = (1,) * 9
    p = series_('ABA', 3)
    A = one(flow('f', 'b', 1, prev={'l': [0, 1]}, eff={'eff': [['c', {'a': p}], ['k', {'ts': [x / 2 for x in p]}]]}, rmax={'a': [0.5 + x / 20 for x in p]},
                 onoff={'con_min': 2, 'coff_max': {'a': [2.0, 3.0, 2.0] * 3}, 'switch_eff': {'eff': [['c', {'a': p}], ['k', 1]]}, 'run_eff': {'ts': p}, 'sw_max': 3}), [0, 0.5], dt=dt,
            effects=[dict(label='c', std=True, obj=True, oph_max={'a': [99.0, 98.0, 99.0] * 3}), dict(label='k', op_share=[['c', {'a': p}]], op_max=900)])
    S = dict(kind='Storage', label='S', cap=2, init=1, loss={'a': [0.0, 0.1, 0.0] * 3}, eta_c={'ts': [1.0, 0.5, 1.0] * 3}, ins=[flow('c', 'h', 1, prev=1)], outs=[flow('d', 'h', 1)])
    S2 = dict(kind='Storage', label='S2', cap=2, init='lastValueOfSim', eta_d=0.5, ins=[flow('c', 'h', 1)], outs=[flow('d', 'h', 1)])
    U = source('U', flow('u', 'h', 2, prev=2, eff={'a': p}, onoff={'con_min': 2}))
    B = system([S, S2, U], dt=dt, buses={'h': {'penalty': {'a': [x + 50 for x in p]}}}, grid={'S.c': [0, 1], 'S.d': [0], 'S2.c': [0], 'S2.d': [0], 'U.u': [0, 1]}, c0={'S2': [0, 1]})
    K = dict(kind='CHP', label='K', eta_th={'a': [0.5, 0.25, 0.5] * 3}, eta_el={'ts': [0.25, 0.5, 0.25] * 3}, onoff={'run_eff': 2, 'con_max': 5}, ins=[flow('f', 'g', 8, prev=4)], outs=[flow('p', 'e', 4, eff={'a': p}), flow('q', 'h', 4)])
    L = dict(kind='LinearConverter', label='L', segs=[['i', [[0, 0], [1, {'a': [2.0, 3.0, 2.0] * 3}]]], ['o', [[0, 0], [{'ts': [0.5, 1.0, 0.5] * 3}, 2]]]], ins=[flow('i', 'g', 4)], outs=[flow('o', 'h', 4)])
    Tm = dict(kind='Transmission', label='T', rel={'a': [0.1, 0.2, 0.1] * 3}, abs=0.25, ins=[flow('i1', 'h', 4), flow('i2', 'w', 4)], outs=[flow('o1', 'w', 4), flow('o2', 'h', 4)])
    D = sink('D', flow('d', 'w', 1, fixed={'a': [1.0, 2.0, 1.0] * 3}))
    C = system([K, L, Tm, D], dt=dt, buses={'g': {'penalty': 5}, 'e': {'penalty': 3}, 'h': {'penalty': {'ts': [x + 50 for x in p]}}, 'w': {'penalty': 40}},
               grid={'K.f': [0, 4], 'K.p': [0, 1, 2], 'K.q': [0, 1, 2], 'L.i': [0, 1], 'L.o': [0, 0.5, 1], 'D.d': [1, 2], 'T.i1': [0], 'T.i2': [0], 'T.o1': [0], 'T.o2': [0]})
    V = source('V', flow('v', 'h', inv(min=1, max=2, optional=True, fix_eff={'eff': [['c', 5], ['k', 1]]}, spec_eff=2, div_eff=1), rmax={'a': [1.0, 0.5, 1.0] * 3}))
    I = system([V, dict(S, cap=inv(max=4, optional=True, spec_eff=1), init=0)], dt=dt, effects=[dict(label='c', std=True, obj=True), dict(label='k', inv_share=[['c', 4]])],
               buses={'h': {'penalty': {'a': p}}}, grid={'V.v': [0, 1], 'S.c': [0, 1], 'S.d': [0]}, sizes={'V.v': [0, 1], 'S': [0, 2]})
    return dict(unit=A, storages=B, converters=C, investment=I)


def tasks(tier):
    deep = tier == 'thorough'
    ops = 'FWMEADGHI'
    for name, spec in systems().items():
        if name == 'investment':
            alph = 'FWMEADI'
        else:
            alph = ops
        depth = (4 if name in ('unit', 'storages') else 3) if deep else (3 if name in ('unit', 'storages') else 2)
        seqs = [s for s in itertools.product(alph, repeat=depth)] if depth < 4 else [s for s in itertools.product('FWEDGHM', repeat=4)]
        if not deep and depth == 3:
            seqs = [s for s in seqs if s[-1] not in 'IM' and s[0] != 'I' or 'G' in s[:1]]
        k = 12
        for i in range(0, len(seqs), k):
            yield dict(kind='sequence', name=name, spec=spec, seqs=[''.join(s) for s in seqs[i:i + k]])
    # data over time at every place, steps of different lengths
    for name in c19.PLACES:
        for form in ('a', 'ts'):
            spec = dict(c19.place(name, {form: c19.values(name, 4)}, 4), dt=[1, 2, 0.5, 2])
            yield dict(kind='sequence', name=f'{name} {form}', spec=spec, seqs=['FF', 'FW', 'WF', 'WW', 'MF', 'EW'] + (['FFF', 'FWF', 'WFW', 'GF', 'FG', 'GG'] if deep else []))
    for name, spec in systems().items():
        seqs = [''.join(s) for s in itertools.product('FWMEGHI' if name != 'investment' else 'FWMEI', repeat=2)]
        for i in range(0, len(seqs), 12):
            yield dict(kind='sequence', name=name + ' on uneven steps', spec=dict(spec, dt=[1, 2, 0.5] * 3), seqs=seqs[i:i + 12])
    # parameter objects used for several elements
    for dt in [(1, 2, 1), (1, 1, 1)]:
        for oo in (dict(con_min=2), dict(switch_eff={'a': [1.0, 2.0, 3.0]}), dict(run_eff={'eff': [['c', {'a': [1.0, 2.0, 3.0]}], ['k', 2]]}), dict(coff_max={'ts': [1.0, 2.0, 3.0]}), dict(on_max=2, sw_max=1, force=True), {}):
            eff = E2
            for sz in (2, inv(min=1, max=2, optional=True, fix_eff=3, spec_eff={'eff': [['k', 2], ['c', 1]]})):
                f = dict(eff=1, onoff=oo)
                s = system([source('x', flow('f', 'b', sz, prev=1, **f)), sink('y', flow('f', 'b', sz, **f))], dt=dt, effects=eff, grid={'x.f': [0, 1], 'y.f': [0, 1]}, sizes={'x.f': [0, 1], 'y.f': [0, 2]} if isinstance(sz, dict) else {})
                yield dict(kind='shared', spec=s)
                X = dict(kind='Component', label='X', onoff=oo, ins=[flow('i', 'b', sz, onoff=oo)], outs=[flow('o', 'b', 4)])
                yield dict(kind='shared', spec=system([X], dt=dt, effects=eff, grid={'X.i': [0, 1], 'X.o': [0, 1]}, sizes={'X.i': [0, 1, 2]} if isinstance(sz, dict) else {}))
