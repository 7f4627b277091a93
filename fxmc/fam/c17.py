import copy
import json

import numpy as np

from .. import build, explore, impl, ref
from .common import *

PID, LEVEL = 'C17', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2] + ['a part on its own (full calculation on the same window with the start values set by hand) is judged by C01-C16 and C19']
RULE = ('explicit-state exploration of the sequence of solver calls of a segmented calculation: a node is (part, handed-over flow rates and charge states); the successors are '
        'all answers over the grid that the problem of the part admits (found by exhaustive search on the problem handed to the solver); every node is reached on the real code '
        'by replaying its answers, with two representatives per handed-over state, and its problem is compared (all words and reported values) with that of a separate calculation '
        'on the same steps with the start values set by hand; at every node the run is also aborted to check that start values are restored; every run that completes is compared '
        'with the expected combination of the results')


class Stop(Exception):
    pass


class Run:
    """one segmented calculation on fresh objects, answering the first segments as prescribed; the next segment's system is
    handed to `visit`, which returns an answer (list of values) or None (abort)"""

    def __init__(self, spec, s, o, window, answers, visit):
        import flixOpt as fx
        self.b = build.build(spec)
        fs = self.b.fs
        kw = {} if window is None else dict(time_indices=list(window) if not isinstance(window, range) else window)
        self.calc = fx.SegmentedCalculation('seg', fs, s, o, **kw)
        self.starts = self.start_values()
        self.k = 0
        self.given = []

        def hook(m):
            import pyomo.environ as pyo
            k = self.k
            self.k += 1
            pv = list(m.component_data_objects(pyo.Var))
            if k < len(answers):
                x = answers[k]
            else:
                sub = self.calc.sub_calculations[-1]
                x = visit(k, sub, len(pv))
                if x is None:
                    raise Stop()
            if len(x) < len(pv):
                raise impl.HarnessError('answer too short')
            self.given.append(x)
            for v, y in zip(pv, x):
                v.set_value(float(y), skip_validation=True)

        self.stopped = False
        try:
            self.calc.do_modeling_and_solve(impl.make_solver(hook), save_results=False)
        except Stop:
            self.stopped = True

    def again(self):
        import pyomo.environ as pyo
        self.k = 0

        def hook(m):
            x = self.given[self.k] if self.k < len(self.given) else None
            self.k += 1
            for j, v in enumerate(m.component_data_objects(pyo.Var)):
                v.set_value(float(x[j]) if x is not None and j < len(x) else 0.0, skip_validation=True)

        self.calc.do_modeling_and_solve(impl.make_solver(hook), save_results=False)

    def start_values(self):
        d = {('flow', k): f.previous_flow_rate for k, f in self.b.flows.items()}
        d.update({('storage', k): c.initial_charge_state for k, c in self.b.comps.items() if hasattr(c, 'initial_charge_state')})
        return d

    def restored(self):
        now = self.start_values()
        return [f'{k}: {self.starts[k]!r} -> {now[k]!r}' for k in self.starts if repr(self.starts[k]) != repr(now[k])]


def parts(T, s, o, window):
    w = list(range(T)) if window is None else list(window)
    n = -(-len(w) // s)
    return [w[k * s:min(k * s + s + o, len(w))] for k in range(n)]


def override(spec, part, hand):
    sp = copy.deepcopy(spec)
    sp['window'] = list(part)
    if hand:
        for c in sp['comps']:
            for f in c.get('ins', []) + c.get('outs', []):
                f['prev'] = hand['prev'][f'{c["label"]}.{f["label"]}']
            if c['kind'] == 'Storage':
                c['init'] = hand['init'][c['label']]
    return sp


def handed(spec, R, word, s, x, sysm):
    head, xs = R.decode(word)
    prev = {'.'.join(f['key']): float(xs[s - 1][i]) for i, f in enumerate(R.flows)}
    init = {}
    for c in R.storages:
        w = sysm.where[(('Components', c['label'], 'charge_state'), s)]
        init[c['label']] = round(float(x[w]), 6)
    return dict(prev=prev, init=init)


def run(task):
    spec, s, o, window = task['spec'], task['s'], task['o'], task.get('window')
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, completed=0, aborted=0)
    P = parts(len(spec['dt']), s, o, window)

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, spec=spec, **kw))

    seen, todo = {}, [(None, [])]
    maxreps = task.get('reps', 2)
    while todo and not out['viol']:
        hand, answers = todo.pop()
        k = len(answers)
        got = {}

        def visit(kk, sub, n):
            got['sys'] = impl.Sys(sub)
            return None

        try:
            r = Run(spec, s, o, window, answers, visit)
        except impl.HarnessError:
            raise
        except Exception as e:
            viol('run', f'part {k + 1}: {type(e).__name__}: {e}')
            break
        if 'sys' not in got:
            viol('parts', f'{k} parts solved, expected {len(P)}')
            break
        out['aborted'] += 1
        bad = r.restored()
        if bad:
            viol('restore', f'start values after a failure in part {k + 1}: {bad}')
        sp = override(spec, P[k], hand)
        R = ref.Ref(sp)
        _, calc = explore.model(sp)
        texts, st = explore.diff(got['sys'], impl.Sys(calc), R, f'part {k + 1} of the segmented calculation', 'the same steps with the same start values')
        out['words'] += st['words']
        out['nodes'] += st['nodes']
        out['states'] += 1
        for t in texts:
            viol('part', t, handed=hand)
        if texts or 'last' not in st:
            continue
        acc, sol = st['last']
        out['transitions'] += len(acc)
        groups = {}
        for w in sorted(acc):
            h = handed(spec, R, w, s, sol[acc[w]], got['sys']) if len(P[k]) >= s else None
            groups.setdefault(json.dumps(h, sort_keys=True), []).append(w)
        final = k + 1 == len(P)
        for h, ws in groups.items():
            for w in ([ws[0], ws[-1]] if len(ws) > 1 else ws):
                a = answers + [[float(v) for v in sol[acc[w]]]]
                if final:
                    complete(task, a, out, viol)
                    continue
                key = (k + 1, h)
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= maxreps:
                    todo.append((json.loads(h), a))
            if final and out['completed'] > task.get('maxc', 6):
                break
    if not out['viol']:
        complete(task, None, out, viol)
    out['nontrivial'] = int(out['transitions'] > 0)
    out['tag'] = f'{len(P)} parts'
    return out


def complete(task, answers, out, viol):
    """a run to the end: combination of the results, restored start values; answers None: all values different"""
    spec, s, o, window = task['spec'], task['s'], task['o'], task.get('window')
    P = parts(len(spec['dt']), s, o, window)
    ctr = [0]

    def visit(k, sub, n):
        ctr[0] += 1
        return [1000.0 * ctr[0] + i for i in range(n)]

    r = Run(spec, s, o, window, answers or [], visit)
    out['completed'] += 1
    out['feeds'] += 1
    if r.k != len(P):
        viol('parts', f'{r.k} parts solved, expected {len(P)}')
        return
    if out['completed'] % 3 == 1:       # the same calculation once more: the same parts, the same answers
        first = impl.flat(r.calc.results(combined_arrays=True))
        r.again()
        again = impl.flat(r.calc.results(combined_arrays=True))
        bad = [p for p in first if p not in again or not np.array_equal(first[p], again[p])]
        if bad or len(first) != len(again) or r.k != len(P):
            viol('repeat', f'the repeated calculation solves {r.k} parts and reports other values for {bad[:3]}')
            return
    bad = r.restored()
    if bad:
        viol('restore', f'start values at the end: {bad}')
    ind = r.calc.results(individual_results=True)
    if len(ind) != len(P):
        viol('parts', f'results of {len(ind)} parts, expected {len(P)}')
        return
    trees = [impl.flat(t) for t in ind.values()]
    comb = impl.flat(r.calc.results(combined_arrays=True))
    scal = impl.flat(r.calc.results(combined_scalars=True))
    n = len(window) if window is not None else len(spec['dt'])
    for p in trees[0]:
        vals = [t.get(p) for t in trees]
        if any(v is None for v in vals):
            viol('combine', f'{p} is missing in a part')
            continue
        if all(isinstance(v, np.ndarray) for v in vals):
            want = np.concatenate([v[:s] for v in vals[:-1]] + [vals[-1]])
            if p not in comb or not np.array_equal(np.asarray(comb[p]), want):
                viol('combine', f'combined {"/".join(map(str, p))} = {comb.get(p)}, expected {want}')
                return
            if len(want) not in (n, n + 1):
                viol('combine', f'combined {"/".join(map(str, p))} has {len(want)} values for {n} steps')
                return
        elif all(np.isscalar(v) for v in vals):
            if list(scal.get(p, [])) != list(vals):
                viol('combine', f'combined scalar {"/".join(map(str, p))} = {scal.get(p)}, expected {vals}')
                return
    extra = [p for p in list(comb) + list(scal) if p not in trees[0]]
    if extra:
        viol('combine', f'unexpected entries {extra[:3]}')
    # each step once, with its time stamp
    w = list(window) if window is not None else list(range(n))
    ts = build.stamps(spec)
    end = ts[-1] + (ts[-1] - ts[-2]) if w[-1] == len(ts) - 1 and spec.get('last', 'auto') is None else None
    tm = comb.get(('Time',))
    if tm is None or [np.datetime64(x, 's') for x in np.asarray(tm)[:n]] != [np.datetime64(ts[i], 's') for i in w]:
        viol('combine', f'combined time stamps {tm}, expected those of the steps {w}')
    # values: unique numbers allow to tell the origin of each entry
    for key in r.b.flows:
        c, f = key.split('.')
        own = [t[('Components', c, f, 'flow_rate')] for t in trees]
        for t, i in enumerate(w):
            k = min(t // s, len(P) - 1)
            if comb[('Components', c, f, 'flow_rate')][t] != own[k][t - k * s]:
                viol('combine', f'step {i} of {key} is not taken from part {k + 1}')
                return
    # the documented overview of start values
    sv = r.calc.start_values_of_segments
    for k in range(1, len(P)):
        got = sv.get(f'Segment_{k + 1}', {})
        for key, fl in r.b.flows.items():
            c, f = key.split('.')
            v = trees[k - 1][('Components', c, f, 'flow_rate')][s - 1]
            if fl.label_full in got and got[fl.label_full] != v:
                viol('overview', f'start value of {key} in part {k + 1}: {got[fl.label_full]}, expected {v}')


def tasks(tier):
    deep = tier == 'thorough'
    def T(spec, s, o, window=None, **kw):
        n = len(window) if window is not None else len(spec['dt'])
        every = kw.pop('all', False)
        if s + o > n or n % s == 1 or n <= s:
            return []
        if not deep:
            kw = dict(dict(reps=1 if len(dt) > 6 else 2, maxc=2), **kw)
            if not every and len(dt) > 8 and (s + o) % 2 == 0:
                return []
        return [dict(spec=spec, s=s, o=o, window=window, **kw)]

    def on(k):
        return [dict(con_min=2), dict(con_max=2), dict(coff_min=2), dict(coff_max=2), dict(switch_eff=3), dict(sw_max=1), dict(con_min=2, coff_min=2, switch_eff=1)][k]

    grids = [((1,) * 6, None), ((1, 2, 1, 1, 2, 1, 1, 2), None), ((1,) * 8, (1, 2, 3, 4, 5, 6, 7)[:6]), ((1,) * 8, (0, 1, 3, 4, 6, 7)), ((0.5,) * 9, None)]
    if deep:
        grids += [((1, 2, 0.5) * 3, None), ((1,) * 12, None), ((1,) * 10, (2, 3, 4, 5, 6, 7, 8, 9))]
    for dt, w in grids:
        for s in (3, 4):
            for o in (0, 1, 2, 3):
                # unit with memory
                for k in range(7):
                    for prev in (None, 1, {'l': [0, 1]}):
                        if not deep and prev is not None and (k + s + o) % 2:
                            continue
                        yield from T(one(flow('f', 'b', 1, prev=prev, onoff=on(k)), [0, 1], dt=dt), s, o, w)
                # fixed profile that may be switched off
                for k in range(7):
                    prof = [1, 1, 1, 0, 1, 1, 0, 1, 1, 1, 0, 1][:len(dt)]
                    if o < 2 or deep:
                        yield from T(one(flow('f', 'b', 1, prev=1 if k % 2 else None, fixed={'a' if k % 2 else 'ts': prof}, onoff=on(k)), [0, 1], kind='Sink', dt=dt), s, o, w)
                # storage
                for init in (0, 1, None, 'lastValueOfSim'):
                    S = dict(kind='Storage', label='S', cap=2, init=init, ins=[flow('c', 'h', 1)], outs=[flow('d', 'h', 1)])
                    yield from T(system([S], dt=dt, grid={'S.c': [0, 1], 'S.d': [0, 1]}, c0={'S': [0, 1, 2]}), s, o, w)
                S = dict(kind='Storage', label='S', cap=2, init=1, eta_c=0.5, loss=0.1 if dt[0] == 1 else 0, prevent=False, fmin=0.1, ins=[flow('c', 'h', 1)], outs=[flow('d', 'h', 1)])
                if o < 2 and (deep or dt[1] == dt[0]):
                    yield from T(system([S], dt=dt, grid={'S.c': [0, 1], 'S.d': [0, 0.5]}), s, o, w, reps=1)
                # component, storage and source with several flows
                X = dict(kind='Component', label='X', onoff={'con_min': 2}, ins=[flow('i', 'b', 1, prev=1)], outs=[flow('o', 'b', 1)])
                if s == 3 and o < 2:
                    yield from T(system([X], dt=dt, grid={'X.i': [0, 1], 'X.o': [0, 1]}), s, o, w)
                S2 = dict(kind='Storage', label='S', cap=1, init=0, prevent=False, ins=[flow('c', 'h', 1, onoff={'coff_min': 2})], outs=[flow('d', 'h', 1)])
                if s == 3 and o < 2:
                    yield from T(system([S2, source('U', flow('u', 'h', 1, onoff={'switch_eff': 1}))], dt=dt, grid={'S.c': [0, 1], 'S.d': [0, 1], 'U.u': [0, 1]}, buses={'h': {'penalty': None}}), s, o, w)
                # time series data
                n = len(dt)
                C = dict(kind='LinearConverter', label='C', factors=[[['i', {'a': [1.0, 2.0, 1.0, 2.0, 4.0, 1.0, 2.0, 1.0, 2.0, 1.0, 1.0, 2.0][:n]}], ['o', 1]]],
                         onoff={'run_eff': {'a': [float(i) for i in range(n)]}}, ins=[flow('i', 'b', 2)], outs=[flow('o', 'c', 4, eff={'ts': [float(i * i) for i in range(n)]})])
                if s == 3 and o != 2:
                    yield from T(system([C], dt=dt, buses={'b': {'penalty': {'ts': [float(1 + i % 3) for i in range(n)]}}, 'c': {'penalty': 2}}, grid={'C.i': [0, 1], 'C.o': [0, 1, 2, 4]}), s, o, w, reps=1)
    # pairs of features
    from . import c36
    for k, (kind, names, spec) in enumerate(c36.operation_only()):
        for o in (0, 1) if deep else (k % 2,):
            for dt in ((1,) * 6, (1, 2, 0.5, 1, 1, 2)) if deep else (((1,) * 6, (1, 2, 0.5, 1, 1, 2))[k // 2 % 2],):
                yield from T(c36.longer(spec, dt), 3, o, None, reps=1, all=True)
    # all lengths of segments, overlaps and horizons (with a single schedule)
    for n in range(5, 20 if deep else 15):
        for s in range(3, 9 if deep else 7):
            for o in range(0, s + 2):
                dt = tuple((1, 2, 0.5, 3)[i % 4] for i in range(n))
                prof = [float(i + 1) for i in range(n)]
                P = one(flow('f', 'b', 1, fixed={'a': prof}, eff={'a': prof[::-1]}), [0.0] + prof, kind='Sink', dt=dt)
                yield from T(P, s, o, None, reps=1, all=True)
                if n > 8 and (deep or o < 3):
                    yield from T(P, s, o, tuple(range(2, n)), reps=1, all=True)
