import copy
import itertools

import numpy as np

from .. import explore, impl, ref
from .c32 import lists
from .common import *

PID, LEVEL = 'C35', 'model_checking'
ASSUMPTIONS = LANG_ASSUMPTIONS[:2] + ['parts without a common bus and without limits on effects']
RULE = ('a set of small systems (parts) that together hold every kind of component and every feature; all ordered pairs of parts, each part with itself, and some triples, side by side in one flow system, with own and with common parameter objects, arrays and '
        'dictionaries wherever values are equal; the parts alone and together are modelled by the real code and searched exhaustively: the words together are exactly the products of the words of the parts, every element reports what it reports '
        'alone, and effects, penalty and objective are the sums')


def parts(N, deep):
    """name -> function of a number -> (components, buses, grid, sizes)"""
    A = lambda *x: {'a': [float(y) for y in x][:N]}
    both = {'eff': [['c', 1], ['k', A(1, 2, 1)]]}
    P = {}

    def part(f):
        P[f.__name__] = f

    @part
    def onoff(i):
        return [source(f'u{i}', flow('p', f'b{i}', 1, rmin=0.5, eff=both, onoff=dict(con_min=2, switch_eff={'eff': [['k', A(1, 2, 3)]]}, sw_max=1, run_eff=A(1, 0, 2))))], {f'b{i}': 2}, {f'u{i}.p': [0, 1]}, {}

    @part
    def history(i):
        return [sink(f'u{i}', flow('p', f'b{i}', 1, prev=A(1, 1, 0), onoff=dict(coff_min=2, con_max=A(3, 2, 3), on_max=2, force=True)))], {f'b{i}': 2}, {f'u{i}.p': [0, 1]}, {}

    @part
    def invest(i):
        f = flow('p', f'b{i}', inv(min=1, max=2, optional=True, fix_eff={'eff': [['c', 1], ['k', 2]]}, spec_eff={'eff': [['k', 3]]}, div_eff=2), fh_max=4, lf_min=0.25)
        return [source(f'u{i}', f)], {f'b{i}': 2}, {f'u{i}.p': [0, 1]}, {f'u{i}.p': [0, 1, 2]}

    @part
    def invest_onoff(i):
        f = flow('p', f'b{i}', inv(min=1, max=2, optional=True, fix_eff=2, div_eff=2), rmin=0.5, onoff=dict(switch_eff=1))
        return [source(f'u{i}', f)], {f'b{i}': 2}, {f'u{i}.p': [0, 1]}, {f'u{i}.p': [0, 1, 2]}

    @part
    def segments(i):
        f = flow('p', f'b{i}', inv(min=0, max=4, optional=False, seg=([(0, 1), (2, 4)], [['c', [(0, 5), (7, 9)]], ['k', [(1, 2), (3, 4)]]])))
        return [sink(f'u{i}', f)], {f'b{i}': 2}, {f'u{i}.p': [0, 1]}, {f'u{i}.p': [0, 1, 1.5, 2]}

    @part
    def profile(i):
        return [source(f'u{i}', flow('p', f'b{i}', 2, rmax=A(1, 0.5, 1), eff=A(1, 2, 1))), sink(f'd{i}', flow('g', f'b{i}', 1, fixed=A(1, 0, 1)))], {f'b{i}': None}, {f'u{i}.p': [0, 1], f'd{i}.g': [0, 1]}, {}

    @part
    def storage(i):
        S = dict(kind='Storage', label=f'S{i}', cap=2, init=1, eta_c=A(0.5, 1, 1), loss=A(0, 0.5, 0), rmin={'a': [0.0, 0.25, 0.0, 0.0][:N] + [0.25]}, ins=[flow('c', f'b{i}', 1)], outs=[flow('d', f'b{i}', 1)])
        return [S], {f'b{i}': 2}, {f'S{i}.c': [0, 1], f'S{i}.d': [0, 1]}, {}

    @part
    def storage_invest(i):
        S = dict(kind='Storage', label=f'S{i}', cap=inv(min=1, max=2, optional=True, spec_eff={'eff': [['k', 3]]}, div_eff=2), init='lastValueOfSim', ins=[flow('c', f'b{i}', 1)], outs=[flow('d', f'b{i}', 1)])
        return [S], {f'b{i}': 2}, {f'S{i}.c': [0, 1], f'S{i}.d': [0, 1]}, {f'S{i}': [0, 1, 2]}

    @part
    def converter(i):
        K = dict(kind='LinearConverter', label=f'K{i}', onoff=dict(con_min=2, switch_eff={'eff': [['k', A(1, 2, 3)]]}, run_eff=A(1, 0, 2)), factors=[[['i', 1], ['o', A(1, 0.5, 1)]]], ins=[flow('i', f'b{i}', 2)], outs=[flow('o', f'q{i}', 2)])
        return [K], {f'b{i}': 2, f'q{i}': A(1, 2, 1)}, {f'K{i}.i': [0, 1], f'K{i}.o': [0, 1, 2]}, {}

    @part
    def segmented(i):
        K = dict(kind='LinearConverter', label=f'K{i}', segs=[['i', [[0, 0], [1, 2]]], ['o', [[0, 0], [A(1, 0.5, 1), 1]]]], ins=[flow('i', f'b{i}', 2)], outs=[flow('o', f'q{i}', 2)])
        return [K], {f'b{i}': 2, f'q{i}': 3}, {f'K{i}.i': [0, 1], f'K{i}.o': [0, 0.5, 1]}, {}

    @part
    def transmission(i):
        T_ = dict(kind='Transmission', label=f'T{i}', rel=A(0.5, 0, 0.5), abs=A(0, 0.25, 0), ins=[flow('i', f'b{i}', 1)], outs=[flow('o', f'q{i}', 1)])
        return [T_], {f'b{i}': 2, f'q{i}': 3}, {f'T{i}.i': [0, 1], f'T{i}.o': [0, 0.5, 0.75]}, {}

    @part
    def exclusive(i):
        return [dict(kind='SourceAndSink', label=f'W{i}', ins=[flow('x', f'b{i}', 1)], outs=[flow('y', f'b{i}', 1, eff=both)])], {f'b{i}': 2}, {f'W{i}.x': [0, 1], f'W{i}.y': [0, 1]}, {}

    @part
    def boiler(i):
        return [dict(kind='Boiler', label=f'B{i}', eta=A(0.5, 1, 0.5), onoff=dict(con_min=2, switch_eff={'eff': [['k', A(1, 2, 3)]]}), ins=[flow('f', f'b{i}', 2)], outs=[flow('h', f'q{i}', 1, onoff=dict(con_min=2))])], {f'b{i}': 2, f'q{i}': 3}, {f'B{i}.f': [0, 1, 2], f'B{i}.h': [0, 1]}, {}
    return P


EFFECTS = [dict(label='k'), dict(label='c', std=True, obj=True, op_share=[['k', 2]], inv_share=[['k', 3]])]


def spec_of(dt, *ps, **kw):
    comps, buses, grid, sizes = [], {}, {}, {}
    for c, b, g, z in ps:
        comps += c
        buses.update({l: {'penalty': p} for l, p in b.items()})
        grid.update(g)
        sizes.update(z)
    s = system(comps, dt=dt, effects=EFFECTS, buses=buses, grid=grid)
    if sizes:
        s['sizes'] = sizes
    c0 = {c['label']: [0, 1, 2] for c in comps if c.get('init') == 'lastValueOfSim'}
    if c0:
        s['c0'] = c0
    return lists(dict(s, **kw))


def additive(key):
    return key[0][0] in ('Effects', 'Objective')


def product(spec, alone):
    """compares the words of `spec` with the products of the words of its parts -> texts, stats"""
    R = ref.Ref(spec)
    sysm = impl.Sys(explore.model(spec)[1])
    W, lo, hi, _, keep, st = explore.words_of(sysm, R)
    keys = [k for k, _ in R.choices]
    at = {k: i for i, k in enumerate(keys)}
    pos = [[at[k] for k, _ in r.choices] for r, *_ in alone]
    out = []
    if sorted(itertools.chain(*pos)) != list(range(len(keys))):
        raise impl.HarnessError('choices of the parts and the whole differ')
    want = 1
    for _, w, *_ in alone:
        want *= len(w)
    col = {R.obs[q][0]: i for i, q in enumerate(keep)}
    cols = [{r.obs[q][0]: i for i, q in enumerate(kp)} for r, _, _, _, kp in alone]
    for n, c in enumerate(cols):
        gone = [k for k in c if k not in col]
        if gone:
            return [f'{explore.show(gone[0])} is not reported any more'], st, 0
    new = [k for k in col if not any(k in c for c in cols)]
    if new:
        return [f'{explore.show(new[0])} is reported in addition'], st, 0
    n_ok = 0
    rows, subs = [], []
    for w, k in W.items():
        sub = [a[1].get(tuple(w[i] for i in p)) for a, p in zip(alone, pos)]
        if None in sub:
            if len(out) < 2:
                out.append(f'together, a schedule is admitted that part {sub.index(None) + 1} alone forbids: {explore.word_text(R, w)}')
            continue
        n_ok += 1
        rows.append(k)
        subs.append(sub)
    if n_ok != want:
        have = set(W)
        for combo in itertools.product(*[list(a[1]) for a in alone]):
            full = [None] * len(keys)
            for p, w in zip(pos, combo):
                for i, x in zip(p, w):
                    full[i] = x
            if tuple(full) not in have:
                out.append(f'together, a schedule is forbidden that the parts alone admit: {explore.word_text(R, tuple(full))}')
                break
    if rows:
        subs = np.array(subs)
        for key, i in col.items():
            d = next(r.obs[q][2] for q, r in ((q, R) for q in keep) if r.obs[q][0] == key)
            for bit, whole, part in ((1, lo, 2), (2, hi, 3)):
                if not d & bit:
                    continue
                tot = sum(a[part][subs[:, n], cols[n][key]] for n, a in enumerate(alone) if key in cols[n])
                got = whole[rows, i]
                with np.errstate(invalid='ignore'):
                    bad = ~((got == tot) | (np.abs(got - tot) <= 2 * explore.VTOL * np.maximum(1, np.abs(tot))))
                if bad.any() and len(out) < 3:
                    b = int(np.nonzero(bad)[0][0])
                    w = next(w for w, k in W.items() if k == rows[b])
                    out.append(f'together, {explore.show(key)} is {got[b]:.6g}, the parts alone report {tot[b]:.6g}: {explore.word_text(R, w)}')
    return out, st, len(W)


def run(task):
    out = dict(viol=[], states=0, transitions=0, words=0, nodes=0, feeds=0, tag='parts', nontrivial=0)
    dt, deep = task['dt'], task.get('deep')
    P = parts(len(dt), deep)

    def viol(kind, text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=kind, text=text, **kw))
    alone = []
    for i, name in enumerate(task['parts']):
        s = spec_of(dt, P[name](i))
        r = ref.Ref(s)
        w, lo, hi, _, keep, st = explore.words_of(impl.Sys(explore.model(s)[1]), r)
        alone.append((r, w, lo, hi, keep))
    for share in ('own', 'parameters', 'all'):
        s = spec_of(dt, *[P[n](i) for i, n in enumerate(task['parts'])], share=share)
        try:
            texts, st, n = product(s, alone)
        except impl.HarnessError:
            raise
        except Exception as e:
            import traceback
            viol('build', f'({share} objects) {type(e).__name__}: {e}', spec=s, trace=traceback.format_exc()[-1200:])
            continue
        for t in texts:
            viol('product', f'({" + ".join(task["parts"])}, {share} objects) {t}', spec=s)
        for k, v in (('words', n), ('states', n), ('transitions', n), ('nodes', st['nodes'])):
            out[k] += v
        out['feeds'] += 1
        out['nontrivial'] += int(n > 0)
    return out


def tasks(tier):
    deep = tier == 'thorough'
    names = list(parts(2, deep))
    for dt in ([(1, 2), (2, 1, 1)] if deep else [(1, 2)]):
        for a, b in itertools.product(names, repeat=2):
            yield dict(parts=[a, b], dt=dt, deep=deep)
    for a in ('onoff', 'history', 'invest', 'invest_onoff', 'profile', 'exclusive', 'segments', 'boiler'):
        yield dict(parts=[a] * 3, dt=(1, 2), deep=deep)
