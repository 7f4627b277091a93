import itertools

import numpy as np

from .. import build, explore, impl
from .common import *
from .c20 import capture

PID, LEVEL = 'C23', 'exploration'
ASSUMPTIONS = ['constant arrays count as scalars (their length is not checked)', 'labels are compared within their kind (components, effects, buses)',
               'wrong lengths: horizons of at least three steps', 'a calculation whose last segment has a single step is outside of the domain']
RULE = ('every sequence of additions (components, effects; new, repeated, same label, same bus label) up to the depth on one flow system against a rule list, the surviving system has to hand the same '
        'problem to the solver as a system that never saw the rejected elements; every single defect at every position of otherwise well-formed systems has to be rejected before the solver is called, '
        'the nearest well-formed variants accepted; all segment and period lengths')


# ---- sequences of additions
def elements():
    import flixOpt as fx

    B = {k: fx.Bus(k[0], excess_penalty_per_flow_hour=9) for k in ('b', 'b!', 'd', 'd!')}     # b and b! have the same label
    C = {}
    for name, (label, bus, kind) in {'P': ('p', 'b', 0), 'P2': ('p', 'd', 0), 'Q': ('q', 'b', 1), 'R': ('r', 'b!', 1), 'S': ('s', 'd', 0), 'U': ('u', ('b', 'd!'), 2), 'V': ('v', ('d!', 'd'), 2),
                                     'W': ('w', ('b', 'd'), 2)}.items():
        if kind == 0:
            C[name] = fx.Source(label, source=fx.Flow('f', B[bus], size=1, effects_per_flow_hour=2))
        elif kind == 1:
            C[name] = fx.Sink(label, sink=fx.Flow('f', B[bus], size=2))
        else:
            i, o = fx.Flow('i', B[bus[0]], size=1), fx.Flow('o', B[bus[1]], size=1)
            C[name] = fx.LinearConverter(label, inputs=[i], outputs=[o], conversion_factors=[{i: 0.5, o: 1}])
    E = {}
    for name, (label, std, obj) in {'e': ('e', True, True), 'e2': ('e', False, False), 'g': ('g', True, False), 'h': ('h', False, True), 'k': ('k', False, False)}.items():
        E[name] = fx.Effect(label, '', '', is_standard=std, is_objective=obj)
    return dict(C, **E), {k: v for k, v in B.items()}


KIND = {'P': ('p', ['b']), 'P2': ('p', ['d']), 'Q': ('q', ['b']), 'R': ('r', ['b!']), 'S': ('s', ['d']), 'U': ('u', ['b', 'd!']), 'V': ('v', ['d!', 'd']), 'W': ('w', ['b', 'd'])}
EFF = {'e': ('e', True, True), 'e2': ('e', False, False), 'g': ('g', True, False), 'h': ('h', False, True), 'k': ('k', False, False)}


def rule(state, x):
    """-> is x rejected in the state (sequence of accepted names)"""
    if x in EFF:
        l, s, o = EFF[x]
        have = [EFF[y] for y in state if y in EFF]
        return any(y[0] == l for y in have) or (s and any(y[1] for y in have)) or (o and any(y[2] for y in have))
    l, bs = KIND[x]
    have = [KIND[y] for y in state if y in KIND]
    if any(y[0] == l for y in have):
        return True
    used = {}
    for y in have:
        for b in y[1]:
            used[b[0]] = b
    for b in bs:
        if used.setdefault(b[0], b) != b:
            return True
    return False


def system_():
    import flixOpt as fx
    return fx.FlowSystem(np.datetime64('2020-01-01') + np.arange(3) * np.timedelta64(1, 'h'))


def add(fs, el, how):
    if how == 1:
        (fs.add_effects if hasattr(el, 'is_standard') else fs.add_components)(el)
    else:
        fs.add_elements(el)


def problem(fs):
    import flixOpt as fx
    c = fx.FullCalculation('c', fs)
    c.do_modeling()
    return capture(c, 1.0)


def sequence(seq, how, out):
    fs = system_()
    els, _ = elements()
    acc = []
    if how == 2:      # one call
        exp = [x for x in seq]
        bad = None
        for x in seq:
            if rule(acc, x):
                bad = x
                break
            acc.append(x)
        try:
            fs.add_elements(*[els[x] for x in seq])
            if bad:
                return f'add_elements{seq} accepted although {bad} is ill-formed'
        except Exception as e:
            if not bad:
                return f'add_elements{seq} rejected: {type(e).__name__}: {e}'
    else:
        for x in seq:
            rej = rule(acc, x)
            try:
                add(fs, els[x], how)
                ok = True
            except Exception as e:
                ok, why = False, e
            if ok and rej:
                return f'{x} accepted after {acc}'
            if not ok and not rej:
                return f'{x} rejected after {acc}: {type(why).__name__}: {why}'
            if not rej:
                acc.append(x)
    out['transitions'] += len(seq)
    want = [KIND[x][0] for x in acc if x in KIND]
    if list(fs.components) != want or [fs.components[k] for k in want] != [els[x] for x in acc if x in KIND]:
        return f'components {list(fs.components)} after {seq}, should be {want}'
    want = [EFF[x][0] for x in acc if x in EFF]
    if list(fs.effect_collection.effects) != want:
        return f'effects {list(fs.effect_collection.effects)} after {seq}, should be {want}'
    std = [x for x in acc if x in EFF and EFF[x][1]]
    obj = [x for x in acc if x in EFF and EFF[x][2]]
    if (fs.effect_collection.standard_effect is not None) != bool(std) or (fs.effect_collection.objective_effect is not None) != bool(obj):
        return f'standard/objective effect after {seq}'
    if std and obj and any(x in KIND for x in acc):
        got = problem(fs)
        k = tuple(acc)
        if k not in FRESH:
            f2 = system_()
            e2, _ = elements()
            for x in acc:
                add(f2, e2[x], 0)
            FRESH[k] = problem(f2)
        out['feeds'] += 1
        if got != FRESH[k]:
            return f'after {seq} (accepted: {acc}) the problem differs from that of a system of only the accepted elements'
    return None


FRESH = {}


# ---- single defects
def attempt(fn):
    """-> None if everything up to the solver works, else the exception"""
    try:
        fn()
    except impl.HarnessError:
        raise
    except Exception as e:
        return e
    return None


def modelled(spec):
    _, c = explore.model(spec)
    capture(c, 1.0)


def direct(name, variant):
    """python constructions that a specification cannot express"""
    import flixOpt as fx
    T = 3
    b, d, w = (fx.Bus(x, excess_penalty_per_flow_hour=9) for x in ('b', 'd', 'w'))
    eff = fx.Effect('e', '', '', is_standard=True, is_objective=True)
    els = [eff]
    F = fx.Flow
    inv_ = fx.InvestParameters
    kw = dict(on_off_parameters=fx.OnOffParameters()) if variant.get('on') else {}
    p = variant.get('p')
    if name == 'factors':           # p: list of equations over flow names, 'x' is a foreign flow
        n_in, n_out = variant['n']
        ins = [F(f'i{k}', b, size=1) for k in range(n_in)]
        outs = [F(f'o{k}', d, size=1) for k in range(n_out)]
        foreign = F('x', b, size=1)
        names = dict({f'i{k}': f for k, f in enumerate(ins)}, **{f'o{k}': f for k, f in enumerate(outs)}, x=foreign)
        if variant.get('foreign_used'):
            els.append(fx.Source('other', source=foreign))
        els.append(fx.LinearConverter('c', inputs=ins, outputs=outs, conversion_factors=[{names[k]: 2 for k in eq} for eq in p], **kw))
    elif name == 'kinds':           # no / both / one kind of conversion
        i, o = F('i', b, size=1), F('o', d, size=1)
        fac = {'none': None, 'empty': [], 'yes': [{i: 1, o: 1}]}[p[0]]
        seg = {'none': None, 'empty': {}, 'yes': {i: [(0, 1)], o: [(0, 1)]}}[p[1]]
        els.append(fx.LinearConverter('c', inputs=[i], outputs=[o], conversion_factors=fac, segmented_conversion_factors=seg, **kw))
    elif name == 'segsize':         # sizes of a segmented converter
        sz = {'num': 4, 'none': None, 'fixed': inv_(fixed_size=4, optional=False), 'fixedopt': inv_(fixed_size=4), 'var': inv_(maximum_size=4), 'varmin': inv_(minimum_size=1, maximum_size=4, optional=False)}
        fl = [F(x, q, **({} if s == 'none' else {'size': sz[s]})) for x, q, s in zip('iop', (b, d, w), p)]
        els.append(fx.LinearConverter('c', inputs=fl[:1], outputs=fl[1:], segmented_conversion_factors={f: [(0, 1)] for f in fl}, **kw))
    elif name == 'minmax':
        conv = {'s': lambda x: x[0], 'a': np.array, 'l': list, 'ts': lambda x: fx.TimeSeriesData(np.array(x)), 'tss': lambda x: fx.TimeSeriesData(x[0]), 'n': lambda x: np.float64(x[0])}
        sz = {'num': 2, 'inv': inv_(maximum_size=2), 'none': None}[variant['size']]
        f = F('f', b, relative_minimum=conv[p[0]](p[1]), relative_maximum=conv[p[2]](p[3]), **({} if sz is None else {'size': sz}), **kw)
        els.append(fx.Source('s', source=f) if variant['pos'] == 'out' else fx.Sink('s', sink=f))
    elif name == 'transmission':
        q = dict(b=b, d=d, w=w, b2=fx.Bus('b', excess_penalty_per_flow_hour=9))
        sz = {'num': 1, 'inv': inv_(maximum_size=2), 'none': None}
        fl = [None if x is None else F(l, q[x], **({} if s == 'none' else {'size': sz[s]})) for l, x, s in zip(('i1', 'o1', 'i2', 'o2'), p, variant['sizes'])]
        els.append(fx.Transmission('t', in1=fl[0], out1=fl[1], in2=fl[2], out2=fl[3], relative_losses=0.5, absolute_losses=variant.get('abs'), **kw))
    elif name == 'circular':        # shares between effects set after construction: p = list of (from, to), kind
        E = {x: fx.Effect(x, '', '') for x in 'xyz'}
        a = 'specific_share_to_other_effects_' + variant['kind']
        for s, t in p:
            getattr(E[s], a)[E[t]] = 0.5
        if variant.get('other'):
            getattr(E['y'], 'specific_share_to_other_effects_' + variant['other'])[E['x']] = 0.5
        els += [E[x] for x in variant['order']] + [fx.Source('s', source=F('f', b, size=1, effects_per_flow_hour=1))]
    elif name == 'flows':           # flows of one component with the same label
        i, o = F(p[0], b, size=1), F(p[1], d, size=1)
        els.append({'conv': lambda: fx.LinearConverter('c', inputs=[i], outputs=[o], conversion_factors=[{i: 1, o: 1}], **kw), 'sto': lambda: fx.Storage('c', charging=i, discharging=o, capacity_in_flow_hours=1),
                    'tra': lambda: fx.Transmission('c', in1=i, out1=o, relative_losses=0.5, **kw)}[variant['comp']]())
    elif name == 'unknown':         # effects that are not part of the system
        k = fx.Effect('k', '', '')
        u = {'flow': dict(effects_per_flow_hour={k: 1}), 'switch': dict(on_off_parameters=fx.OnOffParameters(effects_per_switch_on={k: 1})), 'run': dict(on_off_parameters=fx.OnOffParameters(effects_per_running_hour={k: 1})),
             'fix': dict(size=inv_(maximum_size=2, fix_effects={k: 1})), 'spec': dict(size=inv_(maximum_size=2, specific_effects={k: 1}))}[p]
        els.append(fx.Source('s', source=F('f', b, **dict(dict(size=2), **u))))
        if variant['added']:
            els.append(k)
    elif name == 'initial':
        els.append(fx.Storage('s', charging=F('i', b, size=1), discharging=F('o', b, size=1), capacity_in_flow_hours=2, initial_charge_state=p))
    elif name == 'group':
        kw = {k: v for k, v in zip(('agg_group', 'agg_weight'), p) if v is not None}
        d_ = fx.TimeSeriesData(np.array([0.5, 0.25, 1.0]), **kw)
        els.append(fx.Source('s', source=F('f', b, size=1, fixed_relative_profile=d_)))
    elif name == 'nostandard':      # unkeyed effect values need a standard effect, every system an objective
        els = [fx.Effect('e', '', '', is_standard=variant['std'], is_objective=variant['obj']), fx.Effect('k', '', '')]
        v = variant['val']
        u = {'flow': dict(effects_per_flow_hour=v), 'switch': dict(on_off_parameters=fx.OnOffParameters(effects_per_switch_on=v)), 'run': dict(on_off_parameters=fx.OnOffParameters(effects_per_running_hour=v)),
             'fix': dict(size=inv_(maximum_size=2, fix_effects=v)), 'spec': dict(size=inv_(maximum_size=2, specific_effects=v)), 'divest': dict(size=inv_(maximum_size=2, divest_effects=v)),
             'none': {}, 'keyed': dict(effects_per_flow_hour={els[1]: v}), 'nonekey': dict(effects_per_flow_hour={els[1]: 3, None: v})}[p]
        els.append(fx.Source('s', source=F('f', b, **dict(dict(size=2), **u))))
    elif name == 'target':          # shares to effects that are not part of the system
        k = fx.Effect('k', '', '')
        els.append(fx.Effect('m', '', '', **{'specific_share_to_other_effects_' + variant['kind']: {k: 0.5}}))
        if variant['added']:
            els.append(k)
        els.append(fx.Source('s', source=F('f', b, size=1, effects_per_flow_hour={els[1]: 1})))
    elif name == 'objects':         # things that are no elements of a system
        f = F('f', b, size=1)
        fs = system_()
        fs.add_elements(*els)
        fs.add_elements(*{'bus': [b], 'flow': [f], 'text': ['x'], 'none': [None], 'second': [fx.Source('s', source=f), b], 'list': [[fx.Source('s', source=f)]], 'source': [fx.Source('s', source=f)], 'nothing': []}[p])
        if p == 'nothing':
            fs.add_elements(fx.Source('s', source=f))
        problem(fs)
        return
    elif name == 'window':
        n = variant['n']
        fs = fx.FlowSystem(np.datetime64('2020-01-01') + np.arange(n) * np.timedelta64(1, 'h'), last_time_step_hours=variant['last'])
        fs.add_elements(eff, fx.Source('s', source=F('f', b, size=1, relative_maximum=np.linspace(0.5, 1, n), effects_per_flow_hour=1)))
        w = {'r': lambda: range(*p), 'l': lambda: list(range(*p))}[variant['form']]()
        if variant['calc'] == 'full':
            c = fx.FullCalculation('c', fs, time_indices=w)
            c.do_modeling()
            capture(c, 1.0)
        else:
            c = fx.SegmentedCalculation('c', fs, 3, 0, time_indices=w)
            c.do_modeling_and_solve(impl.make_solver(lambda m: [v.set_value(0) for v in m.component_data_objects(__import__('pyomo.environ').environ.Var)]))
        return
    elif name == 'options':         # ways to get the results of a segmented calculation
        fs = fx.FlowSystem(np.datetime64('2020-01-01') + np.arange(6) * np.timedelta64(1, 'h'))
        fs.add_elements(eff, fx.Source('s', source=F('f', b, size=1, effects_per_flow_hour=1)))
        c = fx.SegmentedCalculation('c', fs, 3, 1)
        c.do_modeling_and_solve(impl.make_solver(lambda m: [v.set_value(0) for v in m.component_data_objects(__import__('pyomo.environ').environ.Var)]))
        c.results(**p)
        return
    elif name == 'level':
        from flixOpt import config
        import logging
        before = logging.getLogger('flixOpt').level
        try:
            config.change_logging_level(p)
        finally:
            logging.getLogger('flixOpt').setLevel(before)
        return
    elif name == 'stamps':
        t = np.array([np.datetime64('2020-01-01T00') + np.timedelta64(int(x), 'h') for x in p]).astype(f'datetime64[{variant["unit"]}]')
        fs = fx.FlowSystem(t, last_time_step_hours=variant['last'])
        return fs
    fs = system_()
    if variant.get('reverse'):
        els = els[::-1]
    fs.add_elements(*els)
    problem(fs)


def defects():
    """(name, variant, rejected?)"""
    # conversion equations
    for n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        names = [f'i{k}' for k in range(n[0])] + [f'o{k}' for k in range(n[1])]
        for k in range(1, sum(n) + 2):
            for on in (False, True):
                yield 'factors', dict(n=n, p=[names] * k, on=on), k > sum(n) - 1
        for x in range(sum(n)):
            for used in (False, True):
                yield 'factors', dict(n=n, p=[names[:x] + names[x + 1:] + ['x']], foreign_used=used), True
                yield 'factors', dict(n=n, p=[names + ['x']], foreign_used=used), True
            if sum(n) > 2:
                yield 'factors', dict(n=n, p=[names, names[:x] + names[x + 1:] + ['x']]), True
                yield 'factors', dict(n=n, p=[names[:x] + names[x + 1:]]), False
    for p in itertools.product(('none', 'empty', 'yes'), repeat=2):
        for on in (False, True):
            yield 'kinds', dict(p=p, on=on), (p[0] == 'yes') == (p[1] == 'yes')
    for p in itertools.product(('num', 'none', 'fixed', 'fixedopt', 'var', 'varmin'), repeat=3):
        if sum(x in ('num', 'none') for x in p) >= 1:
            for on in (False, True) if 'num' in p[:1] else (False,):
                yield 'segsize', dict(p=p, on=on), any(x.startswith('var') for x in p)
    # relative limits
    series = [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.25, 0.5, 0.25], [0.5, 0.25, 0.75], [0.75, 0.25, 0.25], [0.25, 0.25, 0.75]]
    for lo, hi in itertools.product(series, repeat=2):
        for f, g in itertools.product(('s', 'a', 'l', 'ts', 'n', 'tss'), repeat=2):
            if (f in ('s', 'n', 'tss') and len(set(lo)) > 1) or (g in ('s', 'n', 'tss') and len(set(hi)) > 1):
                continue
            if f == 'l' and g in ('s', 'n') or f not in ('a', 'ts') and g == 'l':
                pass
            for size in ('num', 'inv', 'none'):
                for pos in ('out', 'in'):
                    if (size, pos) in (('none', 'in'), ('inv', 'in')):
                        continue
                    for on in (False, True):
                        yield 'minmax', dict(p=(f, lo, g, hi), size=size, pos=pos, on=on), any(x > y for x, y in zip(lo, hi))
    # transmission
    for p in itertools.product(('b', 'd', 'w', 'b2'), repeat=4):
        if p[0] == 'b' and p[1] in ('d', 'w'):
            bad = p[2] != p[1] or p[3] != p[0]
            for ab in (None, 0.25):
                yield 'transmission', dict(p=p, sizes=['num'] * 4, abs=ab), bad
    for sizes in itertools.product(('num', 'none', 'inv'), repeat=4):
        for on in (False, True):
            yield 'transmission', dict(p=('b', 'd', 'd', 'b'), sizes=sizes, on=on), 'inv' in sizes[1:]
    for sizes in itertools.product(('num', 'none', 'inv'), repeat=2):
        yield 'transmission', dict(p=('b', 'd', None, None), sizes=list(sizes) + ['num'] * 2), sizes[1] == 'inv'
    yield 'transmission', dict(p=('b', 'd', 'w', None), sizes=['num'] * 4), True
    yield 'transmission', dict(p=('b', 'd', None, 'w'), sizes=['num'] * 4), True
    # shares between effects
    pairs = [(s, t) for s in 'xyz' for t in 'xyz' if s != t]
    for r in range(0, 4):
        for p in itertools.combinations(pairs, r):
            circ = any((t, s) in p for s, t in p)
            acyclic = not circ and not ({('x', 'y'), ('y', 'z'), ('z', 'x')} <= set(p)) and not ({('y', 'x'), ('z', 'y'), ('x', 'z')} <= set(p))
            if circ or acyclic:
                for kind in ('operation', 'invest'):
                    for order in ('xyz', 'zyx', 'yxz'):
                        yield 'circular', dict(p=p, kind=kind, order=order), circ
                        if acyclic and p == (('x', 'y'),):      # opposite directions of different kinds are no circle
                            yield 'circular', dict(p=p, kind=kind, order=order, other='invest' if kind == 'operation' else 'operation'), False
    for comp in ('conv', 'sto', 'tra'):
        for p in itertools.product('fg', repeat=2):
            for on in ((False, True) if comp != 'sto' else (False,)):
                yield 'flows', dict(p=p, comp=comp, on=on), p[0] == p[1]
    for p in ('flow', 'switch', 'run', 'fix', 'spec'):
        for added in (False, True):
            for rev in (False, True):
                yield 'unknown', dict(p=p, added=added, reverse=rev), not added
    for p in itertools.product((None, 'g', ''), (None, 0.5, 0, 1)):
        yield 'group', dict(p=p), p[0] is not None and p[1] is not None
    for p in ('flow', 'switch', 'run', 'fix', 'spec', 'divest', 'none', 'keyed', 'nonekey'):
        for std in (False, True):
            for obj in (False, True):
                for v in (2, 0.5, -1):
                    yield 'nostandard', dict(p=p, std=std, obj=obj, val=v), not obj or (not std and p not in ('none', 'keyed'))
    for kind in ('operation', 'invest'):
        for added in (False, True):
            for rev in (False, True):
                yield 'target', dict(kind=kind, added=added, reverse=rev), not added
    for p in ('bus', 'flow', 'text', 'none', 'second', 'list', 'source', 'nothing'):
        yield 'objects', dict(p=p), p not in ('source', 'nothing')
    for n in (4, 6):
        for calc in ('full', 'seg'):
            for a in range(0, n):
                for e in range(a + 2, n + 3):
                    if calc == 'seg' and (e - a < 3 or (e - a) % 3 == 1):
                        continue
                    for form in 'rl':
                        for last in (None, 2):
                            yield 'window', dict(p=(a, e), n=n, calc=calc, form=form, last=last), e > n
    names = ('combined_arrays', 'combined_scalars', 'individual_results')
    for r in range(4):
        for x in itertools.combinations(names, r):
            yield 'options', dict(p={k: True for k in x}), r != 1
            yield 'options', dict(p={k: k in x for k in names}), r != 1
    for p in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'VERBOSE', '', 'LOUD'):
        yield 'level', dict(p=p), p in ('VERBOSE', '', 'LOUD')
    for p in (0, 1, None, 'lastValueOfSim', 'lastvalueofsim', 'first', 2):
        yield 'initial', dict(p=p), isinstance(p, str) and p != 'lastValueOfSim'
    for p in itertools.product(range(4), repeat=3):
        for unit in ('s', 'm', 'ns', 'h'):
            for last in (None, 1, 2.5):
                dec = any(y < x for x, y in zip(p, p[1:]))
                if dec or all(y > x for x, y in zip(p, p[1:])):
                    yield 'stamps', dict(p=p, unit=unit, last=last), dec
    for last in (-1, -0.5):
        yield 'stamps', dict(p=(0, 1, 2), unit='s', last=last), True


# ---- lengths of data
def slots(a, T):
    dt = (1,) * T
    for k in ('rmin', 'rmax', 'fixed', 'eff'):
        for sz in (2, inv(max=2)):
            yield system([source('x', flow('f', 'b', sz, **{k: a}))], dt=dt)
            yield system([source('x', flow('f', 'b', sz, onoff={}, **{k: a}))], dt=dt)
    yield system([source('x', flow('f', 'b', 2, eff={'eff': [['c', a]]}))], dt=dt)
    for k in ('con_min', 'con_max', 'coff_min', 'coff_max', 'switch_eff', 'run_eff'):
        yield system([source('x', flow('f', 'b', 2, onoff={k: a}))], dt=dt)
        yield system([dict(kind='LinearConverter', label='L', factors=[[['i', 1], ['o', 1]]], onoff={k: a}, ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)])], dt=dt)
    yield system([source('x', flow('f', 'b', 2))], dt=dt, buses={'b': {'penalty': a}})
    for k in ('oph_max', 'oph_min'):
        yield system([source('x', flow('f', 'b', 2, eff=1))], dt=dt, effects=[{'label': 'c', 'std': True, 'obj': True, k: a}])
    yield system([source('x', flow('f', 'b', 2, eff=1))], dt=dt, effects=[dict(label='c', std=True, obj=True), dict(label='k', op_share=[['c', a]])])
    conv = dict(kind='LinearConverter', label='L', ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)])
    yield system([dict(conv, factors=[[['i', a], ['o', 1]]])], dt=dt)
    yield system([dict(conv, factors=[[['i', 1], ['o', a]]])], dt=dt)
    for p in ([[0, a]], [[a, 1]], [[0, 0.5], [0.5, a]]):
        yield system([dict(conv, segs=[['i', p], ['o', [[0, 1]] * len(p)]])], dt=dt)
        yield system([dict(conv, segs=[['i', [[0, 1]] * len(p)], ['o', p]])], dt=dt)
    for k in ('eta_c', 'eta_d', 'loss'):
        yield system([dict(kind='Storage', label='S', cap=2, ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)], **{k: a})], dt=dt)
    for k in ('rel', 'abs'):
        yield system([dict(kind='Transmission', label='S', ins=[flow('i', 'b', 1)], outs=[flow('o', 'b', 1)], **{k: a})], dt=dt)
    for kind, kw, ni, no in (('Boiler', dict(eta=a), 1, 1), ('HeatPump', dict(cop=a), 1, 1), ('Power2Heat', dict(eta=a), 1, 1), ('CoolingTower', dict(sed=a), 2, 0), ('CHP', dict(eta_th=a, eta_el=0.5), 1, 2),
                             ('CHP', dict(eta_th=0.5, eta_el=a), 1, 2)):
        yield system([dict(kind=kind, label='K', ins=[flow(f'i{j}', 'b', 4) for j in range(ni)], outs=[flow(f'o{j}', 'd', 4) for j in range(no)], **kw)], dt=dt)


def run(task):
    out = dict(viol=[], evals=0, transitions=0, feeds=0, nontrivial=0, tag=task['kind'])
    k = task['kind']
    build.TRACK = None

    def viol(text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=k, text=text, **kw))

    if k == 'sequence':
        for seq in task['seqs']:
            for how in task['hows']:
                out['evals'] += 1
                t = sequence(seq, how, out)
                if t:
                    viol(t)
        out['nontrivial'] = len(task['seqs'])
    elif k == 'defect':
        for name, variant, bad in task['items']:
            e = attempt(lambda: direct(name, variant))
            out['evals'] += 1
            out['nontrivial'] += bool(bad)
            if bad and e is None:
                viol(f'accepted: {name} {variant}')
            if not bad and e is not None:
                viol(f'rejected: {name} {variant}: {type(e).__name__}: {e}'[:600])
    elif k == 'length':
        T = task['T']
        for n in range(2, T + 4):
            data = [0.5, 0.25, 0.75, 0.5, 0.25, 0.5, 0.75, 0.25][:n]
            for i, spec in enumerate(slots({task['form']: data}, T)):
                e = attempt(lambda: modelled(spec))
                out['evals'] += 1
                out['nontrivial'] += n != T
                if n == T and e is not None:
                    viol(f'rejected: {type(e).__name__}: {e}'[:600], spec=spec)
                if n != T and e is None:
                    viol(f'accepted: data of length {n} for {T} steps', spec=spec)
    elif k == 'segments':
        import flixOpt as fx
        T = task['T']
        for w in task['windows']:
            n = T if w is None else len(w)
            for L in range(1, T + 3):
                for O in range(0, T + 2):
                    bad = L <= 2 or L + O > n
                    if not bad and n % L == 1:
                        continue
                    b = build.build(system([source('x', flow('f', 'b', 2))], dt=(1,) * T))

                    def go():
                        c = fx.SegmentedCalculation('c', b.fs, L, O, time_indices=w)
                        c.do_modeling_and_solve(impl.make_solver(lambda m: [v.set_value(0) for v in m.component_data_objects(__import__('pyomo.environ').environ.Var)]))
                    e = attempt(go)
                    out['evals'] += 1
                    out['nontrivial'] += bad
                    if bad and e is None:
                        viol(f'accepted: segments of {L} steps with overlap {O} for {n} steps')
                    if not bad and e is not None:
                        viol(f'rejected: segments of {L} steps with overlap {O} for {n} steps: {type(e).__name__}: {e}'[:500])
    elif k == 'periods':
        import flixOpt as fx
        dt, H = task['dt'], task['H']
        bad = len(set(dt)) > 1 or (H / dt[0]) % 1 != 0
        T = len(dt)
        spec = system([source('x', flow('f', 'b', 2, fixed={'a': [0.5, 0.25, 1.0, 0.75, 0.5, 0.25, 0.0, 1.0, 0.5][:T]}))], dt=dt)

        def go():
            b = build.build(spec)
            c = fx.AggregatedCalculation('c', b.fs, fx.AggregationParameters(H, 2, False, False))
            c.do_modeling()
            capture(c, 1.0)
        e = attempt(go)
        out['evals'] += 1
        out['nontrivial'] += bad
        if bad and e is None:
            viol(f'accepted: periods of {H} hours for steps {dt}')
        if not bad and e is not None:
            viol(f'rejected: periods of {H} hours for steps {dt}: {type(e).__name__}: {e}'[:500])
    return out


def chunks(it, n):
    it = list(it)
    for i in range(0, len(it), n):
        yield it[i:i + n]


def tasks(tier):
    deep = tier == 'thorough'
    names = list(KIND) + list(EFF)
    seqs = [s for n in range(1, 4) for s in itertools.product(names, repeat=n)]
    # the same with standard and objective effect present, so that the surviving system can be modelled
    seqs += [('e',) + s for s in itertools.product(list(KIND), repeat=3)] + [s + ('e',) for s in itertools.product(list(KIND), repeat=2)]
    if deep:
        seqs += [s for s in itertools.product(names, repeat=4)] + [('g',) + s + ('h',) for s in itertools.product(list(KIND), repeat=4)]
    for c in chunks(seqs, 60):
        yield dict(kind='sequence', seqs=c, hows=[0, 1, 2])
    for c in chunks(defects(), 60):
        yield dict(kind='defect', items=c)
    for T in (3, 4) + ((5, 6) if deep else ()):
        for form in ('a', 'ts'):
            yield dict(kind='length', T=T, form=form)
    for T in (3, 4, 5, 6, 7) + ((8, 9, 10) if deep else ()):
        for w in [None, list(range(T - 1)), list(range(1, T))]:
            if w is None or len(w) > 2:
                yield dict(kind='segments', T=T, windows=[w])
    for dt in ([1] * 6, [0.5] * 6, [2] * 6, [0.25] * 8, [1, 1, 1, 1, 1, 2], [2, 1, 1, 1, 1, 1], [1, 2, 1, 2, 1, 2]):
        for H in (0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, 4, 6):
            if (sum(dt) / H) % 1 == 0 and sum(dt) / H >= 2 or len(set(dt)) > 1 or (H / dt[0]) % 1:
                yield dict(kind='periods', dt=dt, H=H)
