"""Shared pieces of the families of small systems (see DESIGN.md)."""
import itertools

from .. import explore

E1 = [{'label': 'c', 'std': True, 'obj': True}]
E2 = [{'label': 'k', 'std': False, 'obj': False}, {'label': 'c', 'std': True, 'obj': True}]

LANG_ASSUMPTIONS = [
    'a solver returns only solutions of the problem it was handed, within tolerance 1e-6',
    'values outside of the letter grid behave like the grid values (below, at, between, at, beyond each limit)',
    'the reference transition system fxmc/ref.py states the property',
]
LANG_RULE = ('one case per system of the family (enumerated completely); per case every word over the grid (a rate for every flow in '
             'every step, sizes, free initial states) is decided by the reference transition system and by exhaustive search over the '
             'problem handed to the solver; both languages and all reported values are compared; states/transitions are '
             'those of the reference exploration')


def forms(v, T, full=True):
    """the same/different numbers in all supported forms"""
    if isinstance(v, list):
        return [{'a': v}, {'ts': v}] + ([{'l': v}] if full else [])
    return [v]


def prod(**kw):
    keys = list(kw)
    for vals in itertools.product(*[kw[k] for k in keys]):
        yield dict(zip(keys, vals))


def clean(d):
    return {k: v for k, v in d.items() if v is not None}


def system(comps, dt=(1, 2), effects=E1, buses=None, grid=None, **kw):
    if buses is None:
        used = []
        for c in comps:
            for f in c.get('ins', []) + c.get('outs', []):
                if f['bus'] not in used:
                    used.append(f['bus'])
        buses = {b: {'penalty': 1} for b in used}
    s = dict(dt=list(dt), effects=effects, buses=buses, comps=comps, grid=grid or {})
    s.update(clean(kw))
    return s


def flow(label, bus, size=None, **kw):
    d = dict(label=label, bus=bus)
    if size is not None:
        d['size'] = size
    d.update(clean(kw))
    return d


def source(label, f, **kw):
    return dict(kind='Source', label=label, outs=[f], **kw)


def sink(label, f, **kw):
    return dict(kind='Sink', label=label, ins=[f], **kw)


def inv(**kw):
    return {'inv': clean(kw)}


def one(f, grid, kind='Source', **kw):
    """a single flow at a bus with excess, in a source or a sink"""
    c = source('s', f) if kind == 'Source' else sink('s', f)
    return system([c], grid={f's.{f["label"]}': grid}, **kw)


def lang(spec, **opts):
    return dict(spec=spec, **opts)


def run_lang(pid, eff=False, feed=1):
    def run(task):
        r = explore.compare(task['spec'], pid, eff=task.get('eff', eff), feed=task.get('feed', feed),
                            attribute=task.get('attr'))
        r['nontrivial'] = int(r['words'] > 0)
        return r
    return run


def contexts(f, grid, sizes=None, small=False, **kw):
    """the flow `f` (label f, bus b) in every kind of component that holds flows -> systems.

    `grid` are the values of the flow; the other flows of the component get what they need to follow.
    """
    def mk(c, key, others, effects=E2, **more):
        s = system([c], effects=effects, grid={f'X.{key}': grid, **{f'X.{k}': v for k, v in others.items()}}, **kw, **more)
        if sizes is not None:
            s['sizes'] = {f'X.{key}': sizes}
        return s

    o = [0, max(grid)] if small else sorted({0, max(grid) / 2, max(grid)})
    oo = f.get('onoff')
    other = lambda **k: flow('o', k.pop('bus', 'd'), max(grid), **k)
    for pv in (True, False):
        yield mk(dict(kind='SourceAndSink', label='X', prevent=pv, ins=[f], outs=[other()]), 'f', {'o': o})
        yield mk(dict(kind='SourceAndSink', label='X', prevent=pv, ins=[other()], outs=[f]), 'f', {'o': o})
        yield mk(dict(kind='Storage', label='X', cap=1000, init=500, prevent=pv, ins=[f], outs=[other()]), 'f', {'o': o})
        yield mk(dict(kind='Storage', label='X', cap=1000, init=500, prevent=pv, ins=[other()], outs=[f]), 'f', {'o': o})
        # generic components: own on/off parameters, groups
        for co in (None, {}):
            yield mk(dict(kind='Component', label='X', onoff=co, ins=[f], outs=[other()], prevent=['f', 'o'] if pv else None), 'f', {'o': o})
            if not small:
                yield mk(dict(kind='Component', label='X', onoff=co, ins=[other(onoff={}), f], outs=[], prevent=['f', 'o'] if pv else None), 'f', {'o': o})
    for co in (None, {}, {'run_eff': 3}):
        for key, c in (('in', dict(ins=[f], outs=[other()])), ('out', dict(ins=[other()], outs=[f]))):
            yield mk(dict(kind='LinearConverter', label='X', onoff=co, factors=[[['f', 1], ['o', 1]]], **c), 'f', {'o': grid})
        yield mk(dict(kind='Boiler', label='X', onoff=co, eta=0.5, ins=[flow('o', 'd', 2 * max(grid))], outs=[f]), 'f', {'o': [2 * x for x in grid]})
    # transmissions: losses, both directions
    for ab in (None, 0.25) + (() if small else ({'a': [0.25, 0, 0.5, 0.25, 0.125, 0][:len(kw['dt'])]},)):
        out = sorted({0.0} | {float(x) for x in grid} | {x - a for x in grid for a in (0.25, 0.5, 0.125) if x - a > 0}) if ab is not None else grid
        yield mk(dict(kind='Transmission', label='X', abs=ab, ins=[f], outs=[flow('o', 'd', 2 * max(grid))]), 'f', {'o': out})
        if ab is None and not isinstance(f.get('size'), dict):
            yield mk(dict(kind='Transmission', label='X', abs=ab, ins=[flow('o', 'd', 2 * max(grid))], outs=[f]), 'f', {'o': grid})
        if isinstance(f.get('size'), dict):
            continue
        for pv in (True, False):
            for first in (True, False):
                i1, i2 = (f, flow('j', 'd', 1)) if first else (flow('j', 'b', 1), dict(f, bus='d'))
                c = dict(kind='Transmission', label='X', abs=ab, prevent=pv, ins=[i1, i2], outs=[flow('p', i2['bus'], 2 * max(grid)), flow('q', i1['bus'], 2 * max(grid))])
                a1 = [0, 1] if ab is None else [0, 1, 0.75, 0.5, 0.875]
                yield mk(c, 'f', {'j': [0, 1], 'p': out if first else a1, 'q': a1 if first else out})


SCALES = [(0.0125, 0.025, 0.0125), (24, 168, 24), (0.1, 0.2, 0.3), (1 / 360, 1 / 180, 1 / 120), (744, 672, 744)]


def scaled(which):
    """quantities that depend on the length of the steps, with steps of seconds up to months"""
    for dt in SCALES:
        tot, d0 = sum(dt), dt[0]
        if which == 'C01':
            for pen in (2, {'a': [1.0, 3.0, 2.0]}):
                yield system([source('s', flow('f', 'b', 2)), sink('k', flow('g', 'b', 1))], dt=dt, buses={'b': {'penalty': pen}}, grid={'s.f': [0, 1, 2], 'k.g': [0, 1]})
        if which == 'C03':
            for k in (dict(fh_max=tot), dict(fh_min=1.5 * tot), dict(lf_max=0.5), dict(lf_min=0.5), dict(fh_max=2 * d0)):
                yield one(flow('f', 'b', 2, **k), [0, 1, 2], dt=dt)
        if which == 'C04':
            for k in (dict(on_max=dt[1]), dict(on_min=2 * d0), dict(run_eff=2), {}):
                yield one(flow('f', 'b', 2, rmin=0.5, onoff=k), [0, 1, 2], dt=dt)
        if which == 'C05':
            for k in (dict(con_min=d0 + dt[1]), dict(con_max=dt[1]), dict(coff_min=dt[1]), dict(coff_max=d0)):
                for prev in (None, 1, {'a': [0.0, 1.0]}):
                    for pdt in (None, dt[1]):
                        yield one(flow('f', 'b', 1, prev=prev, onoff=k), [0, 1], dt=dt, prev_dt=pdt)
        if which == 'C10':
            for ev in (3, {'a': [1.0, 2.0, 0.0]}):
                yield one(flow('f', 'b', 2, eff=ev, onoff=dict(run_eff=ev, switch_eff=2)), [0, 1, 2], dt=dt)
        if which == 'C11':
            yield one(flow('f', 'b', 2, eff=1), [0, 1, 2], dt=dt, effects=[dict(label='c', std=True, obj=True, oph_max=1, tot_max=1.5 * tot)])
            yield one(flow('f', 'b', 2, eff=1), [0, 1, 2], dt=dt, effects=[dict(label='c', std=True, obj=True, oph_min={'a': [0.0, 1.0, 0.0]}, op_max=1.5 * tot)])
        if which == 'C13':
            for k in (dict(loss=0.5 if max(dt) < 1 else 0.001), dict(eta_c=0.5), dict(fmin=d0)):
                S = dict(kind='Storage', label='S', cap=2 * dt[1], init=d0, ins=[flow('c', 'b', 1)], outs=[flow('d', 'b', 1)], **k)
                yield system([S], dt=dt, grid={'S.c': [0, 1], 'S.d': [0, 1]})
