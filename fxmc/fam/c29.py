import itertools
import json
import os
import re
import shutil
import sys
import tempfile
import types

import numpy as np

from .. import build, env, impl
from .common import *

PID, LEVEL = 'C29', 'exploration'
ASSUMPTIONS = ['pyvis is replaced by a stand-in that records nodes and edges', 'totals, sizes and excesses outside of the alphabet behave like those below, at and above the threshold', 'a solver reports the bound and objective it is asked for']
RULE = ('(a) all assignments of value patterns to the totals, sizes and excesses of small systems as answers of the solver: the summary, its saved and its logged form are compared with those values; '
        '(b) the model size reported for systems of all element kinds is compared with the problem captured by a solver; (c) all small networks (kinds of components x buses x direction x order of adding): nodes and edges of the '
        'description, of the drawn network and of the page written are compared with the elements of the system')


# ------------------------------------------------------------------ summary
def sys_sum(kind):
    dt = (1, 2, 1)
    if kind == 'two':
        comps = [source('s', flow('f', 'b', inv(min=0, max=9, optional=True, fix_eff={'eff': [['c', 1]]}))), sink('d', flow('g', 'b', inv(fixed=3, optional=True))), source('p', flow('f', 'q', 1))]
        buses = {'b': {'penalty': 5}, 'q': {'penalty': None}}
    elif kind == 'one':
        comps = [source('s', flow('f', 'b', 3)), sink('d', flow('g', 'h', inv(fixed=3, optional=False)))]
        buses = {'b': {'penalty': 0}, 'h': {'penalty': 7}}
    else:
        S = dict(kind='Storage', label='S', cap=inv(min=1, max=4, optional=False, spec_eff=2), init=0, ins=[flow('c', 'b', 2)], outs=[flow('d', 'b', inv(min=0, max=5, optional=False))])
        comps = [S, source('s', flow('f', 'b', 3))]
        buses = {'b': {'penalty': 5}}
    return system(comps, dt=dt, effects=E2, buses=buses)


PATS = [[0, 0, 0], [0.0004, 0.0004, 0.0004], [0.0003, 0.0003, 0.0003], [0, 0, 0.5], [2, 0, 0], [0.0005, 0, 0]]
SIZES = [0.0, 5e-4, 0.0015, 3.0]
TOTALS = [0.0, -2.5, 1234.5]


def answers(S, kind, deep):
    """assignments observable -> value"""
    ex = [p for p in S.shape if p[-1] in ('excess_input', 'excess_output')]
    si = [p for p in S.shape if p[-1] == 'size']
    to = [p for p in S.shape if p[0] == 'Effects' and p[-1].endswith('sum') and S.shape[p] == 1]
    for a in itertools.product(PATS if deep or len(ex) < 4 else PATS[:4], repeat=len(ex)):
        yield dict(zip(ex, a))
    for a in itertools.product(SIZES, repeat=len(si)):
        for b in PATS[:4:3]:
            yield {**dict(zip(si, a)), **{ex[0]: b}}
    for a in itertools.product(TOTALS if deep else TOTALS[1:], repeat=len(to)):
        yield dict(zip(to, a))


def run_sum(task):
    import flixOpt as fx
    import yaml
    from flixOpt.results import CalculationResults
    out = dict(viol=[], evals=0, nontrivial=0, tag='summary')
    spec = sys_sum(task['sys'])
    b = build.build(spec)
    c = fx.FullCalculation('calc', b.fs)
    c.do_modeling()
    S = impl.Sys(c)
    inp = {f'{cc["label"]}__{f["label"]}': f for cc in spec['comps'] for f in cc.get('ins', []) + cc.get('outs', [])}
    invest = {k: ('Components',) + tuple(k.split('__')) for k, f in inp.items() if isinstance(f.get('size'), dict)}
    for cc in spec['comps']:
        if isinstance(cc.get('cap'), dict):
            invest[cc['label']] = ('Components', cc['label'])
    for n, ans in enumerate(answers(S, task['sys'], task['deep'])):
        vals = {}
        for p, v in ans.items():
            for t, x in enumerate(np.atleast_1d(v)):
                w = S.where.get((p, t))
                if isinstance(w, (int, np.integer)):
                    vals[w] = float(x)
        obj, bound = 17.25 + n, -3.5 - n
        sv = impl.make_solver(S._set(lambda i: vals.get(i, 0.0)))
        old = sv.solve

        def solve(m, old=old, sv=sv):
            old(m)
            sv.objective, sv.best_bound = obj, bound
        sv.solve = solve
        save = task['save'] and n % 25 == 0
        d = tempfile.mkdtemp(prefix='c29_', dir=env.scratch()) if save else None
        try:
            c.solve(sv, save_results=d or False)
            mr = c.system_model.main_results
            forms = [('main results', mr), ('infos', c.system_model.infos['Main Results'])]
            if save:
                undo = standin()
                try:
                    net = CalculationResults('calc', d).visualize_network(path=os.path.join(d, 'net.html'), show=False)
                finally:
                    undo()
                t = drawn(net.nodes, net.edges, *expected(spec['comps']), 'network of loaded results') if net is not None else 'no network returned'
                if t and len(out['viol']) < 3:
                    out['viol'].append(dict(kind='network', text=t))
                forms.append(('file', yaml.safe_load(open(os.path.join(d, 'calc_infos.yaml')))['Model']['Main Results']))
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)
        flat = impl.flat(c.results())
        out['evals'] += 1
        out['nontrivial'] += bool(vals)
        for name, mr in forms:
            t = compare(mr, flat, spec, invest, bound)
            if t and len(out['viol']) < 3:
                out['viol'].append(dict(kind='summary', text=f'{name}: {t} for {({"/".join(p): v for p, v in ans.items()})}'[:900]))
    return out


def near(a, b):
    return isinstance(a, (int, float, np.number)) and abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))


def one_of(x):
    return float(np.atleast_1d(x)[0])


def compare(mr, flat, spec, invest, bound):
    # effects
    if len(mr['Effects']) != len(spec['effects']):
        return f'effects {list(mr["Effects"])}'
    for e in spec['effects']:
        x = mr['Effects'].get(f'{e["label"]} [u]')
        if x is None:
            return f'effects {list(mr["Effects"])}'
        for k, p in (('operation', ('operation', 'operation_sum')), ('invest', ('invest', 'invest_sum')), ('sum', ('all', 'all_sum'))):
            want = find(flat, ('Effects', e['label']), p)
            if not near(x[k], want):
                return f'{k} of {e["label"]} is {x[k]}, results have {want}'
    want = [one_of(v) for p, v in flat.items() if p[0] == 'Effects' and 'enalty' in p[1]]
    if not near(mr['penalty'], flat_penalty(flat)):
        return f'penalty {mr["penalty"]}, results have {flat_penalty(flat)}'
    if not near(mr['Objective'], flat[('Objective',)]):
        return f'objective {mr["Objective"]}, results have {flat[("Objective",)]}'
    if not near(mr['lower bound'], bound):
        return f'lower bound {mr["lower bound"]}, the solver reported {bound}'
    want = sorted(b for b, d in spec['buses'].items() if d.get('penalty') is not None and
                  any(np.sum(flat[('Buses', b, k)]) > 1e-3 for k in ('excess_input', 'excess_output')))
    if sorted(mr['buses with excess']) != want:
        return f'buses with excess {mr["buses with excess"]}, should be {want}'
    got = mr['Invest-Decisions']
    for side, test in (('invested', lambda s: s > 1e-3), ('not invested', lambda s: s <= 1e-3)):
        w = {}
        for k, p in invest.items():
            s = find(flat, p, ('Investment', 'size'))
            if test(s):
                w[k] = s
        if set(got[side]) != set(w) or not all(near(got[side][k], w[k]) for k in w):
            return f'{side}: {got[side]}, should be {w}'
    return None


def find(flat, pre, suf):
    m = [v for p, v in flat.items() if p[:len(pre)] == pre and len(p) == len(pre) + len(suf) and p[len(pre):] == suf]
    if len(m) != 1:
        raise impl.HarnessError(f'{pre} {suf}: {[p for p in flat if p[:len(pre)] == pre]}')
    return one_of(m[0])


def flat_penalty(flat):
    m = [v for p, v in flat.items() if p[0] == 'Effects' and p[1] == 'penalty' and p[-1].endswith('sum')]
    if len(m) != 1:
        raise impl.HarnessError(f'penalty: {[p for p in flat if p[0] == "Effects"]}')
    return one_of(m[0])


# ------------------------------------------------------------------ model size
def sys_size(kind, T):
    dt = (1, 2, 1, 1)[:T]
    buses = {'b': {'penalty': 5}, 'q': {'penalty': None}, 'h': {'penalty': 1}}
    f = lambda l, b, s=4, **k: flow(l, b, s, **k)
    comps = {
        'src': [source('s', f('f', 'b')), sink('d', f('f', 'q'))],
        'onoff': [source('s', f('f', 'b', rmin=0.5, onoff=dict(con_min=2, coff_max=3, sw_max=1, on_max=3, switch_eff=1, run_eff=2))), sink('d', f('f', 'b', fh_max=3))],
        'inv': [source('s', f('f', 'b', inv(min=1, max=3, optional=True, fix_eff=2, seg=([(1, 2), (2, 3)], [['c', [(0, 1), (1, 4)]]])))), sink('d', f('f', 'q', inv(fixed=3, optional=True)))],
        'sto': [dict(kind='Storage', label='S', cap=inv(min=1, max=4), init='lastValueOfSim', ins=[f('c', 'b', 2)], outs=[f('d', 'b', 2)], loss=0.1)],
        'conv': [dict(kind='LinearConverter', label='K', ins=[f('i', 'b')], outs=[f('o', 'q'), f('p', 'h')], factors=[[['i', 1], ['o', 2]], [['i', {'a': [1, 2, 3, 4][:T]}], ['p', 2]]], onoff=dict(on_min=1))],
        'seg': [dict(kind='LinearConverter', label='K', ins=[f('i', 'b')], outs=[f('o', 'q')], segs=[['i', [[0, 1], [2, 4]]], ['o', [[0, 1], [1, 2]]]])],
        'trans': [dict(kind='Transmission', label='t', ins=[f('i', 'b'), f('j', 'q')], outs=[f('o', 'q'), f('u', 'b')], rel=0.1, abs=0.2)],
        'ss': [dict(kind='SourceAndSink', label='x', ins=[f('i', 'b')], outs=[f('o', 'b')])],
    }[kind]
    return system(comps, dt=dt, effects=E2 + [dict(label='z', std=False, obj=False, op_max=9, tot_max=9, oph_max=4)], buses={k: v for k, v in buses.items() if any(x['bus'] == k for c in comps for x in c.get('ins', []) + c.get('outs', []))})


def run_size(task):
    import flixOpt as fx
    import pyomo.environ as pyo
    out = dict(viol=[], evals=0, nontrivial=1, tag='size')
    for T in task['T']:
        b = build.build(sys_size(task['sys'], T))
        w = task.get('window')
        c = fx.FullCalculation('calc', b.fs, time_indices=w if w and w[-1] < T else None)
        c.do_modeling()
        got = {}

        def fn(m):
            var = list(m.component_objects(pyo.Var))
            con = list(m.component_objects(pyo.Constraint, active=True))
            n = lambda x: len(list(x.values()))
            eq = [x for x in con if all(d.equality for d in x.values())]
            iq = [x for x in con if not all(d.equality for d in x.values())]
            got.update({'No. of Vars.': len(var), 'No. of Vars. (single)': sum(map(n, var)), 'No. of Eqs.': len(eq), 'No. of Eqs. (single)': sum(map(n, eq)),
                        'No. of Ineqs.': len(iq), 'No. of Ineqs. (single)': sum(map(n, iq))})
            got['log'] = 'some log'
            for v in m.component_data_objects(pyo.Var):
                v.set_value(0.0, skip_validation=True)
        sv = impl.make_solver(fn)
        sv.log = 'some log'
        c.solve(sv)
        inf = c.system_model.infos
        out['evals'] += 1
        text = c.system_model.describe_size()
        for k, v in inf['Model Size'].items():
            if k in got and v != got[k]:
                out['viol'].append(dict(kind='size', text=f'{k}: reported {v}, the solver got {got[k]} ({task["sys"]}, {T} steps)'))
        num = [int(x) for x in re.findall(r'\d+', text)]
        want = [got[k] for k in ('No. of Eqs.', 'No. of Eqs. (single)', 'No. of Ineqs.', 'No. of Ineqs. (single)', 'No. of Vars.', 'No. of Vars. (single)')]
        if num != want:
            out['viol'].append(dict(kind='size', text=f'description {text!r}, the solver got {want} ({task["sys"]}, {T} steps)'))
    return out


# ------------------------------------------------------------------ networks
KINDS = {
    'src': lambda l, x, y: source(l, flow('f', x, 2)),
    'snk': lambda l, x, y: sink(l, flow('f', x, 2)),
    'ss': lambda l, x, y: dict(kind='SourceAndSink', label=l, ins=[flow('i', x, 2)], outs=[flow('o', y, 2)]),
    'conv': lambda l, x, y: dict(kind='LinearConverter', label=l, ins=[flow('i', x, 2), flow('j', y, 2)], outs=[flow('o', y, 2)], factors=[[['i', 1], ['o', 1]]]),
    'sto': lambda l, x, y: dict(kind='Storage', label=l, cap=4, ins=[flow('c', x, 2)], outs=[flow('d', y, 2)]),
    'boiler': lambda l, x, y: dict(kind='Boiler', label=l, eta=0.5, ins=[flow('i', x, 2)], outs=[flow('o', y, 2)]),
    'chp': lambda l, x, y: dict(kind='CHP', label=l, eta_th=0.5, eta_el=0.25, ins=[flow('i', x, 2)], outs=[flow('o', y, 2), flow('p', x, 2)]),
    'trans': lambda l, x, y: dict(kind='Transmission', label=l, ins=[flow('i', x, 2), flow('j', y, 2)], outs=[flow('o', y, 2), flow('p', x, 2)]),
}


def zero(m):
    import pyomo.environ as pyo
    for v in m.component_data_objects(pyo.Var):
        v.set_value(0.0, skip_validation=True)


def run_net(task):
    import webbrowser
    import flixOpt as fx
    import flixOpt.results
    out = dict(viol=[], evals=0, nontrivial=0, tag='network')
    opened = []
    old, cwd = webbrowser.open, os.getcwd()
    webbrowser.open = lambda url, *a, **k: opened.append(url) or True
    base = tempfile.mkdtemp(prefix='c29_', dir=env.scratch())
    undo = standin()
    try:
        os.chdir(base)
        for comps, names, n in task['nets']:
            specs = [KINDS[k](l, names[x], names[y]) for k, l, x, y in comps]
            spec = system(specs, effects=E1)
            if n % 2:
                spec['order'] = 'reversed'
            b = build.build(spec)
            nodes, edges = expected(specs)
            N, E = b.fs.network_infos()
            out['evals'] += 1
            out['nontrivial'] += 1
            bad = None
            got = {k: v['class'] == 'Bus' for k, v in N.items()}
            if got != nodes or any(v['label'] != k for k, v in N.items()) or any(v['class'] not in ('Bus', 'Component') for v in N.values()):
                bad = f'nodes {[(k, v["label"], v["class"]) for k, v in N.items()]}, should be {nodes}'
            got = {k: (v['label'], v['start'], v['end']) for k, v in E.items()}
            if got != edges:
                bad = f'edges {got}, should be {edges}'
            asks = [(b.fs, 'returned', False, False)]
            if n % 5 == 0:
                asks += [(b.fs, 'page', f'n{n % 3}.html', n % 4 == 0), (b.fs, 'default', None, True), (b.fs, 'shown only', False, True)]
            if n % 7 == 0:
                c = fx.FullCalculation('calc', b.fs)
                c.do_modeling()
                c.solve(impl.make_solver(zero), save_results='saved')
                r = fx.results.CalculationResults('calc', 'saved')
                asks += [(r, 'of results, returned', False, False), (r, 'of results, page', f'r{n % 3}.html', n % 2 == 0), (r, 'of results, shown only', False, True)]
            for obj, what, path, show in asks:
                before, nb = set(os.listdir('.')), len(opened)
                for x in before:
                    if x.endswith('.html'):
                        os.remove(x)
                before = set(os.listdir('.'))
                ctl = [True, False, ['nodes', 'layout']][n % 3]
                if path is None:
                    net = obj.visualize_network()
                    path, ctl = 'flow_system.html', True
                else:
                    net = obj.visualize_network(path=path, show=show, controls=ctl)
                if net is None:
                    bad = bad or f'{what}: no network returned'
                    break
                if net.buttons != (ctl or None):
                    bad = bad or f'{what}: controls {net.buttons}, asked for {ctl}'
                bad = bad or drawn(net.nodes, net.edges, nodes, edges, what)
                shown = path or ('network.html' if show else None)
                if set(os.listdir('.')) - before != ({shown} if shown else set()):
                    bad = bad or f'{what}: files written: {set(os.listdir(".")) - before}, path {path}, show={show}'
                    break
                if shown:
                    bad = bad or page(open(shown).read(), nodes, edges)
                if (len(opened) > nb) != show:
                    bad = bad or f'{what}: opened in a browser: {opened[nb:]}, show={show}'
                if show and opened and not opened[-1].endswith('/' + shown):
                    bad = bad or f'{what}: opened {opened[-1]} instead of {shown}'
            if bad and len(out['viol']) < 3:
                out['viol'].append(dict(kind='network', text=f'{bad} in {comps}'[:900]))
    finally:
        webbrowser.open = old
        undo()
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    return out


def drawn(ns, es, nodes, edges, what):
    if sorted(x['id'] for x in ns) != sorted(nodes) or any(x['label'] != x['id'] for x in ns):
        return f'{what}: nodes {[(x["id"], x["label"]) for x in ns]}, should be {list(nodes)}'
    shapes = [{x['shape'] for x in ns if nodes[x['id']] is k} for k in (False, True)]
    if any(len(s) > 1 for s in shapes) or shapes[0] & shapes[1]:
        return f'{what}: buses and components cannot be told apart: {shapes}'
    got = sorted((x['label'], x['from'], x['to']) for x in es)
    if got != sorted(edges.values()):
        return f'{what}: edges {got}, should be {sorted(edges.values())}'
    if any(x.get('arrows') != 'to' for x in es):
        return f'{what}: direction of an edge is missing'
    return None


class Network:
    """records what is drawn, in place of pyvis.network.Network"""

    def __init__(self, directed=False, **kw):
        self.directed, self.nodes, self.edges, self.buttons = directed, [], [], None

    def add_node(self, n_id, label=None, shape='dot', color='#97c2fc', **kw):
        if n_id not in [x['id'] for x in self.nodes]:
            self.nodes.append(dict(id=n_id, label=label or n_id, shape=shape, color=color, **kw))

    def add_nodes(self, ids, **kw):
        for i, n in enumerate(ids):
            self.add_node(n, **{k: v[i] for k, v in kw.items()})

    def add_edge(self, source, to, **kw):
        assert {source, to} <= {x['id'] for x in self.nodes}, 'unknown node'
        if 'arrows' not in kw and self.directed:
            kw['arrows'] = 'to'
        self.edges.append({'from': source, 'to': to, **kw})

    def show_buttons(self, filter_=None):
        self.buttons = filter_

    def write_html(self, name, *a, **k):
        json.dump([self.nodes, self.edges], open(str(name), 'w'))

    save_graph = write_html

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return lambda *a, **k: None


def standin():
    mods = {k: sys.modules.get(k) for k in ('pyvis', 'pyvis.network')}
    pv, pn = types.ModuleType('pyvis'), types.ModuleType('pyvis.network')
    pn.Network = Network
    pv.network = pn
    sys.modules.update({'pyvis': pv, 'pyvis.network': pn})

    def undo():
        for k, v in mods.items():
            sys.modules.pop(k)
            if v is not None:
                sys.modules[k] = v
    return undo


def expected(specs):
    nodes = {c['label']: False for c in specs}
    nodes.update({f['bus']: True for c in specs for f in c.get('ins', []) + c.get('outs', [])})
    edges = {f'{c["label"]}__{f["label"]}': (f['label'], f['bus'], c['label']) for c in specs for f in c.get('ins', [])}
    edges.update({f'{c["label"]}__{f["label"]}': (f['label'], c['label'], f['bus']) for c in specs for f in c.get('outs', [])})
    return nodes, edges


def page(text, nodes, edges):
    return drawn(*json.loads(text), nodes, edges, 'page')


def run(task):
    return {'sum': run_sum, 'size': run_size, 'net': run_net}[task['what']](task)


def tasks(tier):
    deep = tier == 'thorough'
    for s in ('two', 'one', 'sto'):
        for save in (False, True):
            if not save or s != 'one':
                yield dict(what='sum', sys=s, deep=deep, save=save)
    for s in ('src', 'onoff', 'inv', 'sto', 'conv', 'seg', 'trans', 'ss'):
        yield dict(what='size', sys=s, T=[2, 3, 4])
        yield dict(what='size', sys=s, T=[4], window=[1, 2])
    names = (['a', 'b'], ['Bus 1', 'ä_b'])
    group, n = [], 0
    ks = list(KINDS)
    for r in (1, 2, 3) if deep else (1, 2):
        for kk in itertools.product(ks, repeat=r):
            for at in itertools.product(((0, 1), (1, 0), (0, 0)) if r < 3 else ((0, 1), (1, 0)), repeat=r):
                group.append([[[k, f'{"XYZ"[i]}{"" if n % 2 else " ü"}', x, y] for i, (k, (x, y)) in enumerate(zip(kk, at))], names[n % 2], n])
                n += 1
                if len(group) == 40:
                    yield dict(what='net', nets=group)
                    group = []
    if group:
        yield dict(what='net', nets=group)
