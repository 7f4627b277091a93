import ast
import copy
import inspect
import itertools
import json
import os
import re
import shutil
import tempfile

import numpy as np

from .. import build, env, impl
from .common import *
from . import c20

PID, LEVEL = 'C21', 'exploration'
ASSUMPTIONS = ['the file system stores what is written', 'effects are not named "penalty" or "Penalty" (reserved in the results)', 'answers of a solver are finite numbers']
RULE = ('all element kinds and features, forms of time stamps and data, labels, windows, full, aggregated and segmented calculations with prescribed answers (all values different), saved and loaded; all sequences of '
        'operations (model, solve and save, save again, model several and save in every order) up to the stated length on one flow system and folder: after every operation every saved calculation is loaded and '
        'compared with the results in memory at the time of saving, the arguments given by the user and the connections')

ANSWER = [0.1, 1 / 3, 2.0 ** 0.5, 3.0, 1e-7, 12345.678901234567, -0.25, 7.0, 0.0]


# ---------------------------------------------------------------- what the user gave
class Rec:
    """flixOpt with recorded constructor arguments"""

    def __init__(self, mod, log):
        self.__dict__['mod'], self.__dict__['log'] = mod, log

    def __getattr__(self, name):
        x = getattr(self.mod, name)
        if inspect.ismodule(x):
            return Rec(x, self.log)
        if inspect.isclass(x) and hasattr(x, 'infos'):
            def make(*a, **k):
                n = len(self.log)
                sig = inspect.signature(x.__init__)
                if n % 5 and 'meta_data' in sig.parameters and 'meta_data' not in k:    # most elements carry notes
                    k['meta_data'] = {'id': n, 'source': f'sheet {n}', 'span': [1.5, 2 * n], 'more': {'checked': True, 'by': None}}
                args = sig.bind(None, *a, **k).arguments
                args = {n: freeze(v) for n, v in args.items() if n not in ('self', 'kwargs')}
                o = x(*a, **k)
                self.log[id(o)] = (o, x, args)
                return o
            return make
        return x


def freeze(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if type(v).__name__ == 'TimeSeriesData':
        return freeze(v.data)
    return v


def record(spec):
    log = {}
    import flixOpt as fx
    orig = build._fx
    build._fx = lambda: Rec(fx, log)
    try:
        b = build.build(spec)
    finally:
        build._fx = orig
    b.log = log
    return b


class Ctx:
    def __init__(self, log, T, window, arrays, std):
        self.log, self.T, self.w, self.arrays, self.std, self.raw = log, T, window, arrays, std, False


EFFARGS = {'effects_per_flow_hour', 'effects_per_switch_on', 'effects_per_running_hour', 'fix_effects', 'specific_effects', 'divest_effects'}


def given(name, v, x, c):
    """x of the saved data is the value v given by the user -> text or None"""
    if name in EFFARGS and not isinstance(v, dict):
        v = {None: v}
    if isinstance(v, dict):
        keys = [c.std if k is None else k if isinstance(k, str) else k.label for k in v]
        if isinstance(x, dict) and 'null' in x and None in v:      # not resolved (the standard effect)
            keys = ['null' if k is None else l for k, l in zip(v, keys)]
        if not isinstance(x, dict) or set(x) != set(keys):
            return f'{name}: {x}, should have the keys {keys}'
        return next((t for t in (given(f'{name}/{k}', vv, x[k], c) for k, vv in zip(keys, v.values())) if t), None)
    if id(v) in c.log:
        return element(v, x, c, name)
    if v is None or isinstance(v, (str, bool)):
        return None if type(x) is type(v) and x == v else f'{name}: {x!r}, should be {v!r}'
    if isinstance(v, (list, tuple)) and v and not all(np.isscalar(y) for y in v):
        if not isinstance(x, (list, np.ndarray)) or len(x) != len(v):
            return f'{name}: {x!r}, should be {v!r}'
        return next((t for t in (given(f'{name}[{i}]', p, q, c) for i, (p, q) in enumerate(zip(v, x))) if t), None)
    a = np.asarray(v, dtype=float)
    try:
        y = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        return f'{name}: {x!r}, should be {v!r}'
    if a.ndim and len(a) == c.T and name != 'previous_flow_rate':
        if not c.arrays:
            return None
        # data handed to the constructor only (converters with fixed conversions, meta data) are saved as given
        if c.w is not None and not (c.raw and y.ndim and len(y) == c.T):
            a = a[c.w]
    if y.ndim == 0 or a.ndim == 0:
        ok = bool(np.all(a == y)) and (y.ndim == 0 or y.size > 0)
    else:
        ok = a.shape == y.shape and bool(np.all(a == y))
    return None if ok else f'{name}: {x!r}, should be {a.tolist()!r}'


def element(o, info, c, path):
    """saved description of an element or of parameters"""
    _, cls, args = c.log[id(o)]
    if not isinstance(info, dict) or str(info.get('class', '')).split(':')[0] != cls.__name__:
        return f'{path}: {str(info)[:80]} is no {cls.__name__}'
    par = inspect.signature(cls.__init__).parameters
    for n, v in args.items():
        if n == 'meta_data' and not v:
            continue
        if isinstance(v, (dict, list, tuple)) and not v:
            continue
        if cls.__name__ == 'SourceAndSink' and n == 'prevent_simultaneous_flows':     # recorded as the list of flows
            if len(info.get(n, [])) != (2 if v else 0):
                return f'{path}: {n} is {info.get(n)}, given was {v}'
            continue
        if n not in info:
            d = par[n].default
            if v is None or v is d or (np.isscalar(v) and v == d) or (not np.isscalar(v) and not isinstance(v, dict) and id(v) not in c.log and np.all(np.asarray(v) == d)):
                continue
            return f'{path}: {n} is missing, given was {v!r}'
        if v is None:
            continue
        c.raw = n == 'meta_data' or n.startswith(('eta', 'COP', 'specific_electricity')) and cls.__name__ != 'Storage'
        t = given(n, v, info[n], c)
        c.raw = False
        if t:
            return f'{path}: {t}'
    return None


# ---------------------------------------------------------------- comparison
def compare(a, b, path=''):
    """nested results: same keys, values and shapes"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return f'{path}: {str(a)[:60]} / {str(b)[:60]}'
        ka, kb = [k if isinstance(k, str) else str(k) for k in a], list(b)
        if sorted(ka) != sorted(kb):
            return f'{path}: entries {sorted(set(ka) ^ set(kb))[:4]} are missing or additional'
        return next((t for t in (compare(a[k], b[k if isinstance(k, str) else str(k)], f'{path}/{k}') for k in a) if t), None)
    if a is None or b is None:
        return None if a is b else f'{path}: {b} in the file, {a} in memory'
    if isinstance(a, (list, tuple)) and not all(np.isscalar(y) for y in a):
        if len(a) != len(b):
            return f'{path}: length'
        return next((t for t in (compare(x, y, f'{path}[{i}]') for i, (x, y) in enumerate(zip(a, b))) if t), None)
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype.kind == 'M':
        y = np.array(list(b), dtype='datetime64[us]')
        x = x.astype('datetime64[us]')
    if x.shape != y.shape or (x.size and not bool(np.all(x == y))):
        return f'{path}: {b!r} in the file, {a!r} in memory'
    return None


class Saved:
    """what a saved calculation has to contain"""

    def __init__(self, spec, b, name, kind, mem, extra, w, arrays=True, main=None):
        self.spec, self.b, self.name, self.kind, self.mem, self.extra, self.w, self.arrays, self.main = spec, b, name, kind, mem, extra, w, arrays, main

    def check(self, d):
        from flixOpt.results import CalculationResults
        r = CalculationResults(self.name, d)
        spec, mem = self.spec, self.mem
        # 1. results
        t = compare({k: v for k, v in mem.items()}, r.all_results)
        if t:
            return f'results {t}'
        comps = {c['label'] for c in spec['comps']}
        if set(r.component_results) != comps:
            return f'components {set(r.component_results)}'
        if set(r.bus_results) != set(spec['buses']):
            return f'buses {set(r.bus_results)}, should be {set(spec["buses"])}'
        effs = {e['label'] for e in spec['effects']}
        if set(r.effect_results) - {'Penalty'} != effs or (self.kind != 'segmented' and 'Penalty' not in r.effect_results):
            return f'effects {set(r.effect_results)}'
        for c in comps:
            t = compare(mem['Components'][c], r.component_results[c].all_results, c)
            if t:
                return f'component {t}'
        for b in spec['buses']:
            t = compare(mem['Buses'].get(b, {}), r.bus_results[b].all_results, b)
            if t:
                return f'bus {t}'
        for e in effs | {'Penalty'}:
            k = 'penalty' if e == 'Penalty' else e
            if k in mem['Effects']:
                t = compare(mem['Effects'][k], r.effect_results[e].all_results, e)
                if t:
                    return f'effect {t}'
        # 2. flows and connections
        flows = {}
        for c in spec['comps']:
            for inp, fl in ((True, c.get('ins', [])), (False, c.get('outs', []))):
                for f in fl:
                    flows[f'{c["label"]}__{f["label"]}'] = (c['label'], f['label'], f['bus'], inp)
        got = r.flow_results()
        if set(got) != set(flows):
            return f'flows {sorted(set(got) ^ set(flows))}'
        for k, (c, f, bus, inp) in flows.items():
            g = got[k]
            if (g.component_label, g.label, g.bus_label, bool(g.is_input_in_component), g.label_full) != (c, f, bus, inp, k):
                return f'flow {k}: {(g.component_label, g.label, g.bus_label, g.is_input_in_component, g.label_full)}'
            t = compare(mem['Components'][c][f], g.all_results, k) or compare(mem['Components'][c][f], g.variables, k)
            if t:
                return f'flow {t}'
        for c in comps:
            x = r.component_results[c]
            for side, inp in ((x.inputs, True), (x.outputs, False)):
                if sorted(f.label_full for f in side) != sorted(k for k, v in flows.items() if v[0] == c and v[3] == inp):
                    return f'{"inputs" if inp else "outputs"} of {c}: {side}'
        for bus in spec['buses']:
            x = r.bus_results[bus]
            for side, inp in ((x.inputs, False), (x.outputs, True)):
                if sorted(f.label_full for f in side) != sorted(k for k, v in flows.items() if v[2] == bus and v[3] == inp):
                    return f'{"outputs" if inp else "inputs"} of bus {bus}: {side}'
        # 3. time
        st = build.stamps(spec).astype('datetime64[us]')
        dt = np.array(spec['dt'], float)
        w = list(range(len(st))) if self.w is None else list(self.w)
        end = st[-1] + np.timedelta64(int(round(dt[-1] * 3600)), 's')
        full = np.append(st, end)
        want = np.append(full[w], full[w[-1] + 1])
        if not np.array_equal(r.time_with_end.astype('datetime64[us]'), want):
            return f'time stamps {r.time_with_end}, should be {want}'
        if not np.array_equal(r.time.astype('datetime64[us]'), want[:-1]):
            return f'time stamps without end {r.time}'
        if r.time_intervals_in_hours.shape != (len(w),) or not np.allclose(r.time_intervals_in_hours, dt[w], rtol=1e-12):
            return f'time steps {r.time_intervals_in_hours}, should be {dt[w]}'
        # 4. data
        std = next((e['label'] for e in spec['effects'] if e.get('std')), None)
        c = Ctx(self.b.log, len(st), None if self.w is None else w, self.arrays, std)
        for kind, els in (('Components', self.b.comps), ('Buses', self.b.buses), ('Effects', self.b.effects)):
            if set(r.all_data[kind]) - ({'penalty'} if kind == 'Effects' else set()) != set(els):
                return f'data of {kind}: {list(r.all_data[kind])}'
            for l, o in els.items():
                t = element(o, r.all_data[kind][l], c, l)
                if t:
                    return f'data of {t}'
        for cc in spec['comps']:
            info = r.component_results[cc['label']].all_infos
            for side in ('ins', 'outs'):
                fl = info['inputs' if side == 'ins' else 'outputs']
                want_ = cc.get(side, [])
                if sorted(f['label'] for f in fl) != sorted(f['label'] for f in want_):
                    return f'flows of {cc["label"]}: {[f["label"] for f in fl]}'
                for f in fl:
                    t = element(self.b.flows[f'{cc["label"]}.{f["label"]}'], f, c, f'{cc["label"]}.{f["label"]}')
                    if t:
                        return f'data of {t}'
        # 5. network and information
        net = r.calculation_infos['Network']
        if set(net['Nodes']) != comps | set(spec['buses']):
            return f'network nodes {list(net["Nodes"])}'
        for n, x in net['Nodes'].items():
            if x['label'] != n or x['class'] != ('Bus' if n in spec['buses'] else 'Component'):
                return f'network node {n}: {x["label"]}, {x["class"]}'
        if set(net['Edges']) != set(flows):
            return f'network edges {list(net["Edges"])}'
        for k, (cl, f, bus, inp) in flows.items():
            x = net['Edges'][k]
            if (x['label'], x['start'], x['end']) != ((f, bus, cl) if inp else (f, cl, bus)):
                return f'network edge {k}: {x["start"]} -> {x["end"]}'
        i = r.calculation_infos['Calculation']
        if i['Name'] != self.name:
            return f'name {i["Name"]}'
        if i['Number of indices'] != ('all' if self.w is None else len(self.w)):
            return f'number of indices {i["Number of indices"]}'
        if self.main is not None:
            t = compare(self.main, r.calculation_infos['Model']['Main Results'])
            if t:
                return f'main results {t}'
        if self.extra is not None:
            x = json.load(open(os.path.join(d, f'{self.name}_results_extra.json')))
            t = compare(self.extra[0], x['Individual Results']) or compare(self.extra[1], x['Skalar Results'])
            if t:
                return f'extra results {t}'
        return None


def solver(base, fail=None):
    """answers: all values different"""
    k = [0]

    def fn(m):
        import pyomo.environ as pyo
        vs = list(m.component_data_objects(pyo.Var))
        k[0] += 1
        for i, (_, v) in enumerate(sorted(zip(c20.strip([v.name for v in vs]), vs), key=lambda x: x[0])):
            v.set_value(ANSWER[i % len(ANSWER)] * (i + 1) + base, skip_validation=True)
    return impl.make_solver(fn)


class World:
    def __init__(self, spec):
        self.spec = spec
        self.b = record(spec)
        self.dir = tempfile.mkdtemp(prefix='c21_', dir=env.scratch())
        self.saved = {}
        self.pending = {}
        self.nr = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def model(self, op):
        import flixOpt as fx
        n = len(self.spec['dt'])
        name = {'F': 'full', 'W': 'window', 'V': 'other window', 'A': 'agg', 'D': 'agg_data'}[op]
        w = {'W': list(range(1, n - 1)), 'V': range(0, max(2, n // 2)), 'F': self.spec.get('window')}.get(op)
        if op in 'FWV':
            c = fx.FullCalculation(name, self.b.fs, time_indices=w)
        else:
            np.random.seed(1)
            c = fx.AggregatedCalculation(name, self.b.fs, fx.AggregationParameters(3, 2, True, op == 'D'))
        c.do_modeling()
        return c, name, w

    def save(self, op, c, name, w):
        self.nr += 1
        c.solve(solver(0.5 * self.nr), save_results=self.dir)
        self.saved[name] = Saved(self.spec, self.b, name, 'full', copy.deepcopy(c.results()), None, w, arrays=op != 'D', main=copy.deepcopy(c.system_model.main_results))

    def do(self, op):
        """F W V A D: model, solve, save; f w a d: model only (solved and saved by x in order, by y in reverse order); G: segmented; R: save the last one again"""
        import flixOpt as fx
        if op in 'FWVAD':
            c, name, w = self.model(op)
            self.save(op, c, name, w)
            self.last = (op, c, name, w)
        elif op in 'fwvad':
            self.pending[op] = self.model(op.upper())
        elif op in 'xy':
            for k in (list(self.pending) if op == 'x' else list(self.pending)[::-1]):
                c, name, w = self.pending[k]
                self.save(k.upper(), c, name, w)
        elif op == 'R':
            if getattr(self, 'last', None):
                self.save(*self.last)
        elif op == 'G':
            self.nr += 1
            c = fx.SegmentedCalculation('seg', self.b.fs, 3, 1, time_indices=self.spec.get('window'))
            c.do_modeling_and_solve(solver(0.5 * self.nr), save_results=self.dir)
            self.saved['seg'] = Saved(self.spec, self.b, 'seg', 'segmented', copy.deepcopy(c.results(combined_arrays=True)),
                                      copy.deepcopy((c.results(individual_results=True), c.results(combined_scalars=True))), self.spec.get('window'))


# ---------------------------------------------------------------- short descriptions in JSON files
def short(d, x, path=''):
    """x of a description file is the short form of the data d -> text or None"""
    if isinstance(d, dict) and 'class' in d and isinstance(x, str):
        return None if x == d['label'] else f'{path}: {x!r}, should be the label {d["label"]!r}'
    if isinstance(d, dict):
        if not isinstance(x, dict) or sorted('null' if k is None else str(k) for k in d) != sorted(x):
            return f'{path}: {str(x)[:200]}, should have the entries {list(d)}'
        return next((t for t in (short(v, x['null' if k is None else str(k)], f'{path}/{k}') for k, v in d.items()) if t), None)
    if isinstance(d, (list, tuple)) and not (len(d) and all(isinstance(y, (int, float)) for y in d)):
        if not isinstance(x, list) or len(x) != len(d):
            return f'{path}: {str(x)[:200]}, should be {str(d)[:200]}'
        return next((t for t in (short(p, q, f'{path}[{i}]') for i, (p, q) in enumerate(zip(d, x))) if t), None)
    if d is None or isinstance(d, (str, bool)):
        return None if type(x) is type(d) and x == d else f'{path}: {x!r}, should be {d!r}'
    a = np.asarray(d, dtype=float)
    if a.ndim and len(a) > 50 and isinstance(x, str):
        want = dict(min=a.min(), max=a.max(), mean=a.mean(), median=np.median(a), std=a.std(), len=len(a))
        for k, v in want.items():
            m = re.search(rf'\b{k}=(-?[0-9.]+)', x)
            if not m or abs(float(m.group(1)) - v) > 0.005001:
                return f'{path}: {x!r}, should have {k}={v}'
        return None
    try:
        y = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        return f'{path}: {x!r}, should be {d!r}'
    if a.shape != y.shape or (a.size and np.max(np.abs(a - y)) > 0.005001):
        return f'{path}: {x!r}, should be {d!r}'
    return None


def described(w, out):
    """flow system and elements written as JSON and as text"""
    fs, b = w.b.fs, w.b
    p = os.path.join(w.dir, 'description.json')
    data = fs.infos(use_numpy=False, use_element_label=False)
    for what, o, d in [('flow system', fs, data)] + [(l, e, data[k][l]) for k, es in (('Components', b.comps), ('Buses', b.buses), ('Effects', b.effects)) for l, e in es.items()]:
        o.to_json(p)
        with open(p, encoding='utf-8') as f:
            x = json.load(f)
        out['evals'] += 1
        t = short(d, x)
        if t:
            return f'description of {what} in JSON: {t}'
        if what != 'flow system':
            lines = [re.sub(r'^[ │]*', '', l) for l in str(o).split('\n')]
            try:
                y = ast.literal_eval('\n'.join(lines))
            except (SyntaxError, ValueError):
                return f'description of {what} as text can not be read: {str(o)[:300]}'
            if json.loads(json.dumps(y)) != x:
                return f'description of {what} as text: {y}, in JSON: {x}'
    return None


def play(spec, seq, out):
    w = World(spec)
    data = {}
    try:
        if len(seq) == 1:
            t = described(w, out)
            if t:
                return f'before any calculation: {t}'
        for i, op in enumerate(seq):
            w.do(op)
            for n, s in w.saved.items():
                t = s.check(w.dir)
                out['evals'] += 1
                if t:
                    return f'sequence {seq[:i + 1]!r}, calculation {n!r}: {t}'
        if len(seq) == 1:
            t = described(w, out)
            if t:
                return f'after {seq!r}: {t}'
        if 'agg_data' in w.saved:
            d = json.load(open(os.path.join(w.dir, 'agg_data_data.json')))
            f = World(spec)
            try:
                f.do('D')
                e = json.load(open(os.path.join(f.dir, 'agg_data_data.json')))
            finally:
                f.close()
            t = compare(e, d)
            if t:
                return f'sequence {seq!r}: data of the aggregated calculation: {t} (memory: saved alone)'
        out['nontrivial'] += 1
    finally:
        w.close()
    return None


def run(task):
    out = dict(viol=[], evals=0, nontrivial=0)
    for spec, seq in task['items']:
        try:
            t = play(spec, seq, out)
        except impl.HarnessError:
            raise
        except Exception as e:
            import traceback
            t = f'sequence {seq!r}: {type(e).__name__}: {e} {traceback.format_exc()[-500:]}'
        if t and len(out['viol']) < 3:
            out['viol'].append(dict(kind='saved', text=t[:1200], spec=spec))
    out['sample'] = dict(sequence=task['items'][-1][1])
    return out


# ---------------------------------------------------------------- systems
def relabel(spec, m):
    s = copy.deepcopy(spec)

    def r(l):
        return m.get(l, l)
    for c in s['comps']:
        c['label'] = r(c['label'])
        for f in c.get('ins', []) + c.get('outs', []):
            f['bus'] = r(f['bus'])
    s['buses'] = {r(b): d for b, d in s['buses'].items()}
    return s


LABELS = ['Wärme Ä ß', 'a b', 'x/y', 'q"uo\'te', 'c:d', '#1', '1', 'true', 'null', '1.5', '2020-01-01', '- x', '{x}', '[1]', '%s', 'a.b', 'é\u0301', '日本', 'tab\tx', 'back\\slash', 'A' * 70, 'on_off', 'x_1', '*', '&a', '!t', 'Time', 'Components',
          '~', 'a\nb', '😀', '=', 'yes', '0x1f', '1e5', 'class', 'label', 'inputs', 'flow_rate', 'penalty']


def small(dt=(1, 2, 1), **kw):
    st = dict(kind='Storage', label='S', cap=4, init=1, ins=[flow('c', 'h', 2)], outs=[flow('d', 'h', 2)])
    bo = dict(kind='Boiler', label='K', eta=0.5, ins=[flow('f', 'g', 4)], outs=[flow('q', 'h', 2, eff={'eff': [['c', 1], ['k', {'a': [1.0, 2.0, 3.0]}]]} if len(dt) == 3 else 1)])
    return system([st, bo, source('G', flow('x', 'g', 5))], dt=dt, effects=E2, buses={'h': {'penalty': 5}, 'g': {'penalty': None}}, **kw)


def features():
    """one system per feature and form of data"""
    a, ts, l = {'a': [1.0, 2.0, 3.0]}, {'ts': [0.5, 0.25, 1.0]}, {'l': [1, 0, 1]}
    fl = [dict(), dict(rmin=0.5), dict(rmin=ts), dict(rmax=a), dict(rmax={'a': [1.0, 1.0, 1.0]}), dict(rmin=0), dict(rmax=1), dict(rmin={'a': [0.0, 0.0, 0.0]}), dict(fixed=ts), dict(fixed={'a': [0.0, 0.0, 0.0]}), dict(fixed=0),
          dict(fh_min=1), dict(fh_max=20), dict(fh_min=0), dict(lf_min=0.25), dict(lf_max=0.75), dict(lf_max=1), dict(prev=1), dict(prev=0), dict(prev={'l': [0, 1, 2]}), dict(eff=a), dict(eff=0), dict(eff={'eff': [[None, 3]]}),
          dict(eff={'eff': [['k', a], ['c', 2]]}), dict(eff={'eff': [['k', ts]]}), dict(onoff={}), dict(onoff=dict(on_min=1, on_max=3)), dict(onoff=dict(con_min=2, con_max=3)), dict(onoff=dict(con_min=a, coff_min=1)),
          dict(onoff=dict(coff_max=a)), dict(onoff=dict(sw_max=1)), dict(onoff=dict(force=True)), dict(onoff=dict(switch_eff=2, run_eff={'eff': [['c', a]]})), dict(onoff=dict(switch_eff={'eff': [[None, ts], ['k', 1]]}, run_eff=0))]
    for f in fl:
        for sz in (5, None, inv(min=1, max=4, fix_eff=2, spec_eff={'eff': [['k', 1]]}), inv(fixed=3, optional=False), inv(fixed=3, optional=True, div_eff=2), inv(max=4, optional=True, fix_eff={'eff': [['k', 2], ['c', 1]]}),
                   inv(min=0, max=4, optional=False, seg=([[0, 1], [2, 4]], [['c', [[0, 5], [7, 9]]], ['k', [[1, 2], [3, 4]]]]))):
            if (sz is not None or not f) and (sz == 5 or not {'lf_min', 'lf_max', 'fh_min'} & set(f) or True):
                if f and sz != 5 and not {'rmin', 'fixed', 'onoff', 'eff'} & set(f):
                    continue
                yield system([source('s', flow('f', 'b', sz, **f))], dt=(1, 2, 1), effects=E2)
    for pen in (None, 0, 1, 1e5, a, ts, {'l': [1, 2, 3]}, {'a': [1e5, 1e5, 1e5]}):
        yield system([source('s', flow('f', 'b', 2)), sink('t', flow('f', 'b', 2))], dt=(1, 2, 1), buses={'b': {'penalty': pen}})
    for e in (dict(op_max=9), dict(op_min=0), dict(oph_max=a), dict(oph_min=ts), dict(inv_max=3), dict(inv_min=1), dict(tot_max=9), dict(tot_min=1), dict(op_share=[['k', a]]), dict(op_share=[['k', 2]], inv_share=[['k', 3]])):
        yield system([source('s', flow('f', 'b', 2, eff=1))], dt=(1, 2, 1), effects=[dict(label='k'), dict(label='c', std=True, obj=True, **e)])
    for s in (dict(), dict(init=0), dict(init=2), dict(init='lastValueOfSim'), dict(init=None), dict(rmin=0.25), dict(rmax=0.75), dict(fmin=1), dict(fmax=3), dict(eta_c=0.5), dict(eta_d=ts), dict(eta_c=ts, eta_d=0.5), dict(loss=0.5), dict(loss=ts), dict(eta_c=1),
              dict(prevent=False), dict(cap=inv(max=4, optional=True, spec_eff=1)), dict(cap=inv(fixed=4, optional=False, fix_eff={'eff': [['k', 1]]}))):
        yield system([dict(kind='Storage', label='S', **dict(dict(cap=4), **s), ins=[flow('c', 'b', 2)], outs=[flow('d', 'b', 2)])], dt=(1, 2, 1), effects=E2)
    i, o = flow('i', 'p', 4), flow('o', 'q', 4)
    for c in (dict(kind='LinearConverter', factors=[[['i', 1], ['o', 2]]]), dict(kind='LinearConverter', factors=[[['i', a], ['o', ts]]]), dict(kind='LinearConverter', segs=[['i', [[0, 1], [2, 3]]], ['o', [[0, a], [ts, 2]]]]),
              dict(kind='Boiler', eta=0.5), dict(kind='Boiler', eta=ts), dict(kind='Boiler', eta=1), dict(kind='Power2Heat', eta=ts), dict(kind='HeatPump', cop=3), dict(kind='HeatPump', cop={'a': [3.0, 2.0, 4.0]}),
              dict(kind='Transmission', rel=0.25), dict(kind='Transmission', rel=ts, abs=1), dict(kind='Transmission', abs=a), dict(kind='Transmission'), dict(kind='Component'),
              dict(kind='LinearConverter', factors=[[['i', 1], ['o', 2]]], onoff=dict(on_max=2, run_eff=a)), dict(kind='Boiler', eta=0.5, onoff=dict(con_min=2, switch_eff=1))):
        yield system([dict(c, label='X', ins=[i], outs=[o])], dt=(1, 2, 1))
    yield system([dict(kind='LinearConverter', label='X', ins=[i, flow('j', 'p', 3)], outs=[o, flow('n', 'p', 2)], factors=[[['i', 1], ['o', 2]], [['j', ts], ['n', 1]]])], dt=(1, 2, 1))
    yield system([dict(kind='CHP', label='X', eta_th=0.5, eta_el=ts, ins=[i], outs=[flow('e', 'p', 2), o])], dt=(1, 2, 1))
    yield system([dict(kind='HeatPumpWithSource', label='X', cop={'a': [3.0, 2.0, 4.0]}, ins=[i, flow('ab', 'w', 4)], outs=[o])], dt=(1, 2, 1))
    yield system([dict(kind='CoolingTower', label='X', sed=ts, ins=[i, flow('th', 'q', 4)])], dt=(1, 2, 1))
    yield system([dict(kind='Transmission', label='X', rel=0.25, abs=ts, prevent=False, ins=[i, flow('i2', 'q', 4)], outs=[o, flow('o2', 'p', 4)])], dt=(1, 2, 1))
    for pv in (True, False):
        yield system([dict(kind='SourceAndSink', label='X', prevent=pv, ins=[i], outs=[o])], dt=(1, 2, 1))
    yield system([dict(kind='Component', label='X', prevent=['i', 'o'], ins=[i], outs=[o], onoff=dict(sw_max=2))], dt=(1, 2, 1))


def tasks(tier):
    deep = tier == 'thorough'
    items = []
    # every feature, on all steps and on a window of a longer horizon
    items += [(s, 'F') for s in features()]
    # forms of the time axis
    for dt in ((1, 1, 1), (1, 2, 1), (0.5, 0.25, 3), (24, 24, 24), (1 / 60, 1 / 60, 2)):
        for unit in ('s', 'm', 'us', 'ns', 'ms') + (('h',) if all(x == int(x) for x in dt) else ()) + (('D',) if dt[0] == 24 else ()):
            if unit == 'm' and min(dt) < 1 / 60:
                continue
            for tform in (None, 'list', 'pandas') if unit in ('s', 'ns') else (None,):
                items.append((dict(small(dt), unit=unit, **({'tform': tform} if tform else {})), 'F'))
    for start in ('1999-12-31T23:30:00', '2020-02-29T12:00:01', '2100-01-01T00:00:00'):
        items.append((dict(small(), start=start), 'F'))
    for T in (2, 3, 4, 49, 50, 51, 60):
        items.append((small((1,) * T), 'F'))
        if T > 3:
            items.append((small((1,) * T), 'W'))
    # labels
    for l in LABELS:
        for m in ({'S': l}, {'h': l}, {'K': l, 'h': l + ' bus'}):
            items.append((relabel(small(), m), 'F'))
    for l in LABELS[:6] + LABELS[6:-1]:
        s = small()
        s['comps'][0]['ins'][0]['label'] = l
        s['comps'][1]['outs'][0]['label'] = l
        items.append((s, 'F'))
        e = small()
        e['effects'] = [dict(label=l), dict(label='c', std=True, obj=True)]
        e['comps'][1]['outs'][0]['eff'] = {'eff': [['c', 1], [l, {'a': [1.0, 2.0, 3.0]}]]}
        items.append((e, 'F'))
    # order of adding
    items.append((dict(small(), order='reversed'), 'F'))
    # histories
    for name, spec in c20.systems().items():
        if name == 'investment':
            alph, depth = 'FWADRfdx', 2
        else:
            alph, depth = 'FWADGRfwdxy', 2
        if deep:
            depth = 3
        seqs = [''.join(s) for s in itertools.product(alph, repeat=depth)]
        pend = [''.join(s) + x for s in itertools.permutations('fwd' if name == 'investment' else 'fwvd', 2) for x in ('x', 'y')] + ['fdGx', 'wGx', 'dGy', 'fwGFx', 'GRfWx'][: 0 if name == 'investment' else 5]
        if not deep:
            seqs = [s for s in seqs if s[-1] in 'FWADG' and s[0] not in 'xyR'] + pend
            if name not in ('unit', 'converters'):
                seqs = [s for s in seqs if s[0] in 'GDdfw']
        else:
            seqs = [s for s in seqs if s[0] not in 'xyR' and s[-1] not in 'fwd'] + pend
        items += [(spec, s) for s in seqs]
    # windows and segments of systems of unequal steps
    u = small((1, 2, 1, 3, 1, 2, 1, 1))
    for s in ('W', 'G', 'V', 'GF', 'WG', 'FW', 'fGx'):
        items.append((u, s))
        items.append((dict(u, window=[1, 2, 3, 4, 5]), s.replace('W', 'F').replace('V', 'F')))
    k = 6
    for i in range(0, len(items), k):
        yield dict(items=items[i:i + k])
