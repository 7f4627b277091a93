"""the listing of the model (infos, saved infos, descriptions of the models of the elements) against the problem handed to the solver"""
import itertools
import os
import re
import shutil
import tempfile
from collections import Counter

import numpy as np

from .. import build, env, explore, impl
from .c29 import sys_size
from .common import *

PID, LEVEL = 'C31', 'exploration'
ASSUMPTIONS = ['of an equation with several rows the first row is listed, of a summand over several steps its first term', 'bounds given per step are listed shortened']
RULE = ('a family of systems with every element kind and every feature, alone and in pairs, all horizons and windows of the family: every listed line is read back and compared with the rows, variables and the objective '
        'of the problem handed to the solver, as a multiset; the tree of the listing with the tree of the results; the sizes of the models of the elements with the lines below them')

NUM = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)'


def term(s):
    """-> (factor, variable, index, is sum)"""
    sm = s.startswith('∑(') and s.endswith(')')
    if sm:
        s = s[2:-1]
        s = s[3:] if s.startswith('..+') else s
        s = s[:-3] if s.endswith('+..') else s
    m = re.fullmatch(rf'({NUM}) \* (.+)\[(\d+)\]', s)
    if not m:
        return None
    return float(m[1]), m[2], int(m[3]), sm


def terms(text):
    """summands, separated by ' + ' -- labels may contain it"""
    if not text.strip():
        return []
    out, rest = [], text.strip()
    parts = rest.split(' + ')
    i = 0
    while i < len(parts):
        for j in range(len(parts), i, -1):
            t = term(' + '.join(parts[i:j])) if j - i == 1 or True else None
            if t and ' + ' not in t[1]:
                break
        else:
            return None
        out.append(t)
        i = j
    return out


def line(s):
    m = re.fullmatch(rf'(EQ|INEQ) (.*?) +\[(\d+)/(\d+)\] *: +({NUM}) (=|>=) ?(.*)', s)
    if not m or int(m[3]) != 1 or (m[1] == 'EQ') != (m[6] == '='):
        return None
    t = terms(m[7])
    return None if t is None else dict(kind=m[1], name=m[2], n=int(m[4]), const=float(m[5]), terms=t)


def varline(s):
    m = re.fullmatch(r'Var (bin|   ) x (\d+) +"(.*?)" *: (?:fixed=(.*)|min=(.*), max=(.*))', s)
    if not m:
        return None
    g = [None if x is None else x.strip() for x in m.groups()]
    return dict(bin=g[0] == 'bin', n=int(g[1]), name=g[2], fix=g[3], lo=g[4], hi=g[5])


def leaves(tree, path=()):
    """-> (path, line)"""
    if isinstance(tree, str):
        yield path, tree
    elif isinstance(tree, list):
        for x in tree:
            yield path, x
    else:
        for k, v in tree.items():
            yield from leaves(v, path + ((k,) if k != '_self' else ()))


def sig(x):
    return float(f'{x:.6g}') + 0.0


def problem(m):
    """first rows, variables and objective of the pyomo model"""
    import pyomo.environ as pyo
    from pyomo.repn import generate_standard_repn
    rows, vrs = [], []
    for v in m.component_objects(pyo.Var):
        ds = list(v.values())
        vrs.append((v, len(ds), [(d.is_binary(), d.is_fixed(), d.value if d.is_fixed() else None, d.lb, d.ub) for d in ds]))
    held = [d for d in m.component_data_objects(pyo.Var) if d.is_fixed()]
    for d in held:
        d.unfix()
    for c in m.component_objects(pyo.Constraint, active=True):
        ds = list(c.values())
        r = generate_standard_repn(ds[0].body, compute_values=True)
        k0 = float(r.constant or 0)
        if ds[0].equality:
            kind, rhs = 'EQ', float(pyo.value(ds[0].upper)) - k0
            f = 1.0
        elif ds[0].upper is not None:
            kind, rhs, f = 'INEQ', float(pyo.value(ds[0].upper)) - k0, 1.0
        else:
            kind, rhs, f = 'INEQ', k0 - float(pyo.value(ds[0].lower)), -1.0
        rows.append((kind, len(ds), rhs, [(f * float(a), v) for a, v in zip(r.linear_coefs, r.linear_vars) if a != 0]))
    o = list(m.component_data_objects(pyo.Objective, active=True))
    r = generate_standard_repn(o[0].expr, compute_values=True)
    for d in held:
        d.fix(d.value)
    return rows, vrs, [(float(a), v) for a, v in zip(r.linear_coefs, r.linear_vars) if a != 0]


def merged(ts):
    d = {}
    for f, v, i, s in ts:
        d[v, i] = d.get((v, i), 0.0) + f
    return sorted(sig(x) for x in d.values() if sig(x) != 0)


def norm(kind, rhs, coefs):
    """equations without regard to the side"""
    c, r = sorted(coefs), sig(rhs)
    if kind == 'EQ':
        d = sorted(sig(-x) for x in c)
        return min((c, r), (d, sig(-r)))
    return c, r


def check(c, infos, where):
    """-> text of the first difference"""
    cons, vrs = infos['Constraints'], infos['Variables']
    rows, pv, obj = PROBLEM['p']
    lines = list(leaves({k: v for k, v in cons.items() if k != 'Objective'}))
    got = []
    for p, s in lines:
        x = line(s)
        if x is None:
            return f'{where}: line {s!r} cannot be read'
        got.append((p, x))
    dup = [k for k, n in Counter(x['name'] for _, x in got).items() if n > 1]
    if dup:
        return f'{where}: {dup} listed more than once'
    a = Counter((x['kind'], x['n']) for _, x in got)
    b = Counter((r[0], r[1]) for r in rows)
    if a != b:
        return f'{where}: equations listed (kind, rows) {dict(a - b)} that are not in the problem, missing {dict(b - a)}'
    # rows without sums have to be there as they are; of rows with sums the remaining terms have to be part of one
    pool = Counter((r[0], r[1], str(norm(r[0], r[2], [sig(f) for f, _ in r[3]]))) for r in rows)
    mine = Counter()
    sums = []
    for _, x in got:
        if any(t[3] for t in x['terms']):
            sums.append(x)
        else:
            mine[x['kind'], x['n'], str(norm(x['kind'], x['const'], merged(x['terms'])))] += 1
    extra = mine - pool
    if extra:
        return f'{where}: listed, but not in the problem: {list(extra)[:2]}'
    left = list((pool - mine).elements())
    if len(left) != len(sums):
        return f'{where}: {len(sums)} lines with sums, {len(left)} rows'
    cand = []
    free = list(range(len(rows)))
    for x in sums:
        w = [(sig(t[0])) for t in x['terms']]
        ok = []
        for j, r in enumerate(rows):
            if r[0] == x['kind'] and r[1] == x['n']:
                for sgn in ((1, -1) if r[0] == 'EQ' else (1,)):
                    cs = Counter(sig(sgn * f) for f, _ in r[3])
                    if abs(sgn * r[2] - x['const']) <= 1e-6 * max(1, abs(r[2])) and not (Counter(z for z in w if z != 0) - cs):
                        ok.append(j)
                        break
        cand.append(ok)
    if not matching(cand):
        return f'{where}: lines with sums do not fit the rows of the problem: {[x["name"] for x in sums]}'
    # variables
    gv = []
    for p, s in leaves(vrs):
        x = varline(s)
        if x is None:
            return f'{where}: line {s!r} cannot be read'
        gv.append((p, x))
    dup = [k for k, n in Counter(x['name'] for _, x in gv).items() if n > 1]
    if dup:
        return f'{where}: variables {dup} listed more than once'
    num = lambda s: None if s == 'None' else float(s) if re.fullmatch(NUM, s) else s
    a, b = Counter(), Counter()
    for _, x in gv:
        a[x['bin'], x['n'], 'fixed' if x['fix'] is not None else 'free'] += 1
    for v, n, ds in pv:
        b[ds[0][0], n, 'fixed' if all(d[1] for d in ds) else 'free'] += 1
    if a != b:
        return f'{where}: variables listed (binary, length, fixed) {dict(a - b)} that are not in the problem, missing {dict(b - a)}'
    a, b = Counter(), Counter()
    for _, x in gv:
        if x['fix'] is None and not x['bin']:
            for k in ('lo', 'hi'):
                z = num(x[k])
                z = None if isinstance(z, float) and np.isinf(z) else z
                if not isinstance(z, str):
                    a[k, x['n'], z] += 1
    for v, n, ds in pv:
        if not ds[0][1] and not ds[0][0]:
            for k, q in (('lo', 3), ('hi', 4)):
                s = {d[q] for d in ds}
                if len(s) == 1:
                    z = s.pop()
                    b[k, n, None if z is None or np.isinf(z) else float(z)] += 1
    if a - b:
        return f'{where}: bounds listed {dict(a - b)} that no variable of the problem has'
    # every variable used in a line is a listed one
    names = {x['name']: x['n'] for _, x in gv}
    for _, x in got:
        for f, v, i, s in x['terms']:
            if v not in names or i >= names[v]:
                return f'{where}: {x["name"]} uses {v}[{i}], which is not listed'
    # objective
    o = cons['Objective']
    m = re.fullmatch(rf'OBJ *: +({NUM}) = (.*)', o)
    t = terms(m[2]) if m else None
    if t is None:
        return f'{where}: objective {o!r} cannot be read'
    if not any(x[3] for x in t) and merged(t) != sorted(sig(f) for f, _ in obj):
        return f'{where}: objective {o!r}, the solver got {sorted(sig(f) for f, _ in obj)}'
    return None


PROBLEM = {}


def matching(cand):
    """a different row for each line"""
    owner = {}

    def grab(i, seen):
        for j in cand[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or grab(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    return all(grab(i, set()) for i in range(len(cand)))


def tree_check(c, infos):
    """variables are listed below the element whose results contain them"""
    res = c.results()
    for group in ('Components', 'Buses', 'Effects'):
        def walk(d, r, path):
            here = [varline(s) for s in (d.get('_self', []) if isinstance(d, dict) else d)]
            subs = {k: v for k, v in d.items() if k != '_self'}
            vals = {k: v for k, v in r.items() if not isinstance(v, dict)}
            rs = {k: v for k, v in r.items() if isinstance(v, dict)}
            if len(here) != len(vals):
                return f'{"/".join(path)}: {len(here)} variables listed, results have {list(vals)}'
            if Counter(x['n'] for x in here) != Counter(np.size(v) for v in vals.values()):
                return f'{"/".join(path)}: lengths {[x["n"] for x in here]}, results {[(k, np.size(v)) for k, v in vals.items()]}'
            if {k for k, v in subs.items() if list(leaves(v))} != {k for k, v in rs.items() if impl.flat(v)}:
                return f'{"/".join(path)}: listed {list(subs)}, results have {list(rs)}'
            for k, v in subs.items():
                if list(leaves(v)):
                    t = walk(v, rs[k], path + [k])
                    if t:
                        return t
            return None
        d, r = infos['Variables'][group], res[group]
        if group == 'Effects':
            t = None
            if set(d) - {'_self'} != set(r) or d['_self']:
                return f'effects listed {list(d)}, results have {list(r)}'
            for k in r:         # shares are collected in the results
                a, b = Counter(varline(s)['n'] for _, s in leaves(d[k])), Counter(np.size(v) for v in impl.flat(r[k]).values())
                if a != b:
                    t = t or f'{k}: lengths of variables listed {dict(a)}, in the results {dict(b)}'
        else:
            if list(d) != list(r) or list(infos['Constraints'][group]) != list(r):
                return f'{group}: listed {list(d)}, results have {list(r)}'
            t = None
            for k in d:
                t = t or walk(d[k], r[k], [group, k])
        if t:
            return t
    return None


def model_check(c, infos):
    """sizes and plain lists of the models of the elements"""
    sm = c.system_model
    for group, models in (('Components', sm.component_models), ('Buses', sm.bus_models), ('Effects', [sm.effect_collection_model])):
        for m in models:
            dv = infos['Variables'][group] if group == 'Effects' else infos['Variables'][group][m.element.label]
            dc = infos['Constraints'][group] if group == 'Effects' else infos['Constraints'][group][m.element.label]
            v = [s for _, s in leaves(dv)]
            e = [s for _, s in leaves(dc)]
            if Counter(m.description_of_variables(structured=False)) != Counter(v):
                return f'{m.element.label}: plain list of variables {m.description_of_variables(structured=False)}, the structured one has {v}'
            if Counter(m.description_of_constraints(structured=False)) != Counter(e):
                return f'{m.element.label}: plain list of constraints differs from the structured one by {list((Counter(e) - Counter(m.description_of_constraints(structured=False))) or (Counter(m.description_of_constraints(structured=False)) - Counter(e)))[:3]}'
            el = [line(s) for s in e]
            eq, iq, vs = [x for x in el if x['kind'] == 'EQ'], [x for x in el if x['kind'] == 'INEQ'], [varline(s) for s in v]
            want = [len(eq), sum(x['n'] for x in eq), len(iq), sum(x['n'] for x in iq), len(vs), sum(x['n'] for x in vs)]
            got = list(m.overview_of_model_size.values())
            if got != want:
                return f'{m.element.label}: overview {m.overview_of_model_size}, listed {want}'
    return None


def run(task):
    import flixOpt as fx
    import yaml
    out = dict(viol=[], evals=0, lines=0, nontrivial=0, tag='listing')
    for spec, window in task['items']:
        b = build.build(spec)
        c = fx.FullCalculation('calc', b.fs, time_indices=window)
        c.do_modeling()

        def fn(m):
            import pyomo.environ as pyo
            PROBLEM['p'] = problem(m)
            for v in m.component_data_objects(pyo.Var):
                if not v.is_fixed():
                    v.set_value(0.0, skip_validation=True)
        sv = impl.make_solver(fn)
        sv.log = 'some log'
        d = tempfile.mkdtemp(prefix='c31_', dir=env.scratch()) if task.get('save') else None
        try:
            c.solve(sv, save_results=d or False)
            infos = c.system_model.infos
            try:
                t = check(c, infos, 'infos') or tree_check(c, infos) or model_check(c, infos)
            except (KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
                t = f'the description does not have the form of a description: {type(e).__name__} {e}'
            if not t and d:
                try:
                    f = yaml.safe_load(open(os.path.join(d, 'calc_infos.yaml')))['Model']
                except yaml.YAMLError as e:
                    f = {}
                    t = f'the saved infos cannot be read: {e}'
                for k in ('Constraints', 'Variables'):
                    if f.get(k) != infos[k]:
                        t = t or f'saved {k} differ from the infos'
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)
        out['evals'] += 1
        n = 0 if t else len(list(leaves(infos['Constraints']))) + len(list(leaves(infos['Variables'])))
        out['lines'] += n
        out['nontrivial'] += 1
        if t and len(out['viol']) < 3:
            out['viol'].append(dict(kind='listing', text=t[:900], spec=spec))
    return out


KINDS = ('src', 'onoff', 'inv', 'sto', 'conv', 'seg', 'trans', 'ss')


def tasks(tier):
    from . import c21
    deep = tier == 'thorough'
    items = []
    for k in KINDS:
        for T in (2, 3, 4):
            items.append((sys_size(k, T), None))
        items.append((sys_size(k, 4), list(range(1, 4))) if k != 'sto' else (sys_size(k, 3), None))
    feats = feature_systems(deep)
    items += feats
    for i in range(0, len(items), 6):
        yield dict(items=items[i:i + 6], save=(i // 6) % 2 == 0)


def feature_systems(deep):
    """every feature alone and in pairs on one flow, one component, one storage"""
    r = []
    ons = [None, {}, {'on_max': 3}, {'con_min': 2}, {'con_max': 2}, {'coff_min': 1}, {'coff_max': 2}, {'switch_eff': 2}, {'sw_max': 1}, {'run_eff': {'a': [1.0, 2.0, 3.0]}}, {'force': True}]
    sizes = [2, inv(max=3), inv(min=1, max=3, optional=False), inv(fixed=2), inv(fixed=2, optional=False), inv(max=2, fix_eff=1, spec_eff=2, div_eff=3), inv(min=1, max=3, seg=([(1, 2), (2, 3)], [['c', [(0, 1), (1, 4)]]]))]
    flows = [{}, {'fh_max': 4}, {'lf_max': 0.5}, {'eff': 3}, {'eff': {'eff': [['c', 1], ['k', {'a': [1.0, 0.5, 2.0]}]]}}, {'rmin': 0.25}, {'rmin': {'a': [0.25, 0.5, 0.0]}}, {'prev': 1}, {'fixed': {'a': [0.5, 1.0, 0.0]}}]
    dt = (1, 2, 1)
    for oo in ons:
        for sz in sizes:
            for k, fl in enumerate(flows):
                if not deep and oo is not None and sz != 2 and k not in (0, 4, 6):
                    continue
                if 'fixed' in fl and oo is not None:
                    continue
                if 'prev' in fl and oo is None:
                    continue
                kw = dict(fl)
                if oo is not None:
                    kw['onoff'] = oo
                r.append((system([source('s', flow('f', 'b', sz, **kw)), sink('d', flow('g', 'b', 2, fixed={'a': [0.5, 0.0, 1.0]}))], dt=dt, effects=E2, buses={'b': {'penalty': 4}}), None))
    for oo in ons[1:]:
        r.append((system([dict(kind='LinearConverter', label='K x', ins=[flow('i', 'b', 3)], outs=[flow('o', 'q', 2), flow('p', 'b', 1, onoff={})], factors=[[['i', 1], ['o', 2]], [['o', 1], ['p', {'a': [1.0, 2.0, 4.0]}]]], onoff=oo)],
                         dt=dt, effects=E2, buses={'b': {'penalty': {'a': [1.0, 2.0, 3.0]}}, 'q': {'penalty': None}}), None))
    # numbers of all magnitudes as factor, limit, constant
    for v in (2.5e-8, 1e-7 / 3, 1e-12, 0.1 + 0.2, 1 / 3, 123.456789, 98765.4321, 1234567.875, 123456789.0, 1e12):
        for a in (v, {'a': [v, 1.0, 2 * v]}):
            for neg in (False, True) if not isinstance(a, dict) else (False,):
                e = -a if neg else a
                r.append((system([source('s', flow('f', 'b', 7, eff={'eff': [['c', e]]})), sink('d', flow('g', 'b', 2))], dt=dt, effects=E2, buses={'b': {'penalty': a if not neg else 1}}), None))
            r.append((system([source('s', flow('f', 'b', 7, fixed=a if isinstance(a, dict) else {'a': [a, 0.0, a]})), sink('d', flow('g', 'b', v, rmin=0))], dt=dt, effects=E2, buses={'b': {'penalty': 1}}), None))
            r.append((system([dict(kind='LinearConverter', label='K', ins=[flow('i', 'b', 3)], outs=[flow('o', 'q', 2)], factors=[[['i', a], ['o', 2]]])], dt=dt, effects=E2, buses={'b': {'penalty': 1}, 'q': {'penalty': None}}), None))
        r.append((system([source('s', flow('f', 'b', inv(max=max(v, 1.0), spec_eff=v, fix_eff=3 * v), fh_max=v))], dt=dt, effects=E2, buses={'b': {'penalty': 1}}), None))
        r.append((system([source('s', flow('f', 'b', 3, onoff=dict(switch_eff=v, run_eff={'a': [v, 1.0, v]})))], dt=dt, effects=E2, buses={'b': {'penalty': 1}}), None))
    return r
