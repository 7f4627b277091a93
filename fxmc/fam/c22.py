import itertools

import numpy as np

from .. import impl

PID, LEVEL = 'C22', 'exploration'
ASSUMPTIONS = ['points outside of the grid behave like the grid points (all functions are affine, the grid contains affinely independent points)']
RULE = ('all programs of the grammar (variables: scalar/vector, bounds, binary, fixed, per-index data; constraints: every kind of first summand x every kind of second summand x constants x '
        'equation/inequation; objectives; pairs of constraints): the problem handed to the solver is evaluated at every point of a grid and compared with the direct meaning; '
        'solver answers (all points, all tolerance variants of binary values) are compared with the values reported; programs whose lengths do not fit have to be rejected')

GRID = (-1.0, 0.0, 0.5, 1.0, 2.0)


def val(v):
    """the python object handed over"""
    if isinstance(v, dict):
        (k, x), = v.items()
        return {'a': lambda: np.array(x), 'l': lambda: list(x), 't': lambda: tuple(x), 'r': lambda: range(*x), 'n': lambda: np.float64(x), 'ni': lambda: np.int64(x), 'ai': lambda: np.array(x, dtype=int),
                'o': lambda: [None if y is None else y for y in x]}[k]()
    return v


def vec(v, n):
    if isinstance(v, dict):
        (k, x), = v.items()
        v = list(range(*x)) if k == 'r' else x
    return list(v) if isinstance(v, (list, tuple)) else [v] * n


def indices(s, n):
    if s is None:
        return list(range(n))
    r = vec(s, 1)
    return r


class Bad(Exception):
    pass


def summand_rows(s, vs):
    """meaning of a summand: list of rows {(var, index): factor}; one row = the same in every equation"""
    n = vs[s['v']]['n']
    idx = indices(s.get('i'), n)
    fv = s['f']
    fl = len(vec(fv, 1)) if isinstance(fv, dict) and list(fv)[0] not in ('n', 'ni') else 1
    if fl != 1 and len(idx) != 1 and fl != len(idx):
        raise Bad('length of factor and variable')
    m = max(fl, len(idx))
    f = vec(fv, m)
    if len(f) != m:
        raise Bad('length of factor')
    terms = [((s['v'], idx[k if len(idx) > 1 else 0]), f[k]) for k in range(m)]
    if s.get('sum'):
        row = {}
        for k, a in terms:
            row[k] = row.get(k, 0) + a
        return [row]
    return [{k: a} for k, a in terms]


def meaning(c, vs):
    """constraint -> (rows, constants)"""
    parts = [summand_rows(s, vs) for s in c['s']]
    consts = [vec(k, 1) if isinstance(k, dict) else [k] for k in c.get('c', [])]
    lens = {len(p) for p in parts + consts} - {1}
    if len(lens) > 1:
        raise Bad('lengths differ')
    n = max(lens, default=1)
    rows = []
    for i in range(n):
        row = {}
        for p in parts:
            for k, a in p[i if len(p) > 1 else 0].items():
                row[k] = row.get(k, 0) + a
        rows.append((row, sum(k[i if len(k) > 1 else 0] for k in consts)))
    return rows


def build(prog):
    from flixOpt import math_modeling as mm
    m = mm.MathModel('m')
    vs = []
    for k, v in enumerate(prog['vars']):
        cls = mm.VariableTS if v.get('ts') else mm.Variable
        x = cls(f'v{k}', v['n'], is_binary=bool(v.get('bin')), fixed_value=val(v.get('fix')), lower_bound=val(v.get('lb')), upper_bound=val(v.get('ub')))
        vs.append(x)
    order = []
    for k, c in enumerate(prog['cons']):
        e = mm.Inequation(f'c{k}') if c.get('ineq') else mm.Equation(f'c{k}')
        fill(e, c, vs)
        order.append(e)
    o = mm.Equation('obj', is_objective=True)
    fill(o, prog['obj'], vs)
    if prog.get('order') == 'late':
        m.add(o, *order)
        m.add(*vs)
    else:
        m.add(*vs)
        for e in order:
            m.add(e)
        m.add(o)
    m.translate_to_modeling_language()
    return m


def fill(e, c, vs):
    items = [('s', s) for s in c['s']] + [('c', k) for k in c.get('c', [])]
    if c.get('first') == 'c':
        items = items[::-1]
    for kind, x in items:
        if kind == 's':
            e.add_summand(vs[x['v']], val(x['f']), val(x.get('i')), as_sum=bool(x.get('sum')))
        else:
            e.add_constant(val(x))


class Calc:
    def __init__(self, m):
        self.m = m

    def solve(self, solver):
        self.m.solve(solver)

    def results(self):
        return dict(self.m.results(), Objective=self.m.result_of_objective)


def run(task):
    out = dict(viol=[], evals=0, programs=0, rejected=0, feeds=0, nontrivial=0, tag=task['kind'])
    for prog in task['programs']:
        text = one(prog, out)
        out['programs'] += 1
        if text:
            out['viol'].append(dict(kind=task['kind'], text=f'{text} in program {prog}'[:1500]))
            if len(out['viol']) > 2:
                break
    out['sample'] = task['programs'][0]
    return out


def one(prog, out):
    vs = prog['vars']
    try:
        cons = [(meaning(c, vs), bool(c.get('ineq'))) for c in prog['cons']]
        obj = meaning(prog['obj'], vs)
        if len(obj) != 1:
            raise Bad('objective is a vector')
        for v in vs:
            if v.get('fix') is not None:
                n = v['n']
                for x, lo, hi in zip(vec(v['fix'], n), vec(v.get('lb'), n), vec(v.get('ub'), n)):
                    if x is not None and (lo is not None and x < lo or hi is not None and x > hi):
                        raise Bad('fixed outside of the bounds')
        ok = True
    except Bad as e:
        ok, why = False, str(e)
    try:
        m = build(prog)
    except Exception as e:
        if ok:
            return f'rejected with {type(e).__name__}: {e}'
        out['rejected'] += 1
        return None
    if not ok:
        return f'accepted although {why}'
    keys = [(k, i) for k, v in enumerate(vs) for i in range(v['n'])]
    S = impl.Sys(Calc(m))
    pos = {}
    for k, i in keys:
        w = S.where.get(((f'v{k}',), i))
        if not isinstance(w, (int, np.integer)):
            return f'the result of v{k}[{i}] is not one of the values of the solver'
        pos[(k, i)] = w
    if len(set(pos.values())) != len(keys) or S.n0 != len(keys):
        return f'{S.n0} variables handed over, results report {len(set(pos.values()))} of {len(keys)}'
    if S.sense != 'min' or S.nobj != 1:
        return f'objective sense {S.sense}'
    # all points
    n = len(keys)
    grids = [prog['grid'] if 'grid' in prog else ((-0.5, 0.0, 0.5, 1.0, 2.0) if n <= 4 else (0.0, 1.0, -0.5)) for _ in keys]
    fixed = {}
    for k, v in enumerate(vs):
        if v.get('fix') is not None:
            for i, x in enumerate(vec(v['fix'], v['n'])):
                if x is not None:
                    fixed[(k, i)] = x
    for j, k in enumerate(keys):
        if k in fixed and fixed[k] not in grids[j]:
            grids[j] = tuple(grids[j][:2]) + (float(fixed[k]),)
    P = np.array(list(itertools.product(*grids)))
    out['evals'] += len(P)
    want = np.ones(len(P), bool)
    tol = 1e-9
    for j, (k, i) in enumerate(keys):
        v, x = vs[k], P[:, j]
        if (k, i) in fixed:
            want &= np.abs(x - fixed[k, i]) <= tol
            continue
        lo, hi = vec(v.get('lb'), v['n'])[i], vec(v.get('ub'), v['n'])[i]
        if lo is not None:
            want &= x >= lo - tol
        if hi is not None:
            want &= x <= hi + tol
        if v.get('bin'):
            want &= (x == 0) | (x == 1)
    for rows, ineq in cons:
        for row, c in rows:
            y = sum((a * P[:, keys.index(k)] for k, a in row.items()), np.zeros(len(P)))
            want &= (y <= c + tol) if ineq else (np.abs(y - c) <= tol)
    got = np.ones(len(P), bool)
    perm = [pos[k] for k in keys]
    inv = {w: j for j, w in enumerate(perm)}
    for j, w in enumerate(perm):
        x = P[:, j]
        got &= (x >= S.lb[w] - tol) & (x <= S.ub[w] + tol)
        if S.isint[w]:
            got &= x == np.rint(x)
    for row, lo, hi in [r for r in S.rows if not any(j >= S.n0 for j in r[0])]:
        y = sum((a * P[:, inv[j]] for j, a in row.items()), np.zeros(len(P)))
        got &= (y >= lo - tol) & (y <= hi + tol)
    bad = np.nonzero(want != got)[0]
    if len(bad):
        p = P[bad[0]]
        pt = {f'v{k}[{i}]': p[j] for j, (k, i) in enumerate(keys)}
        return f'{pt} is {"allowed" if got[bad[0]] else "forbidden"}, should be {"allowed" if want[bad[0]] else "forbidden"}'
    out['nontrivial'] += bool(want.any()) and not bool(want.all())
    y = np.full(len(P), float(obj[0][1]) * 0)
    for k, a in obj[0][0].items():
        y = y + a * P[:, keys.index(k)]
    z = S.obj_const + sum((a * P[:, inv[j]] for j, a in S.obj_row.items()), np.zeros(len(P)))
    if np.max(np.abs(y - z)) > 1e-9:
        b = int(np.argmax(np.abs(y - z)))
        return f'objective is {z[b]} at {P[b].tolist()}, should be {y[b]}'
    # answers: reported value of every variable and of the objective
    if prog.get('answers'):
        ex = [[-1e-9, 1e-7, 1 - 1e-7, 1 + 1e-9, 0.0, 1.0] if vs[k].get('bin') else [0.25, -3.0, 1e-7, 1 - 1e-7] for k, i in keys]
        for a in itertools.product(*ex):
            x = [0.0] * S.n0
            for j, w in enumerate(perm):
                x[w] = a[j]
            r = S.tree(lambda i: x[i])
            out['feeds'] += 1
            for j, (k, i) in enumerate(keys):
                got = float(np.atleast_1d(r[f'v{k}'])[i])
                w = float(round(a[j])) if vs[k].get('bin') else a[j]
                if got != w:
                    return f'v{k}[{i}] reported as {got} for the answer {a[j]}'
            w = sum(f * a[keys.index(k)] for k, f in obj[0][0].items())
            if abs(float(r['Objective']) - w) > 1e-6:
                return f'objective reported as {r["Objective"]}, is {w}'
    return None


X3 = dict(n=3, lb=-0.5, ub=2)
IDX = [None, 0, 2, {'ni': 1}, {'l': [0]}, {'l': [0, 2]}, {'l': [2, 0]}, {'r': [1, 3]}, {'r': [0, 3, 2]}, {'a': [1, 2]}, {'l': [1, 1, 0]}, {'a': [2]}, {'ai': [0, 1, 2]}, {'r': [0, 2]}, {'r': [2, 0, -1]}]


def size(i, n):
    return len(indices(i, n))


def summands(v, n, deep):
    for i in (IDX if n == 3 else [None, 0, {'l': [0]}]):
        k = size(i, n)
        fs = [2, -1.5, 0, {'n': 0.5}] + ([{'a': [1.0, -2.0, 0.5][:k]}] if k > 1 else [{'a': [1.0, -2.0, 0.5]}, {'l': [2, 1]}])
        if deep:
            fs += [{'ni': -1}, {'n': 0.0}, {'l': [1, 2, -3][:k]} if k > 1 else {'a': [3.0, 1.0]}, {'a': [0.0, 1.0, 2.0][:max(k, 2)]}, {'a': [1.0, 2.0, 3.0, 4.0]}]
        for f in fs:
            for s in (False, True):
                d = dict(v=v, f=f)
                if i is not None:
                    d['i'] = i
                if s:
                    d['sum'] = True
                    if k == 1 and isinstance(f, dict) and list(f)[0] in 'al':
                        continue
                yield d


OBJ = dict(s=[dict(v=0, f=1, sum=True)])
CONST = [[], [1], [{'a': [0.5, 1.0, -0.5]}], [{'l': [1, 0, 2]}, -0.5], [{'n': 0.5}, {'ni': 1}], [1, {'a': [0.5, 1.0, -0.5]}], [{'a': [1.0, 0.5, 2.0]}, {'a': [-0.5, 0.5, -1.0]}],
         [{'l': [0, 1, 2]}, {'ai': [1, -1, 0]}, {'a': [0.5, 0.0, -1.0]}]]


def programs(tier):
    deep = tier == 'thorough'
    # bounds and kinds of variables
    opt = [None, 0, 1, -0.5, {'a': [0.0, 0.5, 1.0]}, {'l': [1, 0, 2]}, {'n': 0.5}, {'ni': 1}]
    for n in (1, 3):
        for ts in ((False, True) if n > 1 else (False,)):
            for lb in opt:
                for ub in opt:
                    if n == 1 and any(isinstance(x, dict) and list(x)[0] in 'al' for x in (lb, ub)):
                        continue
                    for b in (False, True):
                        v = dict(n=n, lb=lb, ub=ub, bin=b, ts=ts)
                        yield 'variable', dict(vars=[v, dict(n=1)], cons=[], obj=OBJ)
            for fx in opt[1:] + [2]:
                if n == 1 and isinstance(fx, dict) and list(fx)[0] in 'al':
                    continue
                for lb, ub in [(None, None), (-0.5, 2), (None, 2), (-1, None), (0.25, 0.75), (1, None), (None, 0.5), (None, 0), (0, None)] + (
                        [({'a': [1.0, 0.0, 0.0]}, None), (None, {'a': [1.0, 1.0, 0.5]}), ({'l': [0, 0, 1]}, {'l': [1, 1, 2]}), ({'a': [0.5, 0.0, 0.5]}, 1)] if n > 1 else []):
                    yield 'variable', dict(vars=[dict(n=n, fix=fx, lb=lb, ub=ub, ts=ts), dict(n=1)], cons=[], obj=OBJ)
            for fx in (0, 1, {'a': [0, 1, 0]}, {'l': [1, 0, 1]}):
                if n == 1 and isinstance(fx, dict):
                    continue
                yield 'variable', dict(vars=[dict(n=n, fix=fx, bin=True, ts=ts), dict(n=1)], cons=[], obj=OBJ)
    # one constraint of two summands
    vs = [X3, dict(n=1, lb=-0.5, ub=2)]
    second = [None, dict(v=1, f=1), dict(v=1, f={'a': [1.0, 2.0, -1.0]}), dict(v=0, f=1), dict(v=0, f=-1, i=1), dict(v=0, f={'a': [1.0, -1.0]}, i={'l': [0, 1]}), dict(v=0, f=1, sum=True),
              dict(v=0, f={'a': [1.0, 0.5, 2.0]}, sum=True), dict(v=0, f=2, i={'r': [1, 3]}, sum=True)]
    for v, n in ((0, 3), (1, 1)):
        for s1 in summands(v, n, deep):
            for s2 in second:
                for c in CONST:
                    if not deep and c and s2 and len(c) > 1 and s2 not in second[1:4]:
                        continue
                    for ineq in (False, True):
                        firsts = ('s', 'c') if deep or (len(c) == 1 and s2 in (None, second[1])) else ('s',)
                        for first in firsts:
                            yield 'constraint', dict(vars=vs, cons=[dict(s=[s1] + ([s2] if s2 else []), c=c, ineq=ineq, first=first)], obj=OBJ)
    # objectives
    for v, n in ((0, 3), (1, 1)):
        for s1 in summands(v, n, True):
            for s2 in second:
                yield 'objective', dict(vars=vs, cons=[], obj=dict(s=[s1] + ([s2] if s2 else [])))
    # several constraints, order of adding
    some = [dict(s=[dict(v=0, f=1), dict(v=1, f=-1)], ineq=True), dict(s=[dict(v=0, f=1, sum=True)], c=[1.5]), dict(s=[dict(v=0, f=1, i=0), dict(v=0, f=-1, i=2)]),
            dict(s=[dict(v=1, f={'a': [1.0, 2.0, 4.0]})], c=[{'a': [2.0, 2.0, 2.0]}], ineq=True), dict(s=[dict(v=0, f=-1, i={'r': [0, 2]}), dict(v=0, f=1, i={'r': [1, 3]})], c=[1], ineq=True)]
    for cs in itertools.product(some, repeat=3 if deep else 2):
        for order in ('', 'late'):
            for b in (False, True):
                yield 'program', dict(vars=[dict(n=3, bin=b), dict(n=1, lb=-0.5, ub=2)], cons=list(cs), obj=dict(s=[dict(v=0, f={'a': [1.0, 2.0, 3.0]}, sum=True), dict(v=1, f=-2)]), order=order)
    # answers of the solver
    for vs_ in ([dict(n=1, bin=True), dict(n=2)], [dict(n=2, bin=True), dict(n=1)], [dict(n=1), dict(n=1, bin=True)], [dict(n=3, bin=True, ts=True)], [dict(n=2, ts=True), dict(n=1, bin=True)]):
        for k in range(len(vs_)):
            yield 'answers', dict(vars=vs_, cons=[], obj=dict(s=[dict(v=k, f=2, sum=True), dict(v=0, f=-1, i=0)]), answers=True)
        yield 'answers', dict(vars=vs_, cons=[dict(s=[dict(v=0, f=1, sum=True)], c=[1], ineq=True)], obj=dict(s=[dict(v=0, f=1, i=vs_[0]['n'] - 1)]), answers=True)


def tasks(tier):
    group = {}
    for kind, p in programs(tier):
        g = group.setdefault(kind, [])
        g.append(p)
        if len(g) == (4 if kind == 'answers' else 40):
            yield dict(kind=kind, programs=g)
            group[kind] = []
    for kind, g in group.items():
        if g:
            yield dict(kind=kind, programs=g)
