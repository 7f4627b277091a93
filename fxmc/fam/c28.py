import itertools
import json
import os
import pathlib
import shutil
import stat
import tempfile

import numpy as np

from .. import build, env, impl, ref
from .common import *

PID, LEVEL = 'C28', 'fault_enumeration'
ASSUMPTIONS = ['the executables of external solvers are stand-ins that solve the problem file they get with HiGHS and speak the file formats of cbc 2.10, glpsol 4.65, gurobi.sh 9.1 and cplex 12.9 as pyomo reads them',
               'HiGHS itself is the real library, its ending (time limit, infeasible, error) is injected at its Python interface',
               'the reference transition system fxmc/ref.py tells which values belong to reported flow rates']
RULE = ('all sequences of solver endings (optimal, stopped with a solution, stopped without one, infeasible, crash, no output) up to a length x all solver classes x kinds of calculation, '
        'each executed on the real code; after every call: either an exception and no results written, or the results are those of the answer of this very call (objective and all values judged by the reference); '
        'options of the solver as received by it are compared with those given')

ENDS = dict(cbc=['opt', 'inc', 'none', 'none2', 'inf', 'crash', 'nofile'], glpk=['opt', 'inc', 'none', 'inf', 'crash', 'nofile'],
            gurobi=['opt', 'inc', 'none', 'inf', 'crash', 'nofile'], cplex=['opt', 'inc', 'none', 'inf', 'crash', 'nofile'],
            highs=['opt', 'inc', 'none', 'inf', 'err', 'crash'])
GOOD = ('opt', 'inc')


def spec_of(name, T=4):
    dt = (1, 2, 1, 1, 1, 2)[:T]
    dem = {'a': [1, 0, 2, 1, 2, 0][:T]}
    cheap = flow('f', 'b', 2, eff={'eff': [['c', 1], ['k', 0.5]]})
    dear = flow('f', 'b', 2, eff={'eff': [['c', {'ts': [5, 6, 7, 8, 9, 5][:T]}]]})
    k = sink('d', flow('f', 'b', 1, fixed=dem))
    if name == 'mip':
        cheap = flow('f', 'b', 2, rmin=0.5, eff={'eff': [['c', 1], ['k', 0.5]]}, onoff={'switch_eff': 3, 'sw_max': 3})
        return system([source('s', cheap), source('e', dear), k], dt=dt, effects=E2, buses={'b': {'penalty': None}})
    if name == 'inv':
        cheap = flow('f', 'b', inv(min=1, max=2, optional=True, fix_eff=2, spec_eff=1), eff={'eff': [['c', 1], ['k', 0.5]]})
        return system([source('s', cheap), source('e', dear), k], dt=dt, effects=E2, buses={'b': {'penalty': None}}, sizes={'s.f': [0, 1, 2]})
    if name == 'sto':
        S = dict(kind='Storage', label='S', cap=2, init=0, ins=[flow('c', 'b', 2)], outs=[flow('d', 'b', 2)])
        return system([source('s', cheap), source('e', dear), k, S], dt=dt, effects=E2, buses={'b': {'penalty': None}})
    return system([source('s', cheap), source('e', dear), k], dt=dt, effects=E2, buses={'b': {'penalty': None}})


_bin = None


def bindir():
    """directory with the stand-ins, first on the path"""
    global _bin
    if _bin is None:
        _bin = tempfile.mkdtemp(prefix='bin_', dir=env.scratch())
        stub = pathlib.Path(__file__).resolve().parent.parent / 'stubs' / 'solver.py'
        import sys
        for n in ('cbc', 'glpsol', 'gurobi.sh', 'gurobi_cl', 'cplex'):
            p = pathlib.Path(_bin) / n
            p.write_text(f'#!/bin/sh\nexec "{sys.executable}" -B "{stub}" {n} "$@"\n')
            p.chmod(0o755)
        os.environ['PATH'] = _bin + os.pathsep + os.environ['PATH']
        from pyomo.common import Executable
        for n in ('cbc', 'glpsol', 'gurobi.sh', 'cplex'):
            Executable(n).rehash()
    return _bin


def make(kind, gap, limit, threads):
    import flixOpt as fx
    s = fx.solvers
    kw = dict(mip_gap=gap, solver_output_to_console=False)
    if kind == 'glpk':
        return s.GlpkSolver(**kw)
    if kind == 'highs':
        return s.HighsSolver(time_limit_seconds=limit, threads=threads, **kw)
    return dict(cbc=s.CbcSolver, gurobi=s.GurobiSolver, cplex=s.CplexSolver)[kind](time_limit_seconds=limit, **kw)


def fake_highs(base):
    """the real HiGHS whose ending is injected"""
    import highspy
    real = highspy.Highs

    class Info:
        def __init__(self, obj, bound):
            self.objective_function_value, self.mip_dual_bound, self.mip_node_count = obj, bound, 1
            self.primal_solution_status = 2

    class Highs(real):
        def run(self):
            rec = dict(solver='highs')
            n = len(open(base + '/record').readlines()) if os.path.exists(base + '/record') else 0
            self.end = rec['outcome'] = json.load(open(base + '/plan'))[n]
            rec.update(gap=self.getOptionValue('mip_rel_gap')[1], limit=self.getOptionValue('time_limit')[1],
                       threads=self.getOptionValue('threads')[1], log=self.getOptionValue('log_file')[1])
            for o in ('threads', 'parallel'):
                self.setOptionValue(o, {'threads': 1, 'parallel': 'off'}[o])
            r = None
            L = self.getLp()
            cost = [float(c) for c in L.col_cost_]
            if self.end == 'inc':
                for i, c in enumerate(cost):
                    self.changeColCost(i, -c)
            if self.end in GOOD:
                r = real.run(self)
                assert real.getModelStatus(self) == highspy.HighsModelStatus.kOptimal
                x = list(real.getSolution(self).col_value)
                self.obj = rec['obj'] = sum(a * b for a, b in zip(cost, x)) + float(L.offset_)
            if self.end == 'inc':
                for i, c in enumerate(cost):
                    self.changeColCost(i, c)
                self.sol = highspy.HighsSolution()
                self.sol.col_value = x
                self.sol.value_valid = True
            open(base + '/record', 'a').write(json.dumps(rec) + '\n')
            if self.end == 'crash':
                raise RuntimeError('solver crashed')
            return r

        def getModelStatus(self):
            S = highspy.HighsModelStatus
            if not hasattr(self, 'end') or self.end == 'opt':
                return real.getModelStatus(self)
            return dict(inc=S.kTimeLimit, none=S.kTimeLimit, inf=S.kInfeasible, err=S.kSolveError)[self.end]

        def getSolution(self):
            if self.end == 'inc':
                return self.sol
            return real.getSolution(self)

        def getInfo(self):
            if self.end == 'inc':
                return Info(self.obj, self.obj - 1000)
            return real.getInfo(self)

    highspy.Highs = Highs
    return lambda: setattr(highspy, 'Highs', real)


def judged(R, tree, obj):
    """violations of the reported results"""
    out = []
    flat = impl.flat(tree)
    head = tuple(float(flat[('Components',) + s['key'] + ('Investment', 'size')]) for s in R.sizes)
    snap = lambda v: 0.0 if abs(v) < 1e-6 else v      # the solver works within tolerances
    xs = [tuple(snap(float(flat[('Components',) + f['key'] + ('flow_rate',)][t])) for f in R.flows) for t in range(R.T)]
    tags, lo, hi = R.judge(tuple(snap(h) for h in head), xs)
    if tags:
        out.append(f'the reported schedule violates {sorted(tags)}: {xs}')
        return out
    for (key, tg, d, req), a, b in zip(R.obs, lo, hi):
        p, t = key
        if p not in flat:
            continue
        v = float(np.atleast_1d(flat[p])[t])
        tol = 1e-4 * max(1, abs(v))
        if d == 3 and not (a - tol <= v <= b + tol):
            out.append(f'{"/".join(map(str, p))}[{t}] = {v}, expected [{a}, {b}] for {xs}')
    if abs(flat[('Objective',)] - obj) > 1e-4 * max(1, abs(obj)):
        out.append(f'objective {flat[("Objective",)]}, the answer has {obj}')
    return out


def run(task):
    if task['what'] == 'log':
        return run_log(task)
    import flixOpt as fx
    from pyomo.common.tempfiles import TempfileManager
    bindir()
    base = tempfile.mkdtemp(prefix='c28_', dir=env.scratch())
    out = dict(viol=[], executions=0, endings=0, nontrivial=1)
    cwd, old = os.getcwd(), TempfileManager.tempdir
    undo = fake_highs(base)
    restore = []

    def viol(text, **kw):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind='solver', text=text, **kw))

    try:
        os.chdir(base)
        os.mkdir('tmp')
        TempfileManager.tempdir = base + '/tmp'
        os.environ['FXSTUB'] = base
        spec = spec_of(task['spec'], 6 if task['what'] == 'seg' else 4)
        calls = task['calls']           # list of (solver, endings consumed in this call)
        json.dump([e for _, es in calls for e in es], open('plan', 'w'))
        b = build.build(spec)
        if task['what'] == 'full':
            calc = fx.FullCalculation('c', b.fs)
            calc.do_modeling()
        elif task['what'] == 'agg':
            calc = fx.AggregatedCalculation('c', b.fs, fx.AggregationParameters(2 * spec['dt'][0], 2, False, False, False, 0, []))
            calc.do_modeling()
        else:
            calc = fx.SegmentedCalculation('c', b.fs, 3, 0)
        solvers = {}
        for n, (kind, ends) in enumerate(calls):
            gap, limit, threads = task['opts']
            sv = solvers.get(kind) or make(kind, gap, limit, threads)
            if task.get('same', True):
                solvers[kind] = sv
            before = records()
            files = snapshot()
            err = None
            try:
                if task['what'] == 'seg':
                    calc.do_modeling_and_solve(sv, save_results='out' if task['save'] else False)
                else:
                    calc.solve(sv, save_results='out' if task['save'] else False)
            except Exception as e:
                err = e
            out['executions'] += 1
            recs = records()[len(before):]
            out['endings'] += len(recs)
            where = f'call {n + 1} ({kind}, {ends})'
            if [r['outcome'] for r in recs] != list(ends):
                viol(f'{where}: the solver was called {len(recs)} times (error: {err!r})')
                return out
            for r in recs:
                if r['solver'] != {'glpk': 'glpsol', 'gurobi': 'gurobi.sh'}.get(kind, kind):
                    viol(f'{where}: solver {r["solver"]} was used')
                if r['gap'] is not None and abs(r['gap'] - gap) > 1e-12 or r['gap'] is None and not (kind == 'cplex' and gap == 0):
                    viol(f'{where}: relative gap {r["gap"]}, given {gap}')
                if kind != 'glpk' and (r['limit'] is None or abs(r['limit'] - limit) > 1e-9):
                    viol(f'{where}: time limit {r["limit"]}, given {limit}')
                if kind == 'highs' and r['threads'] != threads:
                    viol(f'{where}: {r["threads"]} threads, given {threads}')
                if kind == 'highs' and task['save'] and os.path.realpath(r['log']) != os.path.realpath('out/c_solver.log'):
                    if task['what'] != 'seg':
                        viol(f'{where}: log file {r["log"]}')
            extra = set(os.listdir('.')) - {'plan', 'record', 'tmp', 'flixOpt.log'} - ({'out'} if task['save'] else set())
            if extra:
                viol(f'{where}: files written where none were asked for: {sorted(extra)}')
            good = all(e in GOOD for e in ends)
            if not good:
                if err is None:
                    viol(f'{where}: no solution was found, but the call returns and reports {brief(calc, task)}')
                    return out
                ch = [f for f in snapshot() if 'results' in f[0] and f not in files]
                if ch:
                    viol(f'{where}: no solution was found, but results were written: {ch[0][0]}')
                    return out
                continue
            if err is not None:
                viol(f'{where}: a solution was found, but the call raises {type(err).__name__}: {err}')
                return out
            if task['what'] == 'seg':
                trees = [c.results() for c in calc.sub_calculations]
                sys_ = [c.system_model for c in calc.sub_calculations]
                if len(trees) != len(recs):
                    viol(f'{where}: {len(trees)} parts reported')
                    return out
                for tr, r, sm in zip(trees, recs, sys_):
                    if abs(tr['Objective'] - r['obj']) > 1e-4 * max(1, abs(r['obj'])):
                        viol(f'{where}: objective {tr["Objective"]} of a part, the answer has {r["obj"]}')
            else:
                tree = calc.results()
                R = ref.Ref(spec)
                for t in judged(R, tree, recs[0]['obj']):
                    viol(f'{where}: {t}')
                trees, sys_ = [tree], [calc.system_model]
                mr = calc.system_model.main_results
                if abs(mr['Objective'] - recs[0]['obj']) > 1e-4 * max(1, abs(recs[0]['obj'])):
                    viol(f'{where}: main results report the objective {mr["Objective"]}, the answer has {recs[0]["obj"]}')
                lb = mr['lower bound']
                want = recs[0]['obj'] if ends[-1] == 'opt' else recs[0]['obj'] - 1000
                if kind in ('highs', 'gurobi') and abs(lb - want) > 1e-4 * max(1, abs(want)):
                    viol(f'{where}: main results report the lower bound {lb}, the answer has {want}')
            r = recs[-1]
            if abs(sv.objective - r['obj']) > 1e-4 * max(1, abs(r['obj'])):
                viol(f'{where}: the solver object reports the objective {sv.objective}, the answer has {r["obj"]}')
            msg = str(sv.termination_message)
            if kind == 'highs' and msg != {'opt': 'optimal', 'inc': 'maxTimeLimit'}[ends[-1]]:
                viol(f'{where}: termination message {msg!r}')
            if kind == 'gurobi' and f'message of {ends[-1]}' not in msg:
                viol(f'{where}: termination message {msg!r}')
            if kind == 'glpk' and 'ok' not in msg:
                viol(f'{where}: termination message {msg!r}')
            if task['save']:
                if not os.path.exists('out/c_results.json'):
                    viol(f'{where}: no results written')
                    return out
                J = json.load(open('out/c_results.json'))
                if task['what'] == 'seg':
                    got = np.concatenate([np.atleast_1d(t['Components']['s']['f']['flow_rate'])[:3 if i == 0 else None] for i, t in enumerate(trees)])
                    J = J.get('combined_arrays', J.get('Combined_Arrays', J))
                else:
                    if abs(J['Objective'] - r['obj']) > 1e-4 * max(1, abs(r['obj'])):
                        viol(f'{where}: the objective written is {J["Objective"]}, the answer has {r["obj"]}')
                    got = trees[0]['Components']['s']['f']['flow_rate']
                if 'Components' in J and not np.allclose(J['Components']['s']['f']['flow_rate'], got):
                    viol(f'{where}: written flow rates {J["Components"]["s"]["f"]["flow_rate"]}, reported {got}')
        out['sample'] = dict(last=[r for r in records()][-1:])
    finally:
        undo()
        os.chdir(cwd)
        TempfileManager.tempdir = old
        shutil.rmtree(base, ignore_errors=True)
    return out


def brief(calc, task):
    try:
        if task['what'] == 'seg':
            return [c.results()['Objective'] for c in calc.sub_calculations]
        t = calc.results()
        return dict(objective=t['Objective'], s=list(np.atleast_1d(t['Components']['s']['f']['flow_rate'])))
    except Exception as e:
        return repr(e)


def records():
    return [json.loads(l) for l in open('record')] if os.path.exists('record') else []


def snapshot():
    return [(str(p), p.read_bytes()) for p in sorted(pathlib.Path('out').rglob('*')) if p.is_file()] if os.path.exists('out') else []


def run_log(task):
    """numbers read from log texts"""
    from flixOpt.math_modeling import SolverLog
    out = dict(viol=[], executions=1, endings=0, nontrivial=1)
    base = tempfile.mkdtemp(prefix='c28_', dir=env.scratch())
    try:
        p = os.path.join(base, 'x.log')
        open(p, 'w').write(task['text'])
        l = SolverLog(task['solver'], p)
        got = l.infos['presolved']
        if got != task['want']:
            out['viol'].append(dict(kind='log', text=f'statistics {got}, expected {task["want"]} from {task["text"]!r}'))
        if l.log != task['text']:
            out['viol'].append(dict(kind='log', text='the text of the log is altered'))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def logs():
    N = dict(cols=None, continuous=None, integer=None, binary=None, rows=None, nonzeros=None)
    for r, c, n, i, b in itertools.product((1, 285), (7, 12), (3, 900), (0, 5), (0, 2)):
        pre = f'Optimize a model with 1285 rows, 1292 columns and 1878 nonzeros\nVariable types: 1202 continuous, 90 integer (90 binary)\nPresolve removed 154 rows and 172 columns\nPresolve time: 0.00s\n'
        t = pre + f'Presolved: {r} rows, {c} columns, {n} nonzeros\nVariable types: {c - i} continuous, {i} integer ({b} binary)\nRoot relaxation\n'
        yield dict(what='log', solver='gurobi', text=t, want=dict(cols=c, continuous=c - i, integer=i, binary=b, rows=r, nonzeros=n))
        t = f'Welcome\nPresolve {r} (-1079) rows, {c} (-{i}) columns and {n} (-3306) elements\n'
        yield dict(what='log', solver='cbc', text=t, want=dict(N, rows=r, cols=c, nonzeros=n))
        t += f'Presolved problem has {i} integers ({b} of which binary)\n'
        yield dict(what='log', solver='cbc', text=t, want=dict(cols=c, continuous=c - i, integer=i, binary=b, rows=r, nonzeros=n))
    for s in ('gurobi', 'cbc', 'glpk'):
        for t in ('', 'Presolved:\n', 'something else\n'):
            yield dict(what='log', solver=s, text=t, want=N)


def tasks(tier):
    deep = tier == 'thorough'
    o = [(0.01, 300, 4), (0, 60, 1), (0.25, 7, 2), (0.0005, 0.5, 8), (0.05, 7200.25, 3)]
    T = lambda **kw: dict(dict(what='full', spec='mip', save=False, same=True, opts=o[0]), **kw)
    yield from logs()
    for kind, ends in ENDS.items():
        for spec in ('mip', 'lp', 'inv', 'sto'):
            E = [e for e in ends if not (spec == 'lp' and e in ('none', 'none2') and kind == 'cbc')]
            for q in o:
                for e in E:
                    if deep or q is o[0] or e == 'opt':
                        yield T(spec=spec, calls=[[kind, [e]]], opts=q)
                        yield T(spec=spec, calls=[[kind, [e]]], opts=q, save=True)
            if spec in ('mip', 'lp') or deep:
                for a, e in itertools.product(E, repeat=2):
                    if deep or a in GOOD or e in GOOD:
                        yield T(spec=spec, calls=[[kind, [a]], [kind, [e]]], save=(a in GOOD) and spec == 'mip', same=e != 'inc')
        # parts
        for a, e in itertools.product(ends, repeat=2):
            calls = [[kind, [a, e]]] if a in GOOD else [[kind, [a]]]
            yield T(what='seg', spec='sto', calls=calls, save=False)
            if a == 'opt':
                yield T(what='seg', spec='mip', calls=calls, save=True)
                if deep:
                    for f in ends:
                        yield T(what='seg', spec='sto', calls=calls + [[kind, [f, 'opt'] if f in GOOD else [f]]], save=True)
        if deep:
            for w in itertools.product(ends, repeat=3):
                yield T(calls=[[kind, [e]] for e in w], save=True)
    # several solvers on the same problem
    for a, b in itertools.permutations(ENDS, 2):
        for e in ('opt', 'inc', 'none', 'inf'):
            if deep or e != 'inf':
                yield T(calls=[[a, ['opt']], [b, [e]]])
