"""Stand-in for the executables of external solvers: solver.py NAME ARGS...

Solves the problem file it gets with HiGHS, but ends in the way the plan in $FXSTUB prescribes; speaks the file formats of
cbc, glpsol, gurobi.sh and cplex.  Every call is recorded (arguments, outcome, values)."""
import ast
import json
import os
import re
import sys


def main():
    name, args = sys.argv[1], sys.argv[2:]
    base = os.environ['FXSTUB']
    if name == 'cbc' and '-import' not in args:
        print('Welcome to the CBC MILP Solver \nVersion: 2.10.8 \nBuild Date: Jan 1 2022\n')
        if '-AMPL' in args:
            print('No match for AMPL - ? for list of commands')
        return 0
    if name == 'glpsol' and '--version' in args:
        print('GLPSOL: GLPK LP/MIP Solver, v4.65')
        return 0
    if name == 'gurobi_cl':
        return 0
    if name == 'cplex' and args[:1] == ['-c']:
        print('Welcome to IBM(R) ILOG(R) CPLEX(R) Interactive Optimizer 12.9.0.0')
        return 0
    stdin = sys.stdin.read() if name in ('gurobi.sh', 'cplex') else ''
    if name == 'gurobi.sh' and 'gurobi_run' not in stdin:
        print('(9, 1, 2)')
        return 0
    rec = dict(solver=name)
    if name == 'cbc':
        lp = args[args.index('-import') + 1]
        opt = {}
        for i, a in enumerate(args):
            if a in ('-ratio', '-ratioGap', '-allow', '-allowableGap'):
                opt['ratio' if a[:4] == '-rat' else a] = args[i + 1]
            if a.startswith('-sec'):
                opt['sec'] = args[i + 1]
        sol = args[args.index('-solu') + 1]
        gap, limit = opt.get('ratio'), opt.get('sec')
    elif name == 'glpsol':
        lp = args[args.index('--cpxlp') + 1]
        gap = args[args.index('--mipgap') + 1] if '--mipgap' in args else None
        limit = args[args.index('--tmlim') + 1] if '--tmlim' in args else None
        sol, wglp = args[args.index('--write') + 1], args[args.index('--wglp') + 1]
    elif name == 'gurobi.sh':
        m = re.search(r'gurobi_run\((.*),\)\n', stdin)
        a = ast.literal_eval('[' + m.group(1) + ']')
        lp = a[0]
        low = {k.lower(): v for k, v in a[3].items()}
        gap, limit = low.get('mipgap'), low.get('timelimit')
        sol = ast.literal_eval(re.search(r'write_result\(soln, (.*)\)\n', stdin).group(1))
    else:
        lp = re.search(r'^read (.*)$', stdin, re.M).group(1)
        m = re.search(r'^set mip tolerances mipgap (.*)$', stdin, re.M)
        gap = m.group(1) if m else None
        m = re.search(r'^set timelimit (.*)$', stdin, re.M)
        limit = m.group(1) if m else None
        sol = re.search(r'^write (.*)$', stdin, re.M).group(1)
        log = re.search(r'^set logfile (.*)$', stdin, re.M).group(1)
    rec.update(gap=None if gap is None else float(gap), limit=None if limit is None else float(limit))
    n = len(open(os.path.join(base, 'record')).readlines()) if os.path.exists(os.path.join(base, 'record')) else 0
    plan = json.load(open(os.path.join(base, 'plan')))
    out = rec['outcome'] = plan[n]

    import highspy
    h = highspy.Highs()
    h.setOptionValue('output_flag', False)
    h.setOptionValue('threads', 1)
    h.readModel(lp)
    L = h.getLp()
    cols = list(L.col_names_)
    rows = list(L.row_names_)
    cost = [float(c) for c in L.col_cost_]
    integ = [v != highspy.HighsVarType.kContinuous for v in L.integrality_] if len(L.integrality_) else [False] * len(cols)
    mip = any(integ)
    if out == 'inc':         # another feasible point
        for i, c in enumerate(cost):
            h.changeColCost(i, -c)
    if out == 'none' and mip:     # relaxation
        for i in range(len(cols)):
            h.changeColIntegrality(i, highspy.HighsVarType.kContinuous)
    h.run()
    x = [float(v) for v in h.getSolution().col_value]
    if out in ('opt', 'inc'):
        assert h.getModelStatus() == highspy.HighsModelStatus.kOptimal, h.getModelStatus()
    obj = sum(c * v for c, v in zip(cost, x)) + float(L.offset_)
    ok = out in ('opt', 'inc')
    rec.update(obj=obj if ok else None, mip=mip)
    open(os.path.join(base, 'record'), 'a').write(json.dumps(rec) + '\n')
    if out == 'crash':
        print('terminate called after throwing an instance of std::bad_alloc')
        return 3
    if out == 'nofile':
        print('interrupted')
        return 0
    bound = obj if out == 'opt' else obj - 1000
    globals()['write_' + name.split('.')[0]](locals())
    return 0


def write_cbc(v):
    out, obj, mip = v['out'], v['obj'], v['mip']
    p = ['Welcome to the CBC MILP Solver ', 'Version: 2.10.8 ', '']
    if out == 'opt':
        p += ['Result - Optimal solution found', '', f'Objective value:                {obj:.8f}', 'Enumerated nodes:               0', 'Total iterations:               5'] if mip else \
             [f'Optimal - objective value {obj:.8f}']
        head = f'Optimal - objective value {obj:.8f}'
    elif out == 'inc':
        p += ['Result - Stopped on time limit', '', f'Objective value:                {obj:.8f}', f'Lower bound:                    {v["bound"]:.3f}', 'Gap:                            1.00']
        head = f'Stopped on time - objective value {obj:.8f}'
    elif out == 'none':
        p += ['Result - Stopped on time limit', '', 'No feasible solution found', f'Lower bound:                    {v["bound"]:.3f}']
        head = f'Stopped on time (no integer solution - continuous used) - objective value {obj:.8f}'
    elif out == 'none2':     # log without the remark
        p += ['Result - Stopped on time limit', '', f'Lower bound:                    {v["bound"]:.3f}']
        head = f'Stopped on time (no integer solution - continuous used) - objective value {obj:.8f}'
    else:
        p += ['Result - Problem proven infeasible', '', 'No feasible solution found']
        head = f'Infeasible - objective value {obj:.8f}'
    p += ['', 'Total time (CPU seconds):       0.00   (Wallclock seconds):       0.00']
    print('\n'.join(p))
    with open(v['sol'], 'w') as f:
        f.write(head + '\n')
        for i, r in enumerate(v['rows']):
            f.write(f'{i:7d} {r} 0 0\n')
        for i, (c, x) in enumerate(zip(v['cols'], v['x'])):
            f.write(f'{i:7d} {c} {x!r} 0\n')


def write_glpsol(v):
    out, obj, mip, cols, rows = v['out'], v['obj'], v['mip'], v['cols'], v['rows']
    print({'opt': 'INTEGER OPTIMAL SOLUTION FOUND' if mip else 'OPTIMAL LP SOLUTION FOUND', 'inc': 'TIME LIMIT EXCEEDED; SEARCH TERMINATED',
           'none': 'TIME LIMIT EXCEEDED; SEARCH TERMINATED', 'inf': 'PROBLEM HAS NO PRIMAL FEASIBLE SOLUTION'}[out])
    with open(v['wglp'], 'w') as f:
        f.write(f'p {"mip" if mip else "lp"} min {len(rows)} {len(cols)} 0\nn p x\n')
        for i, r in enumerate(rows):
            f.write(f'n i {i + 1} {r}\n')
        for i, c in enumerate(cols):
            f.write(f'n j {i + 1} {c}\n')
        f.write('e o f\n')
    with open(v['sol'], 'w') as f:
        f.write('c Problem:    x\nc\n')
        st = {'opt': 'o', 'inc': 'f', 'none': 'u', 'inf': 'n'}[out]
        if mip:
            f.write(f's mip {len(rows)} {len(cols)} {st} {obj!r}\n')
            for i in range(len(rows)):
                f.write(f'i {i + 1} 0\n')
            for i, x in enumerate(v['x']):
                f.write(f'j {i + 1} {x!r}\n')
        else:
            st = {'opt': 'f f', 'inc': 'f u', 'none': 'u u', 'inf': 'i f'}[out]
            f.write(f's bas {len(rows)} {len(cols)} {st} {obj!r}\n')
            for i in range(len(rows)):
                f.write(f'i {i + 1} b 0 0\n')
            for i, x in enumerate(v['x']):
                f.write(f'j {i + 1} b {x!r} 0\n')
        f.write('e o f\n')


def write_gurobi(v):
    out, obj = v['out'], v['obj']
    st, tc, ss = {'opt': ('ok', 'optimal', 'optimal'), 'inc': ('aborted', 'maxTimeLimit', 'stoppedByLimit'),
                  'none': ('aborted', 'maxTimeLimit', None), 'inf': ('warning', 'infeasible', None)}[out]
    print('Gurobi Optimizer version 9.1.2\n\nPresolve removed 154 rows and 172 columns\nPresolve time: 0.00s\n'
          'Presolved: 131 rows, 120 columns, 339 nonzeros\nVariable types: 53 continuous, 67 integer (67 binary)\n')
    with open(v['sol'], 'w') as f:
        f.write(f'section:problem\nname : x\nsense : minimize\nlower_bound : {v["bound"]!r}\nnumber_of_objectives : 1\n')
        f.write(f'section:solver\nstatus:{st}\nreturn_code:0\nmessage:message of {out}\nwall_time:0.1\ntermination_condition:{tc}\ntermination_message:message of {out}\n')
        if ss:
            f.write(f'section:solution\nstatus:{ss}\nmessage:message of {out}\nobjective:{obj!r}\ngap:0.0\n')
            for c, x in zip(v['cols'], v['x']):
                f.write(f'var:{c}:{x!r}\n')


def write_cplex(v):
    out, obj, mip = v['out'], v['obj'], v['mip']
    t = {'opt': f'MIP - Integer optimal solution:  Objective =  {obj:.10e}' if mip else f'Dual simplex - Optimal:  Objective = {obj:.10e}',
         'inc': f'MIP - Time limit exceeded, integer feasible:  Objective =  {obj:.10e}\nCurrent MIP best bound =  {v["bound"]:.10e} (gap = 1, 10%)',
         'none': 'MIP - Time limit exceeded, no integer solution.', 'inf': 'MIP - Integer infeasible.'}[out]
    text = 'ILOG CPLEX 12.9.0\nProblem is a MINIMIZE problem\n' + t + '\nSolution time =    0.00 sec.\n'
    print(text)
    open(v['log'], 'w').write(text)
    if out in ('opt', 'inc'):
        with open(v['sol'], 'w') as f:
            f.write('<?xml version = "1.0" standalone="yes"?>\n<CPLEXSolution version="1.2">\n <header\n')
            f.write(f'   problemName="{v["lp"]}"\n   objectiveValue="{obj!r}"\n   solutionTypeValue="3"\n   solutionTypeString="primal"\n')
            f.write(f'   solutionStatusValue="{101 if out == "opt" else 107}"\n   solutionStatusString="{"integer optimal solution" if out == "opt" else "time limit exceeded"}"/>\n <variables>\n')
            for i, (c, x) in enumerate(zip(v['cols'], v['x'])):
                f.write(f'  <variable name="{c}" index="{i}" value="{x!r}"/>\n')
            f.write(' </variables>\n</CPLEXSolution>\n')
    elif os.path.exists(v['sol']):
        os.remove(v['sol'])
        print('CPLEX Error  1217: No solution exists.')


sys.exit(main())
