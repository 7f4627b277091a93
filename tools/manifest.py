#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib, re, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.dont_write_bytecode = True
LANG = ('explicit-state model checking: exhaustive exploration of a reference transition system, every schedule word compared with '
        'exhaustive search over the problem the real code hands to the solver')
T = {f'C{i:02d}': LANG for i in list(range(1, 17)) + [19]}
T['C12'] = LANG + '; the optimum of the real solver compared with the least value over all enumerated schedules'
T['C17'] = 'explicit-state exploration of all solver answers of each segment x all schedule words of the next, compared with the reference transition system'
T['C18'] = 'explicit-state exploration: all schedule words of clustered systems compared with the reference transition system plus equality classes'
T['C20'] = 'exhaustive exploration of all operation sequences up to a depth on the real objects, compared with a fresh system after every operation'
T['C21'] = 'exhaustive exploration of all element kinds, features and calculation sequences: saved, loaded and compared'
T['C22'] = 'exhaustive enumeration of small equation programs x all grid points; the problem handed to the solver evaluated at every point against the direct meaning'
T['C23'] = 'exhaustive exploration of all construction sequences up to a depth and all single defects at every position against a rule list'
T['C24'] = 'exhaustive enumeration of all argument combinations x result shapes against the direct table'
T['C25'] = 'exhaustive enumeration of period/step pairs x series shapes against calendar arithmetic'
T['C26'] = 'exhaustive enumeration of nested data up to a depth against the direct conversion'
T['C27'] = 'exhaustive exploration of all load sequences up to a depth against a dictionary merge'
T['C28'] = 'fault enumeration: all sequences of solver endings up to a length x solver classes x kinds of calculation on the real code (stand-in executables, injected HiGHS), judged by the reference transition system'
T['C29'] = 'exhaustive enumeration of a family of small solved systems x ways to ask for the network: summary, infos and network compared with the reference and the problem handed to the solver'
T['C30'] = 'exhaustive enumeration of plot arguments x small tables and of all elements of small solved systems: the figure read back and compared with the table'
T['C31'] = 'exhaustive enumeration of a family of systems with all features: every line of the listing read back and compared with the problem handed to the solver'
T['C32'] = 'exhaustive enumeration of all permutations of all lists of a family of systems; both problems handed to the solver searched exhaustively and compared'
T['C33'] = 'exhaustive enumeration of labels and pairs of labels for all elements of a family of systems; both problems handed to the solver searched exhaustively and compared'
T['C34'] = 'exhaustive enumeration of all ways to write every argument of a family of systems; both problems handed to the solver searched exhaustively and compared'
T['C36'] = 'explicit-state exploration of the reference transition system for all pairs and triples of features; exhaustive search of the problem handed to the solver; both languages and all reported values compared'
T['C35'] = 'exhaustive enumeration of all pairs of small systems with own and common parameter objects; the words of the whole compared with the product of the words of the parts'
NOTE = {}
checks, na = [], []
for l in open(R / 'properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    f = R / 'fxmc' / 'fam' / f'{i.lower()}.py'
    if not f.exists():
        na.append(dict(property=i, reason='check under construction'))
        continue
    src = f.read_text()
    lev = re.search(r"'(model_checking|exploration|fault_enumeration)'", src).group(1)
    note = {'model_checking': 'Exhaustive within the stated bounds (small horizons, letter grids, families of small systems; see DESIGN.md) on the real code; not a proof beyond them.',
            'fault_enumeration': 'All sequences of solver endings within the stated bounds on the real code; the external executables are stand-ins.',
            'exploration': 'Exhaustive within the stated bounds (see DESIGN.md) on the real code; not a proof beyond them.'}[lev]
    checks.append(dict(property=i, quick_cmd=f'./check.py {i} --tier quick', thorough_cmd=f'./check.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=T[i], level=lev, level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "from fxmc import impl; impl.compile_kernel()"', checks=checks, not_applicable=na)
json.dump(m, open(R / 'MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
