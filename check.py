#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE
Exit 0: the property held on everything explored; exit 1 with a VIOLATION line otherwise."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)

from fxmc import env  # noqa: E402

TASK_TIMEOUT = 150


class TaskTimeout(BaseException):
    pass


def _alarm(*_):
    raise TaskTimeout()


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


FAM = None


def raised_by_code(e):
    """whether the innermost frame of either this framework or flixOpt is one of flixOpt"""
    if isinstance(e, (OSError, MemoryError, RecursionError)):
        return False
    own, code = os.path.join(ROOT, ''), os.path.join(os.path.realpath(env.REPO), 'flixOpt', '')
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        n = os.path.realpath(f.filename)
        if n.startswith(own):
            last = 'own'
        elif n.startswith(code):
            last = 'code'
    return last == 'code'


def work(item):
    i, task = item
    from fxmc import impl
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_TIMEOUT)
    t = time.time()
    try:
        env.quiet()
        r = FAM.run(task)
    except TaskTimeout:
        r = dict(error=f'task not finished within {TASK_TIMEOUT} s', viol=[])
    except impl.HarnessError as e:
        r = dict(error=f'HarnessError {e}', viol=[])
    except Exception as e:
        if isinstance(e, impl.ModelError) or raised_by_code(e):
            # every task is something flixOpt has to do: an exception out of its own code is a wrong answer
            r = dict(viol=[dict(kind='raises', text=f'{type(e).__name__}: {e}; ' + ' '.join(traceback.format_exc()[-500:].split()))])
        else:
            r = dict(error=traceback.format_exc(), viol=[])
    finally:
        signal.alarm(0)
    r['i'] = i
    r['wall'] = time.time() - t
    return r


def work_all(items):
    return [work(i) for i in items]


def results(pool, tasks, chunk):
    """the answers of the workers; a worker that ended by itself ends the run (the pool would wait for it for ever)"""
    L = list(enumerate(tasks))
    it = pool.imap_unordered(work_all, [L[k:k + chunk] for k in range(0, len(L), chunk)])
    seen = {}
    while True:
        for p in list(pool._pool):
            seen[p.pid] = p
        try:
            yield from it.next(timeout=5)
        except StopIteration:
            return
        except mp.TimeoutError:
            dead = [p.exitcode for p in seen.values() if p.exitcode not in (None, 0)]
            if dead:
                yield dict(i=-1, wall=0.0, viol=[], error=f'a worker process ended with {dead}')
                pool.terminate()
                return


def mute():
    """solvers print to file descriptor 1"""
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)


def known(pid):
    """findings not repaired: 'known: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                f = line.split(None, 3)
                if f[1] == f'property={pid}':
                    out[f[2].split('=', 1)[1]] = f[3].strip()
    return out


def main():
    global FAM
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        rp = json.load(open(a.replay))
        pid = rp['property']
    else:
        pid = a.property
    env.setup()
    from fxmc import impl
    impl.lib()
    FAM = importlib.import_module(f'fxmc.fam.{pid.lower()}')
    if a.replay:
        r = work((0, rp['task']))
        print(json.dumps(jsonable(r), indent=1)[:20000])
        return 1 if r['viol'] else (2 if r.get('error') else 0)
    tasks = list(FAM.tasks(a.tier))
    seen, uniq = set(), []
    for t in tasks:
        k = json.dumps(jsonable(t), sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(t)
    tasks = uniq
    tot, samples, errors, viols, slow = {}, [], [], [], []
    knownf = known(pid)
    hit = set()
    hist = {}
    with mp.get_context('fork').Pool(a.jobs, initializer=mute, maxtasksperchild=2000) as pool:
        chunk = max(1, min(16, len(tasks) // (a.jobs * 8) or 1))
        for r in results(pool, tasks, chunk):
            for k, v in r.items():
                if isinstance(v, (int, bool)) and k not in ('i',):
                    tot[k] = tot.get(k, 0) + int(v)
            slow.append((r['wall'], r['i']))
            if r.get('tag'):
                hist[r['tag']] = hist.get(r['tag'], 0) + 1
            if r.get('error'):
                errors.append((r['i'], r['error']))
            for v in r['viol']:
                if v.get('key') in knownf:
                    hit.add(v['key'])
                else:
                    viols.append((r['i'], v))
            if 'sample' in r:
                samples.append((r['i'], r['sample']))
            if len(viols) > 200:
                pool.terminate()
                break
    for k in sorted(knownf):
        print(f'KNOWN-FINDING: property={pid} {knownf[k]}' + ('' if k in hit else ' (not reproduced in this run)'))
    viols.sort(key=lambda x: x[0])
    errors.sort()
    samples.sort(key=lambda x: x[0])
    nv = 0
    if viols:
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, v in viols[:5]:
            nv += 1
            path = os.path.join(d, f'{pid}-{nv}.json')
            json.dump(jsonable(dict(property=pid, task=tasks[i], violation=v)), open(path, 'w'), indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print('   ', str(v.get('kind')), str(v.get('text'))[:600], json.dumps(jsonable(v.get('schedule', '')))[:600])
    for i, e in errors[:3]:
        print('ERROR in task', i, json.dumps(jsonable(tasks[i]))[:400], e[-1500:])
    n = len(tasks)
    wall = time.time() - t0
    cov = dict(FAM.coverage(tot, n)) if hasattr(FAM, 'coverage') else {}
    level = FAM.LEVEL
    for k in ('wall', 'i'):
        tot.pop(k, None)
    if level == 'model_checking':
        cov.setdefault('states', tot.get('states', 0))
        cov.setdefault('transitions', tot.get('transitions', 0))
        cov.setdefault('traces_validated_against_impl', tot.get('feeds', 0))
        cov.setdefault('configurations', n)
        cov.setdefault('schedules_compared', tot.get('words', 0))
        cov.setdefault('implementation_search_nodes', tot.get('nodes', 0))
    else:
        cov.setdefault('evaluations', tot.get('evals', n))
        cov.setdefault('distinct_nontrivial', tot.get('nontrivial', n))
    cov['rule'] = FAM.RULE
    if hist:
        cov['cases_by_kind'] = hist
    cov['exhaustive'] = not errors and not viols
    step = max(1, len(samples) // 4)
    cov['samples'] = [jsonable(dict(task=tasks[i], observed=s)) for i, s in samples[::step][:5]] or \
                     [jsonable(dict(task=t)) for t in tasks[:2]]
    if not a.no_evidence:
        ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level=level, coverage=cov,
                  wall_s=round(wall, 2), assumptions=list(FAM.ASSUMPTIONS), violations=len(viols))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w'), indent=1)
    slow.sort(reverse=True)
    print(f'{pid} {a.tier}: {n} cases, ' + ', '.join(f'{k}={v}' for k, v in sorted(tot.items())) +
          f', {len(viols)} violations, {len(errors)} errors, {wall:.1f} s (slowest case {slow[0][0]:.1f} s)' if slow else '')
    if a.verbose:
        for w, i in slow[:5]:
            print('   slow', round(w, 2), json.dumps(jsonable(tasks[i]))[:300])
    if viols:
        return 1
    if errors or not n:
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
