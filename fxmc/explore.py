"""Compares the language of the implementation with the language of the reference for one specification."""
import copy
import traceback

import numpy as np

from . import build, impl, ref as refmod

VTOL = 5e-5     # tolerance on reported values (kernel tolerance 1e-6 times accumulated coefficients)


class BuildError(Exception):
    pass


def indices(spec):
    """the window of a system in the form asked for"""
    w = spec.get('window')
    if w is None:
        return None
    w = list(w)
    if spec.get('wform') == 'range':
        r = range(w[0], w[-1] + 1, w[1] - w[0])
        assert list(r) == w
        return r
    return w


def model(spec, mk=None):
    """flow system -> modelled calculation (public API)"""
    import flixOpt as fx
    b = build.build(spec)
    c = fx.FullCalculation('c', b.fs, time_indices=indices(spec))
    c.do_modeling()
    return b, c


def words_of(sysm, R, needed=None):
    """(accepted words -> (lo, hi)), available observables, stats"""
    choices = []
    for key, grid in R.choices:
        if key not in sysm.where:
            raise MissingObservable(key)
        choices.append((key, grid))
    obs, keep = [], []
    for q, (key, tags, d, req) in enumerate(R.obs):
        if key in sysm.where:
            obs.append((key, d))
            keep.append(q)
        elif req and (needed is None or not tags or needed(tags)):
            raise MissingObservable(key, tags)
    W, lo, hi, nc, sols, st = sysm.words(choices, obs, wantsol=True)
    acc = {tuple(int(i) for i in w): k for k, w in enumerate(W)}
    return acc, lo, hi, sols, keep, st


class MissingObservable(Exception):
    def __init__(self, key, tags=()):
        super().__init__(f'{key} is not reported')
        self.key, self.tags = key, tags


def show(key):
    p, t = key
    return '/'.join(map(str, p)) + f'[{t}]'


def word_text(R, word):
    head, xs = R.decode(word)
    d = {'head': list(head), 'steps': []}
    names = ['.'.join(f['key']) for f in R.flows] + [f'{b}#{k}' for b, k, _ in R.excgrid]
    for x in xs:
        d['steps'].append({n: v for n, v in zip(names, x)})
    return d


def compare(spec, pid, eff=False, feed=2, attribute=None, maxviol=3, mk=None, over=True):
    """-> dict(viol=[...], states, transitions, words, samples, feeds)"""
    out = dict(viol=[], states=0, transitions=0, words=0, feeds=0, nodes=0)

    def viol(kind, text, **kw):
        if len(out['viol']) < maxviol:
            out['viol'].append(dict(kind=kind, text=text, spec=spec, **kw))

    R = refmod.Ref(spec)
    acc_ref = R.explore()
    out.update(states=R.stats['states'], transitions=R.stats['transitions'], words=R.stats['words'])
    try:
        b, calc = (mk or model)(spec)
        sysm = impl.Sys(calc)
    except impl.HarnessError:
        raise
    except Exception as e:
        viol('build', f'a well-formed system is not modelled: {type(e).__name__}: {e}',
             trace=traceback.format_exc()[-1500:])
        return out
    try:
        acc, lo, hi, sols, keep, st = words_of(sysm, R, lambda tags: mine(tags, pid, eff, attribute))
    except MissingObservable as e:
        viol('missing', str(e))
        return out
    out['nodes'] = st['nodes']
    # 1. schedules the implementation must not admit
    for w in sorted(set(acc) - set(acc_ref)):
        tags, _, _ = R.evaluate(w)
        if not tags:
            raise impl.HarnessError(f'reference inconsistent on {w}')
        if mine(tags, pid, eff, attribute):
            viol('accept', f'admits a schedule that violates {sorted(tags)}', word=list(w), schedule=word_text(R, w))
    # 2. schedules the implementation must admit
    if over:
        for w in sorted(set(acc_ref) - set(acc)):
            viol('reject', 'forbids a legal schedule', word=list(w), schedule=word_text(R, w))
    # 3. reported values
    dirs = [R.obs[q][2] for q in keep]
    qa = np.array(keep, int)
    common = sorted(set(acc) & set(acc_ref))
    if common and len(keep):
        ks = np.array([acc[w] for w in common])
        rl = np.array([acc_ref[w][0] for w in common])[:, qa]
        rh = np.array([acc_ref[w][1] for w in common])[:, qa]
        il, ih = lo[ks], hi[ks]
        tol = VTOL * np.maximum(1.0, np.abs(np.where(np.isfinite(rl), rl, 0)))
        d = np.array(dirs)
        with np.errstate(invalid='ignore'):
            bad = np.zeros(il.shape, bool)
            m = (d & 1) > 0
            bad[:, m] |= ~(np.abs(il - rl) <= tol)[:, m]
            m = (d & 2) > 0
            bad[:, m] |= ~(np.abs(ih - rh) <= tol)[:, m]
        for a, q in zip(*np.nonzero(bad)):
            key, tags, dd, req = R.obs[keep[q]]
            if mine(tags, pid, eff, attribute):
                viol('value', f'reports {show(key)} in [{il[a, q]:.6g}, {ih[a, q]:.6g}], expected '
                              f'[{rl[a, q]:.6g}, {rh[a, q]:.6g}]', word=list(common[a]),
                     schedule=word_text(R, common[a]))
    # 4. binding of the exploration to the code: play answers back through the real result path
    if common and feed:
        for w in [common[int(i)] for i in np.linspace(0, len(common) - 1, min(feed, len(common)))]:
            x = sols[acc[w]]
            res = sysm.feed(x)
            for (key, grid), i in zip(R.choices, w):
                if abs(res[key[0]][key[1]] - grid[i]) > 1e-5:
                    viol('value', f'result of {show(key)} is {res[key[0]][key[1]]}, solver answered {grid[i]}', word=list(w))
            rl, rh = acc_ref[w]
            for q in keep:
                key, tags, dd, req = R.obs[q]
                if key[0] not in res or not mine(tags, pid, eff, attribute):
                    continue
                v = res[key[0]][key[1]]
                t = VTOL * max(1.0, abs(v))
                if v < rl[q] - t or (dd & 2 and v > rh[q] + t):
                    viol('value', f'result {show(key)} = {v}, expected [{rl[q]:.6g}, {rh[q]:.6g}]', word=list(w))
            out['feeds'] += 1
    if common:
        out['sample'] = dict(schedule=word_text(R, common[len(common) // 2]))
    return out


def diff(sa, sb, R, na='the first', nb='the second', limit=3, RB=None):
    """differential comparison of two implementation systems over the letters of R -> (texts, dict of stats)"""
    out, st = [], dict(words=0, nodes=0)
    try:
        A, alo, ahi, asol, ka, s1 = words_of(sa, R)
    except MissingObservable as e:
        return [f'{na}: {e}'], st
    try:
        B, blo, bhi, bsol, kb, s2 = words_of(sb, RB or R)
    except MissingObservable as e:
        return [f'{nb}: {e}'], st
    st.update(words=len(A) + len(B), nodes=s1['nodes'] + s2['nodes'])
    for w in sorted(set(A) - set(B))[:limit]:
        out.append(f'{na} admits a schedule that {nb} forbids: {word_text(R, w)}')
    for w in sorted(set(B) - set(A))[:limit]:
        out.append(f'{nb} admits a schedule that {na} forbids: {word_text(R, w)}')
    if ka != kb:
        out.append(f'{na} and {nb} report different quantities: {[show(R.obs[q][0]) for q in set(ka) ^ set(kb)][:5]}')
        return out, st
    common = sorted(set(A) & set(B))
    if common and ka:
        ia, ib = np.array([A[w] for w in common]), np.array([B[w] for w in common])
        d = np.array([R.obs[q][2] for q in ka])
        for x, y, bit in ((alo, blo, 1), (ahi, bhi, 2)):
            x, y = x[ia], y[ib]
            with np.errstate(invalid='ignore'):
                bad = ~((x == y) | (np.abs(x - y) <= VTOL * np.maximum(1, np.abs(y)))) & ((d & bit) > 0)[None, :]
            for a, q in zip(*np.nonzero(bad)):
                if len(out) < limit:
                    out.append(f'{show(R.obs[ka[q]][0])} is {x[a, q]:.6g} in {na}, {y[a, q]:.6g} in {nb} for {word_text(R, common[a])}')
    st['last'] = (A, asol)
    return out[:limit], st


def mine(tags, pid, eff, attribute):
    if attribute is not None:
        return bool(set(tags) & set(attribute))
    if pid in tags:
        return True
    return eff and bool({'EFF', 'PEN'} & set(tags))
