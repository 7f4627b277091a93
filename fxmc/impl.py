"""The implementation as a transition system.

`Sys` is what a solver is handed by the real code (captured through the public Solver interface) together with the map
from the public results() tree to the variables.  `Sys.words` enumerates exhaustively every assignment of grid values
to the chosen observables which the handed-over system admits (kernel.c).  `feed` plays a chosen answer back through
the real result path.
"""
import ctypes
import math
import os
import shutil
import subprocess
import tempfile

import numpy as np

from . import env

_lib = None


def lib():
    global _lib
    if _lib is None:
        src = os.path.join(os.path.dirname(__file__), 'kernel.c')
        so = os.path.join(env.ROOT, 'build', 'kernel.so')
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            compile_kernel()
        if not os.path.exists(so):
            so = os.path.join(env.scratch(), 'kernel.so')
            compile_kernel(so)
        _lib = ctypes.CDLL(so)
        _lib.fx_run.restype = ctypes.c_void_p
    return _lib


def compile_kernel(so=None):
    src = os.path.join(os.path.dirname(__file__), 'kernel.c')
    so = so or os.path.join(env.ROOT, 'build', 'kernel.so')
    try:
        os.makedirs(os.path.dirname(so), exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix='.so', dir=os.path.dirname(so))
        os.close(fd)
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src, '-lm'], check=True)
        os.replace(tmp, so)
    except OSError:
        pass


class ModelError(Exception):
    """the model that was built is not one a solver can work with"""


class HarnessError(Exception):
    pass


def flat(tree, pre=()):
    """leaves of a results tree: path -> value"""
    out = {}
    for k, v in tree.items():
        if isinstance(v, dict):
            out.update(flat(v, pre + (k,)))
        else:
            out[pre + (k,)] = v
    return out


def numeric(tree):
    out = {}
    for p, v in flat(tree).items():
        if p[0] in ('Time',):
            continue
        try:
            out[p] = np.atleast_1d(np.asarray(v, dtype=float))
        except (TypeError, ValueError):
            pass
    return out


def make_solver(fn):
    import flixOpt as fx

    class Answer(fx.solvers.Solver):
        """a solver whose answer is chosen by the explorer"""

        def __init__(self):
            super().__init__(0, False, None)

        def solve(self, modeling_language):
            fn(modeling_language.model)
            self.objective = 0.0
            self.best_bound = 0.0
            self.termination_message = 'explored'
            self.log = 'none'

    return Answer()


class Sys:
    """Linear system captured from a modelled FullCalculation / AggregatedCalculation (or any object with
    solve(solver) and results())."""

    def __init__(self, calc, map_results=True):
        self.calc = calc
        self._first = True
        if map_results:
            self._map()
        else:
            calc.solve(make_solver(self._extract))

    # ---- capture
    def _extract(self, m):
        import pyomo.environ as pyo
        from pyomo.repn import generate_standard_repn
        self.pv = list(m.component_data_objects(pyo.Var))
        self.n0 = len(self.pv)
        idx = {id(v): i for i, v in enumerate(self.pv)}
        fixed = []
        lb, ub, isint = [], [], []
        for v in self.pv:
            l, u = v.bounds
            l = -np.inf if l is None else float(l)
            u = np.inf if u is None else float(u)
            if v.fixed:
                fixed.append(v)
                l = u = float(v.value)
                v.unfix()
            lb.append(l)
            ub.append(u)
            isint.append(not v.is_continuous())
        rows = []
        for c in m.component_data_objects(pyo.Constraint, active=True):
            r = generate_standard_repn(c.body, compute_values=True)
            if not r.is_linear():
                raise HarnessError('nonlinear constraint ' + c.name)
            row = {}
            for a, v in zip(r.linear_coefs, r.linear_vars):
                j = idx[id(v)]
                row[j] = row.get(j, 0.0) + float(a)
            lo = -np.inf if c.lower is None else float(pyo.value(c.lower)) - float(r.constant)
            hi = np.inf if c.upper is None else float(pyo.value(c.upper)) - float(r.constant)
            rows.append((row, lo, hi))
        objs = list(m.component_data_objects(pyo.Objective, active=True))
        self.sense = None
        if objs:
            o = objs[0]
            r = generate_standard_repn(o.expr, compute_values=True)
            row = {}
            for a, v in zip(r.linear_coefs, r.linear_vars):
                j = idx[id(v)]
                row[j] = row.get(j, 0.0) + float(a)
            self.sense = 'min' if o.sense == pyo.minimize else 'max'
            self.obj_row, self.obj_const = row, float(r.constant)
            self.nobj = len(objs)
            obj = len(self.pv)
            lb.append(-np.inf)
            ub.append(np.inf)
            isint.append(False)
            rr = dict(row)
            rr[obj] = -1.0
            rows.append((rr, -float(r.constant), -float(r.constant)))
            self.obj = obj
        for v in fixed:
            v.fix()
        self.lb, self.ub, self.isint, self.rows = lb, ub, isint, rows

    def _set(self, values):
        def fn(m):
            if self._first:
                self._extract(m)
                self._first = False
            for i, v in enumerate(self.pv):
                v.set_value(values(i), skip_validation=True)
        return fn

    def tree(self, values):
        """raw results tree of the real code for the answer i -> values(i)"""
        self.calc.solve(make_solver(self._set(values)))
        return self.calc.results()

    def feed(self, x):
        return numeric(self.tree(lambda i: float(x[i])))

    def _map(self):
        zero = numeric(self.tree(lambda i: 0.0))
        nb = int(self.n0 + 1).bit_length()
        bits = []
        for k in range(nb):
            bits.append(numeric(self.tree(lambda i, k=k: float(((i + 1) >> k) & 1))))
        ones = numeric(self.tree(lambda i: 1.0))
        self.where = {}
        self.shape = {}
        pend = []
        for p, z in zero.items():
            if any(p not in b or b[p].shape != z.shape for b in bits):
                continue
            self.shape[p] = len(z)
            for t in range(len(z)):
                key = (p, t)
                ids, ok = 0, z[t] == 0
                allz = True
                for k in range(nb):
                    y = bits[k][p][t]
                    if y not in (0.0, 1.0):
                        ok = False
                    elif y == 1.0:
                        ids |= 1 << k
                    if y != z[t]:
                        allz = False
                if ok and 1 <= ids <= self.n0 and ones[p][t] == 1.0:
                    self.where[key] = ids - 1
                elif allz and ones[p][t] == z[t]:
                    self.where[key] = ('const', float(z[t]))
                else:
                    pend.append(key)
        if pend:
            self._affine(pend, zero)

    def _affine(self, pend, zero):
        """observables that are not a single variable: determine the affine map by unit answers"""
        keys = [k for k in pend]
        k = (('Objective',), 0)
        if k in keys and self.sense:      # the expression handed over as objective? (checked with pairwise different weights)
            x = [math.sqrt(i + 2.0) - 1.0 for i in range(self.n0)]
            y = [math.sqrt(3.0 * i + 1.5) for i in range(self.n0)]
            ok = abs(float(zero[k[0]][0]) - self.obj_const) <= 1e-12
            for v in (x, y):
                want = self.obj_const + sum(a * v[j] for j, a in self.obj_row.items())
                ok = ok and abs(float(numeric(self.tree(lambda i: v[i]))[k[0]][0]) - want) <= 1e-9 * max(1.0, abs(want))
            if ok:
                self.where[k] = self.obj
                keys.remove(k)
        if not keys:
            return
        co = {k: {} for k in keys}
        for j in range(self.n0):
            r = numeric(self.tree(lambda i, j=j: 1.0 if i == j else 0.0))
            for k in keys:
                d = r[k[0]][k[1]] - zero[k[0]][k[1]]
                if d != 0:
                    co[k][j] = float(d)
        for k in keys:
            c0 = float(zero[k[0]][k[1]])
            v = len(self.lb)
            self.lb.append(-np.inf)
            self.ub.append(np.inf)
            self.isint.append(False)
            row = dict(co[k])
            row[v] = -1.0
            self.rows.append((row, -c0, -c0))
            self.where[k] = v

    # ---- exploration
    def words(self, choices, obs, tol=1e-6, maxw=2_000_000, maxnodes=20_000_000, wantsol=False, anycomp=False,
              fix=None, extra_rows=()):
        """choices: list of (observable or variable index, [grid values]);  obs: list of (observable, dir 1|2|3).
        Returns (list of words (tuples of grid indices), olo, ohi, ncomp, sols, stats)."""
        L = lib()
        for key in [k for k, _ in choices] + list(fix or ()):
            self._var(key)                # may add a variable: before the arrays are made
        lb = np.array(self.lb, float)
        ub = np.array(self.ub, float)
        rows = list(self.rows) + list(extra_rows)
        if fix:
            for k, x in fix.items():
                j = self._var(k)
                lb[j] = max(lb[j], x - tol)
                ub[j] = min(ub[j], x + tol)
        n, m = len(lb), len(rows)
        if np.isnan(lb).any() or np.isnan(ub).any() or any(
                r[1] != r[1] or r[2] != r[2] or any(not math.isfinite(a) for a in r[0].values()) for r in rows):
            raise ModelError('a bound, a coefficient or a right hand side of the model is not a number')
        rp = np.zeros(m + 1, np.int32)
        ci, cv = [], []
        for r, (row, lo, hi) in enumerate(rows):
            for j, a in row.items():
                if a != 0:
                    ci.append(j)
                    cv.append(a)
            rp[r + 1] = len(ci)
        ci = np.array(ci + [0], np.int32)
        cv = np.array(cv + [0.0])
        rlo = np.array([r[1] for r in rows] + [0.0])
        rhi = np.array([r[2] for r in rows] + [0.0])
        isint = np.array(self.isint, np.uint8)
        chv, gp, gv = [], [0], []
        for key, grid in choices:
            j = self._var(key)
            chv.append(j)
            gv.extend(grid)
            gp.append(len(gv))
        chv = np.array(chv + [0], np.int32)
        gp = np.array(gp, np.int32)
        gv = np.array(gv + [0.0], float)
        ob, od, const = [], [], {}
        for q, (key, d) in enumerate(obs):
            w = self.where.get(key) if isinstance(key, tuple) else key
            if isinstance(w, tuple):
                const[q] = w[1]
                ob.append(-1)
            else:
                if w is None:
                    raise KeyError(key)
                ob.append(w)
            od.append(d)
        oba = np.array(ob + [0], np.int32)
        oda = np.array(od + [0], np.uint8)
        P = ctypes.c_void_p

        def p(a):
            return a.ctypes.data_as(P)

        keep = (lb, ub, isint, rp, ci, cv, rlo, rhi, chv, gp, gv, oba, oda)
        h = L.fx_run(ctypes.c_int(n), ctypes.c_int(m), p(lb), p(ub), p(isint), p(rp), p(ci), p(cv), p(rlo), p(rhi),
                     ctypes.c_int(len(choices)), p(chv), p(gp), p(gv), ctypes.c_int(len(obs)), p(oba), p(oda),
                     ctypes.c_double(tol), ctypes.c_long(maxw), ctypes.c_long(maxnodes), ctypes.c_int(int(wantsol)),
                     ctypes.c_int(int(anycomp)))
        h = P(h)
        st = np.zeros(7, np.int64)
        L.fx_stats(h, p(st))
        nw = int(st[0])
        W = np.zeros((nw, max(1, len(choices))), np.int32)
        olo = np.zeros((nw, max(1, len(obs))))
        ohi = np.zeros((nw, max(1, len(obs))))
        nc = np.zeros(max(1, nw), np.int32)
        sols = np.zeros((nw, n)) if wantsol else None
        if nw:
            W = np.zeros((nw, len(choices)), np.int32)
            olo = np.zeros((nw, len(obs)))
            ohi = np.zeros((nw, len(obs)))
            L.fx_get(h, p(W), p(olo), p(ohi), p(nc), p(sols) if wantsol else None)
        L.fx_free(h)
        del keep
        for q, c in const.items():
            olo[:, q] = ohi[:, q] = c
        stats = dict(words=nw, nodes=int(st[1]), leaves=int(st[2]), lps=int(st[3]), cuts=int(st[4]),
                     overflow=int(st[5]), propagations=int(st[6]))
        if stats['overflow']:
            raise HarnessError(f'exploration overflow {stats}')
        return W, olo, ohi, nc, sols, stats

    def _var(self, key):
        w = self.where.get(key) if isinstance(key, tuple) else key
        if w is None:
            raise KeyError(key)
        if isinstance(w, tuple):      # constant observable: a variable fixed to it
            v = len(self.lb)
            self.lb.append(w[1])
            self.ub.append(w[1])
            self.isint.append(False)
            self.where[key] = v
            return v
        return w
