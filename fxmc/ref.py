"""Reference model: which schedules does the documentation allow, and which values must be reported for them?

A specification (see build.py) plus a grid of values per flow (per investment size, per free initial charge state, per
excess) defines a finite transition system: one transition per time step and combination of grid values.  `Ref` enumerates
all its accepted words (`explore`), or lists for one word every property it violates (`evaluate`).
Written from the property statements, independent of flixOpt's code.
"""
import itertools

EPS = 1e-5
BIG = 1e7
TOL = 2e-6


def series(v, n_or_idx):
    """value -> list over the given indices"""
    idx = range(n_or_idx) if isinstance(n_or_idx, int) else n_or_idx
    if isinstance(v, dict):
        (k, x), = v.items()
        if k in ('a', 'i', 'l', 'ts', 'n', 'f32', 'tl'):
            v = x
        elif k == 'tg':
            v = x[0]
    if isinstance(v, (list, tuple)):
        return [float(v[i]) for i in idx]
    return [float(v)] * len(list(idx))


def scalar(v):
    if isinstance(v, dict):
        (k, v), = v.items()
    return float(v)


def close(a, b, scale=1.0):
    return abs(a - b) <= TOL * max(1.0, scale)


class Unit:
    """something with an on/off state"""

    def __init__(self, key, flows, oo, ref, prev):
        self.key, self.flows, self.oo = key, flows, oo
        T, idx = ref.T, ref.idx
        g = lambda k: None if oo.get(k) is None else series(oo[k], idx)
        self.con_min, self.con_max = g('con_min'), g('con_max')
        self.coff_min, self.coff_max = g('coff_min'), g('coff_max')
        self.on_min, self.on_max, self.sw_max = oo.get('on_min'), oo.get('on_max'), oo.get('sw_max')
        self.switch_eff = ref.effvals(oo.get('switch_eff'), True)
        self.run_eff = ref.effvals(oo.get('run_eff'), True)
        # previous states, oldest first
        prev = [p for p in prev if p is not None]
        if not prev:
            states = [0]
        else:
            n = max(len(p) for p in prev)
            states = [int(any(abs(p[i if len(p) > 1 or n == 1 else 0]) > EPS for p in prev)) for i in range(n)]
        self.on0 = states[-1]
        run = 0
        while run < len(states) and states[-1 - run] == self.on0:
            run += 1
        pdt = ref.prev_dt
        if isinstance(pdt, list):
            hours = sum(pdt[len(pdt) - run:])
        else:
            hours = run * pdt
        self.dur0_on = hours if self.on0 else 0.0
        self.dur0_off = 0.0 if self.on0 else hours


class Ref:
    def __init__(self, spec):
        self.spec = spec
        dt = [float(x) for x in spec['dt']]
        t = [0.0]
        for x in dt:
            t.append(t[-1] + x)
        self.idx = list(spec['window']) if spec.get('window') is not None else list(range(len(dt)))
        ts = [t[i] for i in self.idx] + [t[self.idx[-1] + 1]]
        self.dt = [ts[i + 1] - ts[i] for i in range(len(self.idx))]
        self.T = len(self.idx)
        pd = spec.get('prev_dt')
        if pd is None:
            pd = dt[0]
        elif isinstance(pd, dict):
            (_, pd), = pd.items()
            pd = [float(x) for x in pd]
        self.prev_dt = pd if isinstance(pd, list) else float(pd)
        T = self.T
        # effects
        self.effects = [e['label'] for e in spec.get('effects', [])]
        self.eidx = {l: i for i, l in enumerate(self.effects)}
        self.std = next((e['label'] for e in spec.get('effects', []) if e.get('std')), None)
        self.objective = next((e['label'] for e in spec.get('effects', []) if e.get('obj')), None)
        self.op_share, self.inv_share, self.elim = [], [], []
        for e in spec.get('effects', []):
            self.op_share.append([(self.eidx[l], series(v, self.idx)) for l, v in e.get('op_share') or []])
            self.inv_share.append([(self.eidx[l], scalar(v)) for l, v in e.get('inv_share') or []])
            lim = {k: scalar(e[k]) for k in ('op_min', 'op_max', 'inv_min', 'inv_max', 'tot_min', 'tot_max')
                   if e.get(k) is not None}
            for k in ('oph_min', 'oph_max'):
                if e.get(k) is not None:
                    lim[k] = series(e[k], self.idx)
            self.elim.append(lim)
        # buses
        self.buses = list(spec['buses'])
        self.pen = [None if d.get('penalty') is None else series(d['penalty'], self.idx)
                    for d in spec['buses'].values()]
        bidx = {b: i for i, b in enumerate(self.buses)}
        # flows
        self.flows, self.units = [], []
        self.fidx = {}
        self.sizes = []      # (key, params, owner flow index or ('storage', i))
        self.comps = []
        grid = spec.get('grid', {})
        sgrid = spec.get('sizes', {})
        for c in spec['comps']:
            forced = set()
            L = c['label']
            fl = [(f, 'in') for f in c.get('ins', [])] + [(f, 'out') for f in c.get('outs', [])]
            names = [f['label'] for f, _ in fl]
            prevent = []
            if c['kind'] == 'Component' and c.get('prevent'):
                prevent = list(c['prevent'])
            if c['kind'] == 'SourceAndSink' and c.get('prevent', True):
                prevent = names
            if c['kind'] == 'Storage' and c.get('prevent', True):
                prevent = names
            if c['kind'] == 'Transmission' and len(c['ins']) > 1 and c.get('prevent', True):
                prevent = [f['label'] for f in c['ins']]
            forced |= set(prevent)
            if c.get('onoff') is not None:
                forced |= set(names)
            if c['kind'] == 'Transmission' and c.get('abs') is not None and any(x != 0 for x in series(c['abs'], self.idx)):
                forced |= set(names)
            inv1 = None
            if c['kind'] == 'Transmission' and len(c['ins']) > 1 and isinstance(c['ins'][0].get('size'), dict):
                inv1 = c['ins'][0]['size']['inv']
            myfl = []
            for f, d in fl:
                i = len(self.flows)
                size = f.get('size')
                inv = size['inv'] if isinstance(size, dict) else None
                coupled = inv1 is not None and f is c['ins'][1]
                r = dict(key=(L, f['label']), bus=bidx[f['bus']], dir=d, inv=None, size=None,
                         eff=self.effvals(f.get('eff'), True),
                         rmin=series(f['rmin'] if f.get('rmin') is not None else 0, self.idx),
                         rmax=series(f['rmax'] if f.get('rmax') is not None else 1, self.idx),
                         fixed=None if f.get('fixed') is None else series(f['fixed'], self.idx),
                         fh_min=f.get('fh_min'), fh_max=f.get('fh_max'), lf_min=f.get('lf_min'), lf_max=f.get('lf_max'),
                         grid=[float(x) for x in grid.get(f'{L}.{f["label"]}', [0.0])])
                prev = f.get('prev')
                if prev is None:
                    r['prev'] = None
                elif isinstance(prev, dict):
                    (_, p), = prev.items()
                    r['prev'] = [float(x) for x in (p if isinstance(p, list) else [p])]
                else:
                    r['prev'] = [float(prev)]
                if coupled:
                    r['sidx'] = next(k for k, s in enumerate(self.sizes) if s['key'] == (L, c['ins'][0]['label']))
                    r['coupled'] = True
                elif inv is not None:
                    r['sidx'] = len(self.sizes)
                    self.sizes.append(dict(key=(L, f['label']), inv=inv, grid=[float(x) for x in sgrid[f'{L}.{f["label"]}']]))
                else:
                    r['size'] = BIG if size is None else float(size)
                    r['sidx'] = None
                oo = f.get('onoff')
                if oo is None and f['label'] in forced:
                    oo = {}
                r['onoff'] = oo
                self.flows.append(r)
                self.fidx[r['key']] = i
                myfl.append(i)
                if oo is not None:
                    self.units.append(Unit((L, f['label']), [i], oo, self, [r['prev']]))
            cr = dict(kind=c['kind'], label=L, flows=myfl, prevent=[self.fidx[(L, n)] for n in prevent], onoff=c.get('onoff'))
            nin = len(c.get('ins', []))
            cr['ins'], cr['outs'] = myfl[:nin], myfl[nin:]
            if cr['onoff'] is not None:
                self.units.append(Unit((L,), myfl, c['onoff'], self, [self.flows[i]['prev'] for i in myfl]))
            self._kind(c, cr)
            self.comps.append(cr)
        for s in self.sizes:
            inv = s['inv']
            s['fix'] = self.effvals(inv.get('fix_eff'), False)
            s['spec'] = self.effvals(inv.get('spec_eff'), False)
            s['div'] = self.effvals(inv.get('div_eff'), False)
        self.storages = [c for c in self.comps if c['kind'] == 'Storage']
        # excess as letters
        self.exc = {}
        self.excgrid = []
        for b in self.buses:
            for d in ('in', 'out'):
                g = grid.get(f'{b}#{d}')
                if g is not None:
                    self.exc[(bidx[b], d)] = len(self.flows) + len(self.excgrid)
                    self.excgrid.append((b, d, [float(x) for x in g]))
        self.inflows = [[] for _ in self.buses]
        self.outflows = [[] for _ in self.buses]
        for i, f in enumerate(self.flows):
            (self.inflows if f['dir'] == 'out' else self.outflows)[f['bus']].append(i)
        self._choices()
        self._obs()

    # ------------------------------------------------------------------ helpers
    def effvals(self, v, over_time):
        """-> list of (effect index, series | scalar)"""
        if v is None:
            return []
        conv = (lambda x: series(x, self.idx)) if over_time else scalar
        if isinstance(v, dict) and 'eff' in v:
            return [(self.eidx[l if l is not None else self.std], conv(x)) for l, x in v['eff']]
        return [(self.eidx[self.std], conv(v))]

    def _kind(self, c, r):
        idx = self.idx
        k = c['kind']
        L = c['label']
        F = {f['label']: self.fidx[(L, f['label'])] for f in c.get('ins', []) + c.get('outs', [])}
        eqs = None
        one = [1.0] * self.T
        if k == 'LinearConverter' and c.get('factors') is not None:
            eqs = [[(F[l], series(x, idx)) for l, x in eq] for eq in c['factors']]
        if k in ('Boiler', 'Power2Heat'):
            eqs = [[(r['ins'][0], series(c['eta'], idx)), (r['outs'][0], one)]]
        if k == 'HeatPump':
            eqs = [[(r['ins'][0], series(c['cop'], idx)), (r['outs'][0], one)]]
        if k == 'CoolingTower':   # P_el = demand * Q_th, both inputs
            r['rel'] = [([(r['ins'][0], one)], [(r['ins'][1], series(c['sed'], idx))])]
        if k == 'CHP':            # P_el = eta_el * fuel, Q_th = eta_th * fuel
            eqs = [[(r['ins'][0], series(c['eta_el'], idx)), (r['outs'][0], one)],
                   [(r['ins'][0], series(c['eta_th'], idx)), (r['outs'][1], one)]]
        if k == 'HeatPumpWithSource':   # Q_th = COP * P_el,  Q_ab = Q_th - P_el
            eqs = [[(r['ins'][0], series(c['cop'], idx)), (r['outs'][0], one)]]
            r['rel'] = [([(r['ins'][1], one), (r['ins'][0], one)], [(r['outs'][0], one)])]
        if eqs is not None:
            r.setdefault('rel', [])
            for eq in eqs:
                r['rel'].append(([(i, x) for i, x in eq if i in r['ins']], [(i, x) for i, x in eq if i in r['outs']]))
        if k == 'LinearConverter' and c.get('segs') is not None:
            segs = {F[l]: sg for l, sg in c['segs']}
            n = len(next(iter(segs.values())))
            r['segs'] = [[(i, series(sg[j][0], idx), series(sg[j][1], idx)) for i, sg in segs.items()] for j in range(n)]
        if k == 'Transmission':
            r['rel_loss'] = series(c['rel'] if c.get('rel') is not None else 0, idx)
            r['abs_loss'] = series(c['abs'] if c.get('abs') is not None else 0, idx)
        if k == 'Storage':
            T1 = range(self.T + 1)
            cap = c['cap']
            if isinstance(cap, dict):
                r['sidx'] = len(self.sizes)
                self.sizes.append(dict(key=(L,), inv=cap['inv'], grid=[float(x) for x in self.spec['sizes'][L]]))
            else:
                r['sidx'], r['cap'] = None, float(cap)
            r['rmin'] = series(c['rmin'] if c.get('rmin') is not None else 0, T1)
            r['rmax'] = series(c['rmax'] if c.get('rmax') is not None else 1, T1)
            r['init'] = c.get('init', 0)
            r['fmin'], r['fmax'] = c.get('fmin'), c.get('fmax')
            r['eta_c'] = series(c['eta_c'] if c.get('eta_c') is not None else 1, idx)
            r['eta_d'] = series(c['eta_d'] if c.get('eta_d') is not None else 1, idx)
            r['loss'] = series(c['loss'] if c.get('loss') is not None else 0, idx)
            if r['init'] is None or r['init'] == 'lastValueOfSim':
                r['c0grid'] = [float(x) for x in self.spec['c0'][L]]
            else:
                r['c0grid'] = None

    def _fpath(self, i):
        a, b = self.flows[i]['key']
        return ('Components', a, b)

    def _choices(self):
        """order of a word: sizes, free initial charge states, then all letters step by step"""
        self.choices = []
        for s in self.sizes:
            self.choices.append(((('Components',) + s['key'] + ('Investment', 'size'), 0), s['grid']))
        for c in self.storages:
            if c['c0grid'] is not None:
                self.choices.append(((('Components', c['label'], 'charge_state'), 0), c['c0grid']))
        self.head = len(self.choices)
        self.head_grids = [g for _, g in self.choices]
        self.letter_grids = [f['grid'] for f in self.flows] + [g for _, _, g in self.excgrid]
        for t in range(self.T):
            for i, f in enumerate(self.flows):
                self.choices.append(((self._fpath(i) + ('flow_rate',), t), f['grid']))
            for b, d, g in self.excgrid:
                self.choices.append(((('Buses', b, 'excess_input' if d == 'in' else 'excess_output'), t), g))

    def _obs(self):
        """observables: (path, t), property tags, direction (1 min, 2 max, 3 both), required"""
        o = []
        T = self.T
        for i, f in enumerate(self.flows):
            o.append(((self._fpath(i) + ('sumFlowHours',), 0), ('C03',), 3, True))
        for u in self.units:
            p = ('Components',) + u.key + ('OnOff',)
            for t in range(T):
                o.append(((p + ('on',), t), ('C04',), 3, True))
            o.append(((p + ('totalOnHours',), 0), ('C04',), 3, True))
            for t in range(T):
                o.append(((p + ('off',), t), ('C04',), 3, False))
            con = u.con_min is not None or u.con_max is not None
            coff = u.coff_min is not None or u.coff_max is not None
            for t in range(T):
                o.append(((p + ('consecutiveOnHours',), t), ('C05',), 3, con))
                o.append(((p + ('consecutiveOffHours',), t), ('C05',), 3, coff))
            sw = u.sw_max is not None or bool(u.switch_eff) or bool(u.oo.get('force'))
            for t in range(T):
                o.append(((p + ('switchOn',), t), ('C06',), 3, sw))
                o.append(((p + ('switchOff',), t), ('C06',), 3, sw))
            o.append(((p + ('nrSwitchOn',), 0), ('C06',), 3, sw))
        for s in self.sizes:
            o.append(((('Components',) + s['key'] + ('Investment', 'isInvested'), 0), ('C08',), 3,
                      s['inv'].get('optional', True)))
        for i, f in enumerate(self.flows):
            if f.get('coupled'):
                o.append(((self._fpath(i) + ('Investment', 'size'), 0), ('C16',), 3, True))
        for c in self.storages:
            for t in range(T + 1):
                o.append(((('Components', c['label'], 'charge_state'), t), ('C13',), 3, True))
            for t in range(T):
                o.append(((('Components', c['label'], 'netto_discharge'), t), ('C13',), 3, True))
        for bi, b in enumerate(self.buses):
            if self.pen[bi] is not None:
                for d, nm in (('in', 'excess_input'), ('out', 'excess_output')):
                    if (bi, d) not in self.exc:
                        for t in range(T):
                            o.append(((('Buses', b, nm), t), ('C01',), 1, True))
        exact = all(p is None or ((i, 'in') in self.exc and (i, 'out') in self.exc) for i, p in enumerate(self.pen))
        self.exact_excess = exact
        for e in self.effects:
            for t in range(T):
                o.append(((('Effects', e, 'operation', 'operation_sum_TS'), t), ('EFF',), 3, True))
            o.append(((('Effects', e, 'operation', 'operation_sum'), 0), ('EFF',), 3, True))
            o.append(((('Effects', e, 'invest', 'invest_sum'), 0), ('EFF', 'C09'), 3, True))
            o.append(((('Effects', e, 'all', 'all_sum'), 0), ('EFF',), 3, True))
        o.append(((('Effects', 'penalty', 'penalty_sum'), 0), ('C01', 'PEN'), 3 if exact else 1, True))
        o.append(((('Objective',), 0), ('C12',), 3 if exact else 1, True))
        self.obs = o

    # ------------------------------------------------------------------ semantics
    def size_tags(self, head):
        tags = set()
        for s, v in zip(self.sizes, head):
            inv = s['inv']
            opt = inv.get('optional', True)
            if inv.get('fixed') is not None:
                ok = close(v, inv['fixed']) or (opt and v == 0)
            else:
                mn = inv.get('min') or 0
                mx = inv['max'] if inv.get('max') is not None else BIG
                if opt:
                    ok = v == 0 or (max(EPS, mn) - TOL <= v <= mx + TOL)
                else:
                    ok = mn - TOL <= v <= mx + TOL
            if not ok:
                tags.add('C08')
            elif inv.get('seg') is not None and not (opt and v == 0) and not self.seg_options(s, v):
                tags.add('C09')
        for i, f in enumerate(self.flows):    # second direction of a transmission: same size, at most the maximum
            pass
        k = len(self.sizes)
        for c in self.storages:
            if c['c0grid'] is not None:
                c0 = head[k]
                k += 1
            else:
                c0 = float(c['init'])
            cap = head[c['sidx']] if c['sidx'] is not None else c['cap']
            if not (c['rmin'][0] * cap - TOL <= c0 <= c['rmax'][0] * cap + TOL):
                tags |= {'C13'} | ({'C08'} if c['sidx'] is not None else set())
        return tags

    def seg_options(self, s, v):
        """possible effect values of the piecewise linear invest effects at size v"""
        pts, effs = s['inv']['seg']
        out = []
        for k, (a, b) in enumerate(pts):
            if a == b:
                if close(a, v):
                    out.append([(self.eidx[l], tuple(sorted(p[k]))) for l, p in effs])
                continue
            lam = (v - a) / (b - a)
            if -TOL <= lam <= 1 + TOL:
                out.append([(self.eidx[l], (p[k][0] + lam * (p[k][1] - p[k][0]),) * 2) for l, p in effs])
        return out

    def invest_options(self, head):
        """list of dict effect -> (lo, hi) of the direct invest contributions"""
        n = len(self.effects)
        base = [0.0] * n
        opts = [[[0.0, 0.0] for _ in range(n)]]
        for s, v in zip(self.sizes, head):
            opt = s['inv'].get('optional', True)
            made = 1 if (not opt or v > 0) else 0
            for e, x in s['fix']:
                base[e] += x * made
            for e, x in s['spec']:
                base[e] += x * v
            if opt:
                for e, x in s['div']:
                    base[e] += x * (1 - made)
            if s['inv'].get('seg') is not None and made:
                new = []
                for o in opts:
                    for so in self.seg_options(s, v):
                        q = [list(z) for z in o]
                        for e, (lo, hi) in so:
                            q[e][0] += lo
                            q[e][1] += hi
                        new.append(q)
                opts = new
        res = []
        for o in opts:
            tot = [[o[e][0] + base[e], o[e][1] + base[e]] for e in range(n)]
            for e in reversed(range(n)):
                for tgt, fac in self.inv_share[e]:
                    a, b = tot[e][0] * fac, tot[e][1] * fac
                    tot[tgt][0] += min(a, b)
                    tot[tgt][1] += max(a, b)
            res.append(tot)
        return res

    def flow_size(self, f, head):
        return f['size'] if f['sidx'] is None else head[f['sidx']]

    def step_tags(self, t, x, head):
        """violations of one step that depend on this step only"""
        tags = set()
        for i, f in enumerate(self.flows):
            s = self.flow_size(f, head)
            v = x[i]
            tol = TOL * max(1.0, abs(s) * 1e-6)
            inv = f['sidx'] is not None
            if f['fixed'] is not None:
                ok = abs(v - f['fixed'][t] * s) <= tol
                if not ok and f['onoff'] is not None and not inv:
                    ok = v == 0
                if ok and f['onoff'] is not None and v != 0 and v < EPS - 1e-9:
                    ok = False
            else:
                lo, hi = f['rmin'][t] * s, f['rmax'][t] * s
                ok = lo - tol <= v <= hi + tol
                if f['onoff'] is not None:
                    ok = v == 0 or (ok and v >= EPS - 1e-9)
            if not ok:
                tags.add('C02')
                if inv:
                    tags.add('C08')
        for bi in range(len(self.buses)):
            imb = sum(x[i] for i in self.inflows[bi]) - sum(x[i] for i in self.outflows[bi])
            if self.pen[bi] is None:
                if not close(imb, 0):
                    tags.add('C01')
            else:
                li, lo_ = self.exc.get((bi, 'in')), self.exc.get((bi, 'out'))
                if li is not None and x[li] < -TOL or lo_ is not None and x[lo_] < -TOL:
                    tags.add('C01')
                if li is not None and lo_ is not None:
                    if not close(imb + x[li] - x[lo_], 0):
                        tags.add('C01')
                elif li is not None:
                    if imb + x[li] < -TOL:
                        tags.add('C01')
                elif lo_ is not None:
                    if imb - x[lo_] > TOL:
                        tags.add('C01')
        for c in self.comps:
            if c['prevent'] and sum(1 for i in c['prevent'] if x[i] != 0) > 1:
                tags.add('C07')
                if c['kind'] == 'Storage':
                    tags.add('C13')
                if c['kind'] == 'Transmission':
                    tags.add('C16')
            for l, r in c.get('rel', ()):
                if not close(sum(x[i] * a[t] for i, a in l), sum(x[i] * a[t] for i, a in r)):
                    tags.add('C14')
            if 'segs' in c:
                if c['onoff'] is not None and all(x[i] == 0 for i in c['flows']):
                    pass
                elif not any(self.in_segment(sg, t, x) for sg in c['segs']):
                    tags.add('C15')
            if c['kind'] == 'Transmission':
                for a, b in zip(c['ins'], c['outs']):
                    out = x[a] * (1 - c['rel_loss'][t]) - (c['abs_loss'][t] if x[a] != 0 else 0)
                    if not close(out, x[b]):
                        tags.add('C16')
        return tags

    @staticmethod
    def in_segment(sg, t, x):
        lo, hi = 0.0, 1.0
        for i, a, b in sg:
            a, b = a[t], b[t]
            if abs(b - a) < 1e-12:
                if not close(x[i], a):
                    return False
                continue
            l = (x[i] - a) / (b - a)
            d = TOL / abs(b - a)
            lo, hi = max(lo, l - d), min(hi, l + d)
        return lo <= hi

    def unit_start(self):
        return tuple((u.on0, u.dur0_on, u.dur0_off) for u in self.units)

    def unit_step(self, t, state, x, tags):
        new = []
        dt = self.dt[t]
        for u, (on0, don, doff) in zip(self.units, state):
            on = int(any(x[i] != 0 for i in u.flows))
            if on:
                n = (1, don + dt, 0.0)
                if u.con_max is not None and n[1] > u.con_max[t] + TOL:
                    tags.add('C05')
                if not on0 and u.coff_min is not None:
                    m = u.coff_min[t - 1] if t else u.coff_min[0]
                    if doff < m - TOL and (t or doff > 0):
                        tags.add('C05')
            else:
                n = (0, 0.0, doff + dt)
                if u.coff_max is not None and n[2] > u.coff_max[t] + TOL:
                    tags.add('C05')
                if on0 and u.con_min is not None:
                    m = u.con_min[t - 1] if t else u.con_min[0]
                    if don < m - TOL and (t or don > 0):
                        tags.add('C05')
            new.append(n)
        return tuple(new)

    def storage_step(self, t, cs, x, head, tags):
        new = []
        dt = self.dt[t]
        for c, q in zip(self.storages, cs):
            ch, dis = x[c['ins'][0]], x[c['outs'][0]]
            q = q * (1 - c['loss'][t] * dt) + c['eta_c'][t] * ch * dt - dis * dt / c['eta_d'][t]
            cap = head[c['sidx']] if c['sidx'] is not None else c['cap']
            if not (c['rmin'][t + 1] * cap - TOL <= q <= c['rmax'][t + 1] * cap + TOL):
                tags.add('C13')
                if c['sidx'] is not None:
                    tags.add('C08')
            new.append(q)
        return tuple(new)

    def storage_start(self, head):
        k = len(self.sizes)
        out = []
        for c in self.storages:
            if c['c0grid'] is not None:
                out.append(head[k])
                k += 1
            else:
                out.append(float(c['init']))
        return tuple(out)

    def finish(self, head, xs, ustates, cstates):
        """totals: (tags, lo vector, hi vector of the observables)"""
        T, dt = self.T, self.dt
        tags = set()
        lo, hi = [], []

        def put(v, w=None):
            lo.append(v)
            hi.append(v if w is None else w)

        total = sum(dt)
        nE = len(self.effects)
        op = [[0.0] * T for _ in range(nE)]
        for i, f in enumerate(self.flows):
            fh = sum(dt[t] * xs[t][i] for t in range(T))
            put(fh)
            s = self.flow_size(f, head)
            if f['fh_min'] is not None and fh < f['fh_min'] - TOL or f['fh_max'] is not None and fh > f['fh_max'] + TOL:
                tags.add('C03')
            sc = TOL * max(1.0, abs(s) * 1e-6)
            if f['lf_min'] is not None and fh < f['lf_min'] * s * total - sc or \
                    f['lf_max'] is not None and fh > f['lf_max'] * s * total + sc:
                tags.add('C03')
            for e, v in f['eff']:
                for t in range(T):
                    op[e][t] += v[t] * xs[t][i] * dt[t]
        for k, u in enumerate(self.units):
            on = [ustates[t + 1][k][0] for t in range(T)]
            for v in on:
                put(float(v))
            h = sum(dt[t] * on[t] for t in range(T))
            put(h)
            if u.on_min is not None and h < u.on_min - TOL or u.on_max is not None and h > u.on_max + TOL:
                tags.add('C04')
            for v in on:
                put(1.0 - v)
            for t in range(T):
                put(ustates[t + 1][k][1])
                put(ustates[t + 1][k][2])
            n = 0
            for t in range(T):
                b = ustates[t][k][0]
                son, soff = int(on[t] and not b), int(b and not on[t])
                put(float(son))
                put(float(soff))
                n += son
                for e, v in u.switch_eff:
                    op[e][t] += v[t] * son
                for e, v in u.run_eff:
                    op[e][t] += v[t] * on[t] * dt[t]
            put(float(n))
            if u.sw_max is not None and n > u.sw_max + TOL:
                tags.add('C06')
        for s, v in zip(self.sizes, head):
            put(1.0 if v != 0 else 0.0)
        for f in self.flows:
            if f.get('coupled'):
                put(self.flow_size(f, head))
        for k, c in enumerate(self.storages):
            for t in range(T + 1):
                put(cstates[t][k])
            for t in range(T):
                put(xs[t][c['outs'][0]] - xs[t][c['ins'][0]])
            end = cstates[T][k]
            if c['fmin'] is not None and end < c['fmin'] - TOL or c['fmax'] is not None and end > c['fmax'] + TOL:
                tags.add('C13')
            if c['init'] == 'lastValueOfSim' and not close(end, cstates[0][k]):
                tags.add('C13')
        pen = 0.0
        for bi in range(len(self.buses)):
            if self.pen[bi] is None:
                continue
            imb = [sum(xs[t][i] for i in self.inflows[bi]) - sum(xs[t][i] for i in self.outflows[bi]) for t in range(T)]
            li, lo_ = self.exc.get((bi, 'in')), self.exc.get((bi, 'out'))
            ein = [xs[t][li] if li is not None else (max(0.0, -imb[t]) if lo_ is None else xs[t][lo_] - imb[t])
                   for t in range(T)]
            eout = [xs[t][lo_] if lo_ is not None else (max(0.0, imb[t]) if li is None else xs[t][li] + imb[t])
                    for t in range(T)]
            if li is None:
                for v in ein:
                    put(v)
            if lo_ is None:
                for v in eout:
                    put(v)
            pen += sum(dt[t] * self.pen[bi][t] * (ein[t] + eout[t]) for t in range(T))
        for e in reversed(range(nE)):
            for tgt, fac in self.op_share[e]:
                for t in range(T):
                    op[tgt][t] += op[e][t] * fac[t]
        opsum = [sum(op[e]) for e in range(nE)]
        opts = []
        why = set()
        for tot in self.invest_options(head):
            bad = False
            for e in range(nE):
                L = self.elim[e]
                if 'inv_min' in L and tot[e][1] < L['inv_min'] - TOL or 'inv_max' in L and tot[e][0] > L['inv_max'] + TOL:
                    bad = True
                if 'tot_min' in L and opsum[e] + tot[e][1] < L['tot_min'] - TOL or \
                        'tot_max' in L and opsum[e] + tot[e][0] > L['tot_max'] + TOL:
                    bad = True
            if bad:
                why.add('C11')
            else:
                opts.append(tot)
        if not opts:
            tags |= why or {'C09'}
            opts = [[[0.0, 0.0] for _ in range(nE)]]
        for e in range(nE):
            L = self.elim[e]
            if 'op_min' in L and opsum[e] < L['op_min'] - TOL or 'op_max' in L and opsum[e] > L['op_max'] + TOL:
                tags.add('C11')
            for t in range(T):
                if 'oph_min' in L and op[e][t] < L['oph_min'][t] * dt[t] - TOL or \
                        'oph_max' in L and op[e][t] > L['oph_max'][t] * dt[t] + TOL:
                    tags.add('C11')
        obj_inv = None
        for e in range(nE):
            for t in range(T):
                put(op[e][t])
            put(opsum[e])
            a, b = min(o[e][0] for o in opts), max(o[e][1] for o in opts)
            put(a, b)
            put(opsum[e] + a, opsum[e] + b)
            if self.effects[e] == self.objective:
                obj_inv = (opsum[e] + a, opsum[e] + b)
        put(pen)
        put(pen + obj_inv[0], pen + obj_inv[1])
        return tags, lo, hi

    # ------------------------------------------------------------------ exploration
    def decode(self, word):
        head = tuple(g[k] for g, k in zip(self.head_grids, word))
        n = len(self.letter_grids)
        xs = []
        p = self.head
        for t in range(self.T):
            xs.append(tuple(self.letter_grids[i][word[p + i]] for i in range(n)))
            p += n
        return head, xs

    def evaluate(self, word):
        return self.judge(*self.decode(word))

    def judge(self, head, xs):
        tags = set(self.size_tags(head))
        us = [self.unit_start()]
        cs = [self.storage_start(head)]
        for t in range(self.T):
            tags |= self.step_tags(t, xs[t], head)
            us.append(self.unit_step(t, us[-1], xs[t], tags))
            cs.append(self.storage_step(t, cs[-1], xs[t], head, tags))
        ft, lo, hi = self.finish(head, xs, us, cs)
        return tags | ft, lo, hi

    def explore(self, limit=400_000):
        """all accepted words -> dict word -> (lo, hi); statistics in self.stats"""
        out = {}
        states, trans = set(), 0
        n = len(self.letter_grids)
        ranges = [range(len(g)) for g in self.letter_grids]
        for hw in itertools.product(*[range(len(g)) for g in self.head_grids]):
            head = tuple(g[k] for g, k in zip(self.head_grids, hw))
            if self.size_tags(head):
                continue
            per = []
            for t in range(self.T):
                ok = []
                if t and self._same_step(t):
                    per.append(per[-1])
                    continue
                for lw in self._letters(t, head):
                    x = tuple(self.letter_grids[i][lw[i]] for i in range(n))
                    if not self.step_tags(t, x, head):
                        ok.append((lw, x))
                per.append(ok)
            stack = [(0, (), (), (self.unit_start(),), (self.storage_start(head),))]
            while stack:
                t, w, xs, us, cs = stack.pop()
                states.add((hw, t, us[-1], cs[-1]))
                if t == self.T:
                    tags, lo, hi = self.finish(head, xs, us, cs)
                    if not tags:
                        out[hw + w] = (lo, hi)
                        if len(out) > limit:
                            raise RuntimeError('too many words in reference exploration')
                    continue
                for lw, x in reversed(per[t]):
                    trans += 1
                    bad = set()
                    u = self.unit_step(t, us[-1], x, bad)
                    if bad:
                        continue
                    c = self.storage_step(t, cs[-1], x, head, bad)
                    if bad:
                        continue
                    stack.append((t + 1, w + lw, xs + (x,), us + (u,), cs + (c,)))
        self.stats = dict(states=len(states), transitions=trans, words=len(out))
        return out

    def _same_step(self, t):
        return False

    def _letters(self, t, head):
        """letters of a step; flows outside of their own limits are dropped first (they violate step_tags anyway)"""
        n = len(self.flows)
        pre = []
        for i, g in enumerate(self.letter_grids):
            if i < n:
                keep = [k for k, v in enumerate(g) if not self._flow_bad(t, i, v, head)]
            else:
                keep = list(range(len(g)))
            pre.append(keep)
        return itertools.product(*pre)

    def _flow_bad(self, t, i, v, head):
        f = self.flows[i]
        s = self.flow_size(f, head)
        tol = TOL * max(1.0, abs(s) * 1e-6)
        if f['fixed'] is not None:
            return not (abs(v - f['fixed'][t] * s) <= tol or (f['onoff'] is not None and f['sidx'] is None and v == 0))
        if f['onoff'] is not None and v == 0:
            return False
        return not (f['rmin'][t] * s - tol <= v <= f['rmax'][t] * s + tol)
