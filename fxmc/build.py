"""Builds a flixOpt FlowSystem from a specification (a JSON-able dict, see DESIGN.md)."""
import numpy as np


def _fx():
    import flixOpt as fx
    return fx


NAMED = {}
TRACK = None       # list of (object handed to the code, copy of it) if recording


def keep(o):
    if TRACK is not None:
        import copy
        data = o.data if hasattr(o, 'data') and not isinstance(o, np.ndarray) else o
        c = copy.deepcopy(data) if isinstance(data, np.ndarray) or not isinstance(data, dict) else dict(data)
        TRACK.append((o, c))
    return o


def altered():
    """descriptions of handed over objects that are not as they were"""
    out = []
    for o, c in TRACK or []:
        d = o.data if hasattr(o, 'data') and not isinstance(o, np.ndarray) else o
        same = type(d) is type(c)
        if same and isinstance(c, np.ndarray):
            same = np.array_equal(d, c) and d.dtype == c.dtype
        elif same and isinstance(c, dict):
            same = list(d) == list(c) and all(d[k] is c[k] for k in c)
        elif same:
            same = repr(d) == repr(c)
        if not same:
            out.append(f'{c!r} -> {d!r}'[:300])
    return out


SHARED = None      # dict if equal values are to be handed over as one object


def val(v):
    if SHARED is not None and isinstance(v, dict) and 'tg' not in v:
        k = repr(v)
        if k not in SHARED:
            SHARED[k] = keep(val_(v))
        return SHARED[k]
    r = val_(v)
    return keep(r) if isinstance(v, dict) else r


def val_(v):
    """number | None | {'a': array} | {'l': list} | {'i': int array} | {'ts': TimeSeriesData} (nested value inside)"""
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == 'a':
            return np.array(x, dtype=float)
        if k == 'i':
            return np.array(x)
        if k == 'n':       # numpy scalar
            return np.float64(x)
        if k == 'ni':
            return np.int64(x)
        if k == 'nf':
            return np.float32(x)
        if k == 'f32':
            return np.array(x, dtype=np.float32)
        if k == 'ti':
            return _fx().TimeSeriesData(np.array(x))
        if k == 'tl':
            return _fx().TimeSeriesData(list(x))
        if k == 'l':
            return list(x)
        if k == 'tg':      # data, group, weight, name
            o = _fx().TimeSeriesData(np.array(x[0], dtype=float), agg_group=x[1], agg_weight=x[2])
            NAMED[x[3]] = o
            return o
        if k == 'ts':
            return _fx().TimeSeriesData(np.array(x, dtype=float) if isinstance(x, list) else x)
        raise ValueError(k)
    return v


def stamps(spec):
    """time stamps: start + cumulated dt; unit 's','m','h','us','ns' or 'D'"""
    dt = spec['dt']
    start = np.datetime64(spec.get('start', '2020-01-01T00:00:00'), 's')
    off = np.concatenate([[0], np.cumsum(dt[:-1])])
    if spec.get('offset'):
        start = start + np.timedelta64(int(round(spec['offset'] * 3600)), 's')
    t = start + np.array([np.timedelta64(int(round(x * 3600)), 's') for x in off])
    u = spec.get('unit', 's')
    return t.astype(f'datetime64[{u}]')


class Builder:
    def __init__(self, spec):
        fx = self.fx = _fx()
        self.spec = spec
        self.shared = {}
        last = spec.get('last', 'auto')
        ts = stamps(spec)
        form = spec.get('tform')
        if form == 'list':
            ts = list(ts)
        elif form == 'datetime':
            ts = [x.item() for x in ts.astype('datetime64[us]')]
        elif form == 'pandas':
            import pandas as pd
            ts = pd.DatetimeIndex(ts)
        if last == 'auto':
            last = spec['dt'][-1]
        elif isinstance(last, dict) and 'td' in last:      # seconds
            last = np.timedelta64(int(last['td']), 's')
        else:
            last = val(last)
        self.fs = fx.FlowSystem(ts, last_time_step_hours=last,
                                previous_dt_in_hours=val(spec.get('prev_dt')))
        self.effects = {}
        self.buses = {}
        self.flows = {}
        self.comps = {}
        for e in spec.get('effects', []):
            self.effect(e)
        for b, d in spec['buses'].items():
            self.buses[b] = fx.Bus(b, excess_penalty_per_flow_hour=val(d.get('penalty')))
        for c in spec['comps']:
            self.comp(c)
        order = spec.get('order')
        els = list(self.effects.values()) + list(self.comps.values())
        if order == 'reversed':
            els = els[::-1]
        elif isinstance(order, (list, tuple)):
            els = [els[i] for i in order]
        how = spec.get('add', 'at once')
        if how == 'at once':
            self.fs.add_elements(*els)
        elif how == 'one by one':
            for e in els:
                self.fs.add_elements(e)
        else:      # by kind, in the order of `how`
            for k in how:
                if k == 'e':
                    self.fs.add_effects(*[e for e in els if e in list(self.effects.values())])
                else:
                    self.fs.add_components(*[e for e in els if e in list(self.comps.values())])

    # ---- effects
    def effect(self, e):
        kw = {}
        for k, name in (('op_share', 'specific_share_to_other_effects_operation'),
                        ('inv_share', 'specific_share_to_other_effects_invest')):
            if e.get(k):
                kw[name] = keep({self.effects[l]: val(v) for l, v in e[k]})
        for k, name in (('op_min', 'minimum_operation'), ('op_max', 'maximum_operation'),
                        ('oph_min', 'minimum_operation_per_hour'), ('oph_max', 'maximum_operation_per_hour'),
                        ('inv_min', 'minimum_invest'), ('inv_max', 'maximum_invest'),
                        ('tot_min', 'minimum_total'), ('tot_max', 'maximum_total')):
            if e.get(k) is not None:
                kw[name] = val(e[k])
        self.effects[e['label']] = self.fx.Effect(e['label'], 'u', 'd', is_standard=bool(e.get('std')),
                                                  is_objective=bool(e.get('obj')), **kw)

    def eff(self, v):
        if isinstance(v, dict) and 'eff' in v:
            if SHARED is not None:
                k = repr(v)
                if k not in SHARED:
                    SHARED[k] = {(self.effects[l] if l is not None else None): val(x) for l, x in v['eff']}
                return SHARED[k]
            return keep({(self.effects[l] if l is not None else None): val(x) for l, x in v['eff']})
        return val(v)

    # ---- parameters
    def onoff(self, o):
        if o is None:
            return None
        names = {'on_min': 'on_hours_total_min', 'on_max': 'on_hours_total_max',
                 'con_min': 'consecutive_on_hours_min', 'con_max': 'consecutive_on_hours_max',
                 'coff_min': 'consecutive_off_hours_min', 'coff_max': 'consecutive_off_hours_max',
                 'sw_max': 'switch_on_total_max', 'force': 'force_switch_on'}
        kw = {names[k]: val(x) for k, x in o.items() if k in names and x is not None}
        if o.get('switch_eff') is not None:
            kw['effects_per_switch_on'] = self.eff(o['switch_eff'])
        if o.get('run_eff') is not None:
            kw['effects_per_running_hour'] = self.eff(o['run_eff'])
        if self.spec.get('share') in (True, 'all', 'parameters'):       # equal parameters: one object
            k = repr(o)
            return self.shared.setdefault(k, None) or self.shared.update({k: self.fx.OnOffParameters(**kw)}) or self.shared[k]
        return self.fx.OnOffParameters(**kw)

    def size(self, s):
        if isinstance(s, dict) and 'inv' in s:
            s = s['inv']
            names = {'fixed': 'fixed_size', 'min': 'minimum_size', 'max': 'maximum_size', 'optional': 'optional'}
            kw = {names[k]: val(x) for k, x in s.items() if k in names and x is not None}
            for k, name in (('fix_eff', 'fix_effects'), ('spec_eff', 'specific_effects'), ('div_eff', 'divest_effects')):
                if s.get(k) is not None:
                    kw[name] = self.eff(s[k])
            if s.get('seg') is not None:
                pts, effs = s['seg']
                pair = lambda p: tuple(val(x) for x in p)
                kw['effects_in_segments'] = ([pair(p) for p in pts],
                                             {self.effects[l]: [pair(p) for p in v] for l, v in effs})
            if self.spec.get('share') in (True, 'all', 'parameters'):
                k = repr(s)
                return self.shared.setdefault(k, None) or self.shared.update({k: self.fx.InvestParameters(**kw)}) or self.shared[k]
            return self.fx.InvestParameters(**kw)
        return val(s)

    def flow(self, comp, f):
        kw = {}
        for k, name in (('fixed', 'fixed_relative_profile'), ('rmin', 'relative_minimum'), ('rmax', 'relative_maximum'),
                        ('fh_min', 'flow_hours_total_min'), ('fh_max', 'flow_hours_total_max'),
                        ('lf_min', 'load_factor_min'), ('lf_max', 'load_factor_max'), ('prev', 'previous_flow_rate')):
            if f.get(k) is not None:
                kw[name] = val(f[k])
        if f.get('eff') is not None:
            kw['effects_per_flow_hour'] = self.eff(f['eff'])
        if f.get('onoff') is not None:
            kw['on_off_parameters'] = self.onoff(f['onoff'])
        fl = self.fx.Flow(f['label'], bus=self.buses[f['bus']], size=self.size(f.get('size')), **kw)
        self.flows[f'{comp}.{f["label"]}'] = fl
        return fl

    # ---- components
    def comp(self, c):
        fx, k, L = self.fx, c['kind'], c['label']
        ins = [self.flow(L, f) for f in c.get('ins', [])]
        outs = [self.flow(L, f) for f in c.get('outs', [])]
        F = {f.label: f for f in ins + outs}
        oo = self.onoff(c.get('onoff'))
        if k == 'Source':
            o = fx.Source(L, source=outs[0])
        elif k == 'Sink':
            o = fx.Sink(L, sink=ins[0])
        elif k == 'SourceAndSink':
            o = fx.SourceAndSink(L, source=outs[0], sink=ins[0], **({} if c.get('prevent', True) is True else
                                                                   {'prevent_simultaneous_flows': False}))
        elif k == 'LinearConverter':
            kw = {}
            if c.get('factors') is not None:
                kw['conversion_factors'] = [keep({F[l]: val(x) for l, x in eq}) for eq in c['factors']]
            if c.get('segs') is not None:
                kw['segmented_conversion_factors'] = keep({F[l]: keep([(val(a), val(b)) for a, b in sg]) for l, sg in c['segs']})
            o = fx.LinearConverter(L, inputs=ins, outputs=outs, on_off_parameters=oo, **kw)
        elif k == 'Boiler':
            o = fx.linear_converters.Boiler(L, eta=val(c['eta']), Q_fu=ins[0], Q_th=outs[0], on_off_parameters=oo)
        elif k == 'Power2Heat':
            o = fx.linear_converters.Power2Heat(L, eta=val(c['eta']), P_el=ins[0], Q_th=outs[0], on_off_parameters=oo)
        elif k == 'HeatPump':
            o = fx.linear_converters.HeatPump(L, COP=val(c['cop']), P_el=ins[0], Q_th=outs[0], on_off_parameters=oo)
        elif k == 'CoolingTower':
            o = fx.linear_converters.CoolingTower(L, specific_electricity_demand=val(c['sed']), P_el=ins[0],
                                                  Q_th=ins[1], on_off_parameters=oo)
        elif k == 'CHP':
            o = fx.linear_converters.CHP(L, eta_th=val(c['eta_th']), eta_el=val(c['eta_el']), Q_fu=ins[0],
                                         P_el=outs[0], Q_th=outs[1], on_off_parameters=oo)
        elif k == 'HeatPumpWithSource':
            o = fx.linear_converters.HeatPumpWithSource(L, COP=val(c['cop']), P_el=ins[0], Q_ab=ins[1], Q_th=outs[0],
                                                        on_off_parameters=oo)
        elif k == 'Storage':
            kw = {}
            for a, name in (('rmin', 'relative_minimum_charge_state'), ('rmax', 'relative_maximum_charge_state'),
                            ('fmin', 'minimal_final_charge_state'), ('fmax', 'maximal_final_charge_state'),
                            ('eta_c', 'eta_charge'), ('eta_d', 'eta_discharge'), ('loss', 'relative_loss_per_hour')):
                if c.get(a) is not None:
                    kw[name] = val(c[a])
            if 'init' in c:
                kw['initial_charge_state'] = val(c['init'])
            if c.get('prevent', True) is not True:
                kw['prevent_simultaneous_charge_and_discharge'] = False
            o = fx.Storage(L, charging=ins[0], discharging=outs[0], capacity_in_flow_hours=self.size(c['cap']), **kw)
        elif k == 'Transmission':
            kw = {}
            if c.get('rel') is not None:
                kw['relative_losses'] = val(c['rel'])
            if c.get('abs') is not None:
                kw['absolute_losses'] = val(c['abs'])
            if len(ins) > 1:
                kw.update(in2=ins[1], out2=outs[1])
            if c.get('prevent', True) is not True:
                kw['prevent_simultaneous_flows_in_both_directions'] = False
            o = fx.Transmission(L, in1=ins[0], out1=outs[0], on_off_parameters=oo, **kw)
        elif k == 'Component':
            kw = {}
            if c.get('prevent'):
                kw['prevent_simultaneous_flows'] = [F[l] for l in c['prevent']]
            o = fx.elements.Component(L, inputs=ins, outputs=outs, on_off_parameters=oo, **kw)
        else:
            raise ValueError(k)
        self.comps[L] = o
        return o


def build(spec):
    global SHARED
    SHARED = {} if spec.get('share') == 'all' else None
    try:
        return Builder(spec)
    finally:
        SHARED = None
