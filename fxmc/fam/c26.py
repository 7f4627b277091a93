import copy
import datetime
import itertools
import json
import math

import numpy as np

PID, LEVEL = 'C26', 'exploration'
ASSUMPTIONS = ['deeper nestings behave like nestings of the explored depth (all functions are structurally recursive)']
RULE = ('all nestings up to the stated depth over an alphabet of leaves (numbers, numpy scalars, booleans, strings, None, dates, arrays of every kind, time series, elements) and containers (dict, list, tuple, set): '
        'converted with every option, written as JSON, read back, turned into arrays, shortened, flattened, values extracted by path; compared with direct definitions; the given data is compared with its copy')


def leaves():
    import flixOpt as fx
    from flixOpt.core import TimeSeries
    a = np.array
    ts = TimeSeries('t', a([1.0, 2.0, 4.0]))
    ts2 = TimeSeries('t', a([1.0, 2.0, 4.0]))
    ts2.active_indices = [1, 2]
    return {
        'int': (3, 3), 'zero': (0, 0), 'float': (2.5, 2.5), 'neg': (-1e-9, -1e-9), 'true': (True, True), 'false': (False, False), 'none': (None, None), 'str': ('x', 'x'), 'estr': ('', ''), 'num_str': ('1', '1'),
        'uni': ('Wärme "1"\n', 'Wärme "1"\n'), 'nan': (float('nan'), float('nan')), 'inf': (float('inf'), float('inf')), 'big': (10 ** 15, 10 ** 15),
        'np_f': (np.float64(1.5), 1.5), 'np_f32': (np.float32(0.5), 0.5), 'np_i': (np.int64(4), 4), 'np_i8': (np.int8(-4), -4), 'np_b': (np.bool_(True), True), 'np_s': (np.str_('s'), 's'),
        'np_dt': (np.datetime64('2020-01-02T03:04:05'), '2020-01-02T03:04:05'), 'np_dt_ns': (np.datetime64('2020-01-02T03:04:05', 'ns'), '2020-01-02T03:04:05'),
        'date': (datetime.date(2020, 1, 2), '2020-01-02'), 'datetime': (datetime.datetime(2020, 1, 2, 3, 4, 5), '2020-01-02T03:04:05'),
        'a_f': (a([0.1, -2.0]), [0.1, -2.0]), 'a_i': (a([1, 2, 3]), [1, 2, 3]), 'a_b': (a([True, False]), [True, False]), 'a_0': (a([]), []), 'a_00': (a(5.0), 5.0), 'a_2': (a([[1.0, 2.0], [3.0, 4.0]]), [[1.0, 2.0], [3.0, 4.0]]),
        'a_o': (a([1.0, None], dtype=object), [1.0, None]), 'a_s': (a(['p', 'q']), ['p', 'q']), 'a_f32': (a([0.5, 0.25], dtype=np.float32), [0.5, 0.25]), 'a_nan': (a([1.0, float('nan')]), [1.0, float('nan')]),
        'a_dt': (a(['2020-01-01', '2020-01-02'], dtype='datetime64[s]'), ['2020-01-01T00:00:00', '2020-01-02T00:00:00']),
        'a_dt_ns': (a(['2020-01-01', '2020-01-02'], dtype='datetime64[ns]'), ['2020-01-01T00:00:00', '2020-01-02T00:00:00']),
        'tsd': (fx.TimeSeriesData(a([1.0, 2.0])), [1.0, 2.0]), 'tsd_s': (fx.TimeSeriesData(7), 7), 'ts': (ts, [1.0, 2.0, 4.0]), 'ts_w': (ts2, [2.0, 4.0]),
        'bus': (fx.Bus('b'), Obj(fx.Bus, dict(label='b'), label='b')),
        'onoff': (fx.OnOffParameters(on_hours_total_max=a([5, 6])[1]), Obj(fx.OnOffParameters, dict(on_hours_total_max=6))),
    }


class Obj:
    """expected representation of an element or of parameters"""

    def __init__(self, cls, fields, label=None):
        self.cls, self.fields, self.label = cls, fields, label


def same(x, want, label):
    """x is `want` (numbers by value, every sequence by order and content)"""
    if isinstance(want, Obj):
        if label and want.label is not None:
            return x == want.label
        if not isinstance(x, dict) or not str(x.get('class', '')).startswith(want.cls.__name__):
            return False
        y = {k: v for k, v in x.items() if k != 'class'}
        if want.label is not None and y.get('label') != want.label:
            return False
        return all(k in y and same(y[k], v, label) for k, v in want.fields.items()) and (want.label is None or True)
    if isinstance(want, dict):
        return isinstance(x, dict) and list(x) == list(want) and all(same(x[k], want[k], label) for k in want)
    if isinstance(want, list):
        if isinstance(x, np.ndarray) and x.ndim:
            x = list(x)
        return isinstance(x, list) and len(x) == len(want) and all(same(p, q, label) for p, q in zip(x, want))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, (dict, list)) or isinstance(x, np.ndarray):
        return False
    if isinstance(want, float) and math.isnan(want):
        return isinstance(x, (float, np.floating)) and math.isnan(x)
    if want is None or isinstance(want, str) or x is None or isinstance(x, str):
        return type(x) is type(want) and x == want
    return x == want


def pure(x, arrays):
    """only JSON types (and numeric arrays)"""
    if isinstance(x, dict):
        return all(type(k) in (str, int, float, bool, type(None)) for k in x) and all(pure(v, arrays) for v in x.values())
    if isinstance(x, list):
        return all(pure(v, arrays) for v in x)
    if isinstance(x, np.ndarray):
        return arrays and (np.issubdtype(x.dtype, np.number) or x.dtype == bool)
    return type(x) in (str, int, float, bool, type(None))


def untouched(x, c):
    if type(x) is not type(c):
        return False
    if isinstance(x, dict):
        return list(map(repr, x)) == list(map(repr, c)) and all(untouched(p, q) for p, q in zip(x.values(), c.values()))
    if isinstance(x, (list, tuple)):
        return len(x) == len(c) and all(untouched(p, q) for p, q in zip(x, c))
    if isinstance(x, np.ndarray):
        return x.dtype == c.dtype and x.shape == c.shape and repr(x) == repr(c)
    if hasattr(x, '__dict__'):
        return list(vars(x)) == list(vars(c)) and all(untouched(p, q) for p, q in zip(vars(x).values(), vars(c).values()))
    return repr(x) == repr(c)


def conjson(want):
    """what JSON makes of the keys"""
    if isinstance(want, dict):
        return {k if isinstance(k, str) else json.dumps(k): conjson(v) for k, v in want.items()}
    if isinstance(want, list):
        return [conjson(v) for v in want]
    if isinstance(want, Obj):
        return want
    return want


def numlist(x):
    return isinstance(x, list) and len(x) > 0 and all(isinstance(v, (int, float)) for v in x)


def as_read(x, y, path=''):
    """y is x with lists of numbers as arrays -> text or None"""
    if isinstance(x, dict):
        if not isinstance(y, dict) or list(x) != list(y):
            return f'{path}: keys'
        return next((t for t in (as_read(x[k], y[k], f'{path}/{k}') for k in x) if t), None)
    if numlist(x):
        if not isinstance(y, np.ndarray) or y.ndim != 1 or len(y) != len(x) or not all(p == q or (p != p and q != q) for p, q in zip(x, y)):
            return f'{path}: {y!r} instead of an array of {x!r}'
        return None
    if isinstance(x, (list, tuple)):
        if not isinstance(y, list) or len(x) != len(y):
            return f'{path}: {y!r} instead of {x!r}'
        return next((t for t in (as_read(p, q, f'{path}/{i}') for i, (p, q) in enumerate(zip(x, y))) if t), None)
    return None if type(x) is type(y) and (x == y or x != x) else f'{path}: {y!r} instead of {x!r}'


# ---------------------------------------------------------------- generators: (data, expected)
def build(t, L):
    """term -> (data, expected)"""
    if isinstance(t, str):
        d, w = L[t]
        return copy.deepcopy(d) if not hasattr(d, 'label') or not hasattr(d, 'infos') else d, w
    kind, parts = t[0], t[1:]
    if kind == 'D':
        ks, vs = zip(*parts) if parts else ((), ())
        keys = [({'E': None}.get(k, k)) for k in ks]
        d, w = {}, {}
        for k, v in zip(keys, vs):
            x, y = build(v, L)
            kd, kw = KEYS()[k] if k in KEYS() else (k, k)
            d[kd] = x
            w[kw] = y
        return d, w
    xs = [build(v, L) for v in parts]
    d, w = [x for x, _ in xs], [y for _, y in xs]
    if kind == 'T':
        return tuple(d), w
    if kind == 'S':
        return set(d), w
    return d, w


_K = {}


def KEYS():
    if not _K:
        import flixOpt as fx
        e = fx.Effect('eff', 'u', 'd')
        _K.update({'@none': (None, None), '@int': (2, 2), '@eff': (e, 'eff'), '@npi': (np.int64(3), 3), '@nps': (np.str_('ks'), 'ks'), '@float': (0.5, 0.5)})
    return _K


def terms(tier):
    deep = tier == 'thorough'
    names = list(leaves())
    small = ['int', 'float', 'none', 'str', 'np_f', 'np_i', 'a_f', 'a_dt', 'tsd', 'true', 'np_b']
    for n in names:
        yield n
        yield ('S', n) if n in ('int', 'str', 'np_i', 'float', 'true', 'date', 'np_f') else ('L', n)
        for c in 'LT':
            yield (c, n)
        yield ('D', ('k', n))
        for k in KEYS():
            yield ('D', (k, n), ('z', 'int'))
    for a, b in itertools.product(names, repeat=2):
        for c in 'LT':
            yield (c, a, b)
        yield ('D', ('k', a), ('a', b))
    yield ('L',)
    yield ('T',)
    yield ('D',)
    inner = [(c, a, b) for c in 'LT' for a, b in itertools.product(small, repeat=2)] + [('D', ('x', a), ('b', b)) for a, b in itertools.product(small, repeat=2)] + [('L',), ('D',), ('T',)]
    outer = small if deep else ['int', 'a_f', 'str']
    for t in inner:
        for o in outer:
            yield ('D', ('o', t), ('n', o))
            yield ('L', o, t)
            yield ('T', t, o)
        yield ('L', t, t)
        yield ('D', ('q', ('L', ('D', ('r', t)))))
    if deep:
        few = inner[::7]
        for t, u in itertools.product(few, repeat=2):
            yield ('D', ('o', t), ('n', ('L', u, 'int')))
            yield ('L', ('T', t), ('D', ('m', u)))
        tri = ['int', 'float', 'np_i', 'none', 'true', 'str', 'a_i']
        for a, b, c in itertools.product(tri, repeat=3):
            for k in 'LT':
                yield (k, a, b, c)


def bad_key_term(t):
    return False


def check(t, L, out):
    from flixOpt import utils
    from flixOpt.structure import copy_and_convert_datatypes as conv
    data, want = build(t, L)
    before = copy.deepcopy(data)
    for numpy in (False, True):
        for label in (False, True):
            try:
                y = conv(data, numpy, label)
            except Exception as e:
                return f'not converted (use_numpy={numpy}, use_element_label={label}): {type(e).__name__}: {e}'
            out['evals'] += 1
            if not same(y, want, label):
                return f'converted (use_numpy={numpy}, use_element_label={label}) to {y!r}'
            if not pure(y, numpy):
                return f'conversion (use_numpy={numpy}) leaves other types: {y!r}'
            if not numpy:
                try:
                    s = json.dumps(y)
                except Exception as e:
                    return f'can not be written as JSON: {e}'
                z = json.loads(s)
                if not same(z, conjson(want), label):
                    return f'read from JSON: {z!r}'
                zc = copy.deepcopy(z)
                r = utils.convert_numeric_lists_to_arrays(z)
                e = as_read(zc, r)
                if e:
                    return f'read as arrays: {e}'
                if not untouched(z, zc):
                    return f'reading altered {zc!r} to {z!r}'
    if not untouched(data, before):
        return f'altered to {data!r}'
    out['nontrivial'] += 1
    return None


# ---------------------------------------------------------------- flattening and extraction
def dicts(tier):
    keys = ['a', 'b', 'a__b', 'b__a']
    leaf = [('v',)]
    one = [('d', k, ('v',)) for k in keys]
    lvl1 = [{k: None} for k in keys] + [{k: None, l: None} for k, l in itertools.permutations(keys, 2)]
    vals = [None] + lvl1[:8]
    for ks in [(k,) for k in keys] + list(itertools.permutations(keys, 2)) + list(itertools.permutations(keys, 3)):
        for vs in itertools.product(vals if len(ks) < 3 or tier == 'thorough' else [None, {'a': None}, {'b': None, 'a': None}], repeat=len(ks)):
            yield dict(zip(ks, vs))
    for v in vals[1:]:
        for k, l in itertools.product(keys, repeat=2):
            yield {k: {l: v}, 'c': None}
            yield {'b': {'a': {l: v}}, k: v}


def number(d, n):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = number(v, n)
        else:
            n[0] += 1
            out[k] = np.array([n[0], n[0]]) if n[0] % 3 == 0 else n[0] if n[0] % 3 == 1 else float(n[0])
    return out


def walk(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from walk(v, pre + (k,))
        else:
            yield pre + (k,), v


def check_flat(d, out):
    from flixOpt import results
    d = number(d, [0])
    c = copy.deepcopy(d)
    for sep in ('__', '/'):
        f = results.flatten_dict(d) if sep == '__' else results.flatten_dict(d, sep=sep)
        out['evals'] += 1
        left = dict(f)
        for p, v in walk(d):
            j = sep.join(p)
            hit = [k for k, x in left.items() if x is v and (k == j or k.startswith(j + '_#'))]
            if not hit:
                return f'flattened (sep={sep!r}): the value at {p} is not under {j}: {f}'
            del left[hit[0]]
        if left:
            return f'flattened (sep={sep!r}): additional {left}'
        paths = [sep.join(p) for p, _ in walk(d)]
        for p, v in walk(d):
            if paths.count(sep.join(p)) == 1 and f.get(sep.join(p)) is not v:
                return f'flattened: {sep.join(p)} is {f.get(sep.join(p))}'
    r = results.ElementResults({'label': 'x'}, d).variables_flat
    if repr(r) != repr(results.flatten_dict(d)):
        return f'variables_flat is {r}'
    if repr(c) != repr(d):
        return 'altered'
    # by path
    every = sorted({p for p, _ in walk(d)} | {p[:1] for p, _ in walk(d)} | {p + ('a',) for p, _ in walk(d)} | {('nope',), ('a', 'nope')})
    for p in every:
        x = d
        for k in p:
            x = x.get(k) if isinstance(x, dict) else None
        y = results.extract_single_result(d, list(p))
        out['evals'] += 1
        if y is not x:
            return f'extracted at {p}: {y}, should be {x}'
        tree = {'one': d, 'two': {'a': 7}, 'three': {}, 'four': {'b': {'a': 0}}}
        for keep in (False, True):
            want = {}
            for e, dd in tree.items():
                x = dd
                for k in p:
                    x = x.get(k) if isinstance(x, dict) else None
                if keep or x is not None:
                    want[e] = x
            g = results.extract_results(tree, list(p), keep)
            if list(g) != list(want) or any(g[k] is not want[k] for k in want):
                return f'extract_results at {p} (keep_none={keep}): {g}, should be {want}'
    out['nontrivial'] += 1
    return None


# ---------------------------------------------------------------- short representation
def check_short(n, vals, out):
    from flixOpt.structure import get_compact_representation as short
    x = np.array([vals[i % len(vals)] + (i // len(vals)) * 0.125 for i in range(n)], dtype=float)
    for data, get in (({'a': x, 'b': [x, 1.23456]}, lambda r: (r['a'], r['b'][0])), ({'k': {'l': x.tolist()}}, lambda r: (r['k']['l'],))):
        for th, dec in ((None, None), (5, 2), (5, 0), (100, 4), (1, 3)):
            c = copy.deepcopy(data)
            r = short(data, **({} if th is None else dict(array_threshold=th, decimals=dec)))
            out['evals'] += 1
            if not untouched(data, c):
                return f'altered by get_compact_representation'
            t, k = (50, 2) if th is None else (th, dec)
            for y in get(r):
                if n > t:
                    pos = np.array([i / (n - 1) for i in range(n)]) if n > 1 else np.zeros(1)
                    s = sorted(x)
                    med = (s[(n - 1) // 2] + s[n // 2]) / 2
                    mean = sum(x) / n
                    std = math.sqrt(sum((v - mean) ** 2 for v in x) / n)
                    cen = float('nan') if sum(x) == 0 else sum(pos * x) / sum(x)
                    want = dict(min=min(x), max=max(x), mean=mean, median=med, std=std, len=n, center=cen)
                    if not isinstance(y, str) or not y.startswith('Array ('):
                        return f'{n} values with threshold {t}: {y!r}'
                    got = dict(p.split('=') for p in y[len('Array ('):-1].split(', '))
                    for q, v in want.items():
                        g = float(got[q])
                        if not (abs(g - v) <= 0.5000001 * 10 ** -(k if q != 'len' else 9) or (g != g and v != v)):
                            return f'{n} values {x[:5]}..., threshold {t}, decimals {k}: {q} is {got[q]}, should be {v}'
                else:
                    if not isinstance(y, list) or len(y) != n or any(abs(p - q) > 0.5000001 * 10 ** -k for p, q in zip(y, x)):
                        return f'{x} with threshold {t}, decimals {k}: {y!r}'
    out['nontrivial'] += 1
    return None


def run(task):
    out = dict(viol=[], evals=0, nontrivial=0)
    L = leaves()

    def viol(what, text):
        if len(out['viol']) < 3:
            out['viol'].append(dict(kind=task['kind'], text=f'{what}: {text}'[:900]))
    for x in task['items']:
        if task['kind'] == 'terms':
            t = check(tup(x), L, out)
        elif task['kind'] == 'flat':
            t = check_flat(x, out)
        else:
            t = check_short(x[0], x[1], out)
        if t:
            viol(x, t)
    out['sample'] = dict(item=task['items'][-1])
    return out


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def tasks(tier):
    def chunk(kind, it, n):
        it = list(it)
        for i in range(0, len(it), n):
            yield dict(kind=kind, items=it[i:i + n])
    yield from chunk('terms', terms(tier), 100)
    yield from chunk('flat', dicts(tier), 60)
    sizes = [1, 2, 3, 5, 6, 7, 49, 50, 51, 100, 101]
    yield from chunk('short', [(n, v) for n in sizes for v in ([1.0], [0.0, 1.0], [-1.0, 1.0, 3.0], [1.23456, -0.98765, 0.005, 100.0], [0.0])], 11)
