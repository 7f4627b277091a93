import io
import itertools
import logging
import os
import shutil
import sys
import tempfile

import yaml

from .. import env

PID, LEVEL = 'C27', 'model_checking'
ASSUMPTIONS = ['files are read from a local file system', 'the defaults are those of flixOpt/config.yaml']
RULE = ('all sequences of operations (load a file of the alphabet: complete, every part, empty, empty sections, every invalid value, malformed, missing; load without a file; change the logging level; '
        'assign a valid or an invalid value) up to the stated length; after every operation the effective configuration, the level, the handlers of the logger and where messages of every level arrive are compared '
        'with a reference state; at the end a flow, an investment and an on/off model are created and compared with the values in use')

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
FULL = dict(config_name='mine', logging=dict(level='WARNING', file='@/a.log', rich=True), modeling=dict(BIG=5000, EPSILON=0.25, BIG_BINARY_BOUND=70))
OK = {     # name -> text of the file ({D}: scratch directory)
    'full': FULL,
    'name': dict(config_name='other'),
    'level': dict(logging=dict(level='ERROR')),
    'file': dict(logging=dict(file='@/b.log')),
    'rich': dict(logging=dict(rich=True)),
    'big': dict(modeling=dict(BIG=1234)),
    'eps': dict(modeling=dict(EPSILON=0.5)),
    'bound': dict(modeling=dict(BIG_BINARY_BOUND=9)),
    'two': dict(modeling=dict(BIG=77, EPSILON=0.125), logging=dict(level='DEBUG')),
    'both': dict(logging=dict(level='CRITICAL', file='@/c.log'), config_name='x'),
    'norich': dict(logging=dict(rich=False, level='INFO'), modeling=dict(BIG=0)),
    'empty': '',
    'comment': '# nothing\n',
    'nosection': 'logging:\n  # level: DEBUG\nmodeling:\n  BIG: 4321\n',
    'nosection2': 'config_name: y\nmodeling:\nlogging:\n  level: ERROR\n',
    'order': 'modeling:\n  EPSILON: 0.75\n  BIG: 15\nlogging:\n  rich: false\n  level: WARNING\nconfig_name: z\n',
}
BAD = {
    'level_': dict(config_name='bad', logging=dict(level='LOUD')),
    'level2_': dict(logging=dict(level=10), modeling=dict(BIG=99)),
    'file_': dict(logging=dict(file=3), modeling=dict(BIG=98)),
    'rich_': dict(logging=dict(rich='yes'), modeling=dict(BIG=97)),
    'big_': dict(modeling=dict(BIG='large'), logging=dict(level='DEBUG')),
    'big2_': dict(modeling=dict(BIG=2.5), config_name='bad'),
    'eps_': dict(modeling=dict(EPSILON='small', BIG=96), logging=dict(file='@/d.log')),
    'bound_': dict(modeling=dict(BIG_BINARY_BOUND=[1], BIG=95)),
    'name_': dict(config_name=7, modeling=dict(BIG=94)),
    'nodir_': dict(logging=dict(file='@/none/x.log', level='DEBUG'), modeling=dict(BIG=93)),
    'yaml_': 'modeling:\n  BIG: [1\n',
    'list_': '- modeling\n- logging\n',
    'section_': 'logging: 5\nmodeling:\n  BIG: 92\n',
    'section2_': 'modeling: 5\nlogging:\n  level: DEBUG\n',
    'section3_': 'modeling:\n- BIG\nlogging:\n  level: DEBUG\n',
    'missing_': None,
}
ASSIGN = {'=big': ('modeling', 'BIG', 11), '=eps': ('modeling', 'EPSILON', 0.375), '=level': ('logging', 'level', 'DEBUG')}
BADASSIGN = {'=big_': ('modeling', 'BIG', 'x'), '=eps_': ('modeling', 'EPSILON', None), '=level_': ('logging', 'level', 'info'), '=rich_': ('logging', 'rich', 1)}
CHANGE = {'!DEBUG': 'DEBUG', '!ERROR': 'ERROR', '!nope_': 'LOUD'}
ALL = list(OK) + list(BAD) + ['-'] + list(ASSIGN) + list(BADASSIGN) + list(CHANGE)
CORE = ['full', 'two', 'file', 'big', 'nosection', 'empty', 'level2_', 'big2_', 'nodir_', 'section_', '-', '=big', '!DEBUG']


def subst(x, d):
    if isinstance(x, dict):
        return {k: subst(v, d) for k, v in x.items()}
    return x.replace('@', d) if isinstance(x, str) else x


def merged(base, over):
    out = dict(base)
    for k, v in (over or {}).items():
        if isinstance(base.get(k), dict):
            out[k] = merged(base[k], v)
        else:
            out[k] = v
    return out


class World:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='c27_', dir=env.scratch())
        for n, t in {**OK, **BAD}.items():
            if t is not None:
                with open(self.path(n), 'w') as f:
                    f.write(t if isinstance(t, str) else yaml.safe_dump(subst(t, self.dir)))
        with open(os.path.join(env.REPO, 'flixOpt', 'config.yaml')) as f:
            self.default = yaml.safe_load(f)
        self.over = {n: subst(t if isinstance(t, dict) else (yaml.safe_load(t) or {}), self.dir) for n, t in OK.items()}

    def path(self, n):
        return os.path.join(self.dir, n + '.yaml')


def observe(w, state, level, out, clean):
    """-> text of a difference or None"""
    import flixOpt as fx
    from rich.logging import RichHandler
    C = fx.CONFIG
    d = C.to_dict()
    out['transitions'] += 1
    if d != state:
        return f'to_dict() is {d}, should be {state}'
    for sec in ('logging', 'modeling'):
        for k, v in state[sec].items():
            g = getattr(getattr(C, sec), k)
            if g != v or type(g) is not type(v):
                return f'CONFIG.{sec}.{k} is {g!r}, should be {v!r}'
    if C.config_name != state['config_name']:
        return f'config_name is {C.config_name!r}'
    lg = logging.getLogger('flixOpt')
    if lg.level != getattr(logging, level):
        return f'logger has level {lg.level}, should be {level}'
    if not clean:
        return None
    files = [h.baseFilename for h in lg.handlers if isinstance(h, logging.FileHandler)]
    want = [os.path.abspath(state['logging']['file'])]
    if files != want:
        return f'log files {files}, should be {want}'
    rich = [isinstance(h, RichHandler) for h in lg.handlers if not isinstance(h, logging.FileHandler)]
    if rich != [state['logging']['rich']]:
        return f'console handlers (rich) {rich}, should be {[state["logging"]["rich"]]}'
    return None


def messages(w, state, level, out):
    """where messages arrive"""
    lg = logging.getLogger('flixOpt')
    out['n'] += 1
    for k, lv in enumerate(LEVELS):
        text = f'message {out["n"]} {lv}\nsecond line'
        before = {f: len(read(os.path.join(w.dir, f))) for f in os.listdir(w.dir) if f.endswith('.log')}
        n0 = len(sys.stderr.getvalue()) + len(sys.stdout.getvalue())
        lg.log(getattr(logging, lv), text)
        shown = len(sys.stderr.getvalue()) + len(sys.stdout.getvalue()) > n0
        want = k >= LEVELS.index(level)
        if shown != want:
            return f'{lv} message {"not " * (not shown)}shown on the console with level {level}'
        for f in os.listdir(w.dir):
            if f.endswith('.log'):
                t = read(os.path.join(w.dir, f))[before.get(f, 0):]
                here = want and os.path.join(w.dir, f) == os.path.abspath(state['logging']['file'])
                if (text.split('\n')[0] in t and 'second line' in t) != here:
                    return f'{lv} message {"not " if here else ""}written to {f} with level {level}'
    return None


def read(p):
    with open(p) as f:
        return f.read()


def effective(state, out):
    """what newly created elements use"""
    import flixOpt as fx

    from .c20 import capture
    n = (0, 0)
    b = fx.Bus('b')
    f = fx.Flow('f', bus=b)
    if f.size != state['modeling']['BIG']:
        return f'default size of a flow is {f.size}, BIG is {state["modeling"]["BIG"]}'
    p = fx.InvestParameters()
    if p.maximum_size != state['modeling']['BIG']:
        return f'default maximum size is {p.maximum_size}, BIG is {state["modeling"]["BIG"]}'
    import numpy as np
    e = fx.Effect('c', 'u', 'd', is_standard=True, is_objective=True)
    g = fx.Flow('g', bus=b, size=10, on_off_parameters=fx.OnOffParameters())
    fs = fx.FlowSystem(fx.create_datetime_array('2020-01-01', 3))
    fs.add_elements(e, fx.Source('s', source=g))
    c = fx.FullCalculation('c', fs)
    c.do_modeling()
    sig = capture(c, 1.0)
    eps = state['modeling']['EPSILON']
    k = sum(1 for t, lo, hi in sig[1] if len(t) == 2 and any(abs(abs(a) - eps) < 1e-12 for _, a in t))
    if k != 3:
        return f'{k} of 3 conditions use EPSILON={eps}'
    return None


def play(seq, w, out, deep):
    import flixOpt as fx
    state, level, clean = w.default, w.default['logging']['level'], True
    fx.CONFIG.load_config()
    sys.stderr.seek(0), sys.stderr.truncate()
    sys.stdout.seek(0), sys.stdout.truncate()
    for i, op in enumerate(seq):
        err = None
        try:
            if op == '-':
                fx.CONFIG.load_config()
            elif op in OK or op in BAD:
                fx.CONFIG.load_config(w.path(op))
            elif op in ASSIGN or op in BADASSIGN:
                s, k, v = {**ASSIGN, **BADASSIGN}[op]
                setattr(getattr(fx.CONFIG, s), k, v)
            else:
                fx.change_logging_level(CHANGE[op])
        except Exception as e:
            err = e
        if op.endswith('_') != (err is not None):
            return f'{list(seq[:i + 1])}: ' + (f'rejected: {type(err).__name__}: {err}' if err else 'accepted')
        if op == '-':
            state = w.default
        elif op in OK:
            state = merged(w.default, w.over[op])
        elif op in ASSIGN:
            s, k, v = ASSIGN[op]
            state = dict(state, **{s: dict(state[s], **{k: v})})
        if op == '-' or op in OK:
            level = state['logging']['level']
            clean = True
        elif op in CHANGE and err is None:
            level = CHANGE[op]
        t = observe(w, state, level, out, clean)
        if t:
            return f'after {list(seq[:i + 1])}: {t}'
    handlers_level = level
    t = messages(w, state, level, out) or (effective(state, out) if deep else None)
    return t and f'after {list(seq)}: {t}'


def run(task):
    import flixOpt as fx
    out = dict(viol=[], transitions=0, states=0, feeds=0, n=0)
    saved = sys.stderr, sys.stdout
    sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
    w = World()
    try:
        for seq in task['seqs']:
            t = play(seq, w, out, task['deep'])
            out['states'] += 1
            out['feeds'] += 1
            if t and len(out['viol']) < 3:
                out['viol'].append(dict(kind='config', text=t.replace(w.dir, '@')))
        fx.CONFIG.load_config()
    finally:
        sys.stderr, sys.stdout = saved
        env.quiet()
        shutil.rmtree(w.dir, ignore_errors=True)
    out.pop('n')
    out['sample'] = dict(sequence=list(task['seqs'][-1]))
    return out


def tasks(tier):
    deep = tier == 'thorough'
    some = [(a,) for a in ALL] + list(itertools.product(CORE, repeat=2))
    for i in range(0, len(some), 25):
        yield dict(seqs=some[i:i + 25], deep=True)
    seqs = list(itertools.product(ALL, repeat=2)) + list(itertools.product(CORE, repeat=3))
    if deep:
        seqs = list(itertools.product(ALL, repeat=3)) + list(itertools.product(CORE, repeat=4))
    for i in range(0, len(seqs), 100):
        yield dict(seqs=seqs[i:i + 100], deep=False)
