"""C32: warnings and log messages are reported completely, once, and only where they belong."""

from __future__ import annotations

import contextlib
import io
import itertools
import os
import re
import shutil
import subprocess
import sys
import warnings
from pathlib import Path

import pandas as pd

from mc import flow, full, pel
from mc.state import diff, fp

PROPERTY = 'C32'
LEVEL = 'model_checking'
RULE = (
    'explicit exploration of all sequences of logging operations up to the bound, for every combination of logging settings, for one assessment '
    'and for two assessments taking turns, of all sequences of operations of the library that raise warnings, and of complete assessments; log file, '
    'warnings file, standard output and captured warnings compared with a reference model (list of lines, ordered set of warnings)'
)
BOUND = {
    'quick': '11 operations: depth 3 x 12 settings, 7 operations: depth 4 x 1 setting; two assessments: 8 operations, depth 4; 8 warning sources x 2 assessments, depth 2; '
             'complete assessments x 18 settings; 24 sessions in processes of their own',
    'thorough': '11 operations: depth 4 x 12 settings; two assessments: 10 operations, depth 5; 8 warning sources x 2 assessments, depth 3; the rest as in quick',
}
ASSUMPTIONS = [
    'two warnings with the same text are the same warning of an assessment',
    'white space that formats the log (indentation, line breaks around messages) is not compared',
    'unhandled exceptions are written to the log of every assessment (documented)',
]
CHUNK = 60
HORIZON = 400

STAMP = re.compile(r'^(\d\d:\d\d:\d\d)(:\d{6})? ?(.*)$', re.S)
ANSI = re.compile(r'\x1b\[[0-9;]*m')

# -- operations on the logger ------------------------------------------------
OPS = {
    'm': ('msg', 'alpha: 50 % of {x}', {}),
    'M': ('msg', 'beta\ngamma', {}),
    'n': ('msg', 'delta\nepsilon', {'prepend_timestamp': False}),
    'b': ('msg', 'zeta', {'prepend_timestamp': False, 'prepend_blank_space': False}),
    'a': ('add_warning', 'careful A', {}),
    'c': ('add_warning', 'careful\nB "äß"', {}),
    'w': ('warning', 'careful A', {}),
    'v': ('warning', 'careful C', {}),
    'e': ('emit_warnings', None, {}),
    'd': ('div', None, {}),
    'D': ('div', None, {'prepend_timestamp': True}),
}


class Model:
    """What a logger has to have reported."""

    def __init__(self):
        self.lines: list = []
        self.stack: list = []
        self.warned: list = []

    def apply(self, op):
        name, text, kw = OPS[op]
        if name == 'msg':
            for i, line in enumerate(text.split('\n')):
                self.lines.append((kw.get('prepend_timestamp', True) and i == 0, line))
        elif name == 'div':
            self.lines.append((kw.get('prepend_timestamp', False), '-'))
        elif name in {'add_warning', 'warning'}:
            if text not in self.stack:
                self.stack.append(text)
        new = []
        if name in {'warning', 'emit_warnings'}:
            new = [x for x in self.stack if x not in self.warned]
            self.warned += new
            self.stack = []
        return new


def squash(text):
    return ''.join(ANSI.sub('', text).split())


def parse(text, ms):
    """Log text -> list of (has time stamp, line)."""
    out = []
    for line in text.split('\n'):
        m = STAMP.match(line)
        if m and bool(m.group(2)) == bool(ms):
            body, st = m.group(3), True
        else:
            body, st = line.strip(), False
        body = body.strip()
        out.append((st, '-' if len(body) > 20 and set(body) == {'-'} else body))
    return out


def call(a, op):
    name, text, kw = OPS[op]
    f = getattr(a.log, name)
    return f(**kw) if text is None else f(text, **kw)


SETTINGS = [dict(LogShowMS=ms, PrintLog=pl, LogFile=lf) for ms in (False, True) for pl in (False, True) for lf in (None, 'abs', 'rel')]
NAMES = ('log.txt', 'run.1.log', 'plain')


class Session:
    """An assessment with a log in a folder of its own."""

    def __init__(self, cfg, where, name='log.txt'):
        self.dir = where
        self.dir.mkdir(parents=True, exist_ok=True)
        cfg = dict(cfg)
        self.ms = cfg.get('LogShowMS', False)
        self.print = cfg.get('PrintLog', False)
        kind = cfg.pop('LogFile', None)
        old = os.getcwd()
        if kind is not None:
            cfg['LogFile'] = str(self.dir / name) if kind == 'abs' else name
        os.chdir(self.dir)
        try:
            with pel.quiet():
                self.a = pel.asmt(**{'PrintLog': False, **cfg})
        finally:
            os.chdir(old)
        self.file = self.dir / name if kind else None
        stem, ext = os.path.splitext(name)
        self.wfile = self.dir / f'{stem}_warnings{ext}' if kind else None
        self.base = self.text()

    def text(self):
        return self.file.read_text(encoding='utf-8') if self.file else None

    def new(self):
        t = self.text()
        return t, t[len(self.base):]

    def warned(self):
        return self.wfile.read_text(encoding='utf-8') if self.wfile else None


class Recorder:
    """Standard output and captured warnings of a block."""

    def __enter__(self):
        self.o, sys.stdout = sys.stdout, io.StringIO()
        self.out = sys.stdout
        self.c = warnings.catch_warnings(record=True)
        self.w = self.c.__enter__()
        warnings.simplefilter('ignore')
        from pelicun.pelicun_warnings import PelicunWarning

        warnings.filterwarnings('always', category=PelicunWarning)
        return self

    def __exit__(self, *x):
        sys.stdout = self.o
        self.c.__exit__(*x)
        return False

    def messages(self):
        return [squash(str(x.message)) for x in self.w]


def expect_session(obs, s, m, sig):
    """Files of a session against its reference model."""
    if s.file is None:
        names = sorted(p.name for p in s.dir.iterdir())
        obs.check(names == [], f'{sig}:files', names)
        return
    names = sorted(p.name for p in s.dir.iterdir())
    obs.check(names == sorted([s.file.name, s.wfile.name]), f'{sig}:files', names)
    t, new = s.new()
    obs.check(t.startswith(s.base), f'{sig}:log start', 'the beginning of the log was changed')
    got = parse(new, s.ms)
    want = ([(False, '')] if m.lines else [(False, '')]) + m.lines
    obs.check(got == want, f'{sig}:log', f'{got} instead of {want}')
    want_w = ''.join(squash(x) for x in m.warned)
    obs.check(squash(s.warned()) == want_w, f'{sig}:warnings file', f'{s.warned()!r} instead of {m.warned}')


def run_one(sc, obs):
    root = pel.scratch('lg')
    try:
        m = Model()
        cfg = dict(SETTINGS[sc['set']])
        s = Session(cfg, root / 'a', NAMES[sc.get('name', 0)])
        away = root / 'away'
        away.mkdir()
        with Recorder() as r:
            old = os.getcwd()
            try:
                if cfg['LogFile'] == 'rel':
                    os.chdir(away)
                for op in sc['ops']:
                    before = len(r.messages())
                    call(s.a, op)
                    obs.step()
                    new = m.apply(op)
                    got = r.messages()[before:]
                    obs.check(got == [squash(x) for x in new], f'one:{op}:captured', f'{got} instead of {new}')
            finally:
                os.chdir(old)
        expect_session(obs, s, m, 'one')
        obs.check(list(away.iterdir()) == [], 'one:current folder', list(away.iterdir()))
        out = r.out.getvalue()
        want = m.lines if cfg['PrintLog'] else []
        got = parse(out[:-1], s.ms) if out else []
        obs.check(got == want, 'one:printed', f'{got} instead of {want}')
        obs.state(m.lines, m.stack, m.warned, sc['set'])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_two(sc, obs):
    root = pel.scratch('lg')
    try:
        ss, ms = [], []
        for k in range(2):
            ss.append(Session({'LogFile': 'abs' if k else 'rel', 'PrintLog': bool(k), 'LogShowMS': bool(k)}, root / f's{k}'))
            ms.append(Model())
        with Recorder() as r:
            for k, op in sc['ops']:
                before = len(r.messages())
                call(ss[k].a, op)
                obs.step()
                new = ms[k].apply(op)
                got = r.messages()[before:]
                obs.check(got == [squash(x) for x in new], f'two:{op}:captured', f'{got} instead of {new}')
        for k in range(2):
            expect_session(obs, ss[k], ms[k], 'two')
        out = r.out.getvalue()
        obs.check((parse(out[:-1], True) if out else []) == ms[1].lines, 'two:printed', out)
        obs.state([(m.lines, m.stack, m.warned) for m in ms])
    finally:
        shutil.rmtree(root, ignore_errors=True)


# -- operations of the library that warn --------------------------------------
def _missing(a, cmps):
    a.damage.load_model_parameters([flow.dmg_df({'A': {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'dir': 1, 'ls': [
        {'f': 'lognormal', 't0': 3.0, 't1': 0.4}]}})], set(cmps), warn_missing=True)


def _save_none(a):
    from pelicun import file_io

    file_io.save_to_csv(None, None, log=a.log)


def _process(a, source):
    a.demand.load_sample(flow.demand_df({'PFA-1-1': ('mps2', [2.0, 4.0]), 'PFA-1-2': ('mps2', [2.0, 4.0])}))
    a.stories = 1
    a.asset.load_cmp_model({'marginals': flow.marg_df([{'cmp': 'A', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 1.0}])})
    a.asset.generate_cmp_sample(2)
    _missing(a, ['A'])
    a.damage.calculate(dmg_process={'1_A': {'DS1': 'Q_DS1'}} if source == 'target' else {'1_Q': {'DS1': 'A_NA'}})


def _clone(a):
    a.demand.load_sample(flow.demand_df({'PFA-1-1': ('mps2', [2.0, 4.0, 3.0]), 'PFA-1-2': ('mps2', [2.5, 4.2, 2.0])}))
    a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
    a.demand.generate_sample({'SampleSize': 2, 'DemandCloning': {'PFA-1-1': ['PFA-1-1', 'PFA-1-3'], 'PFA-7-7': ['PFA-7-8']}})


WARN = {
    'br': (lambda a: a.bldg_repair, '`.bldg_repair`isdeprecated'),
    'rp': (lambda a: a.repair, '`.repair`isdeprecated'),
    'sv': (_save_none, 'Datawasempty'),
    'm1': (lambda a: _missing(a, ['A', 'Z']), "inthe assetmodel:['Z']".replace(' ', '')),
    'm2': (lambda a: _missing(a, ['Y', 'A']), "inthe assetmodel:['Y']".replace(' ', '')),
    'ps': (lambda a: _process(a, 'source'), 'Sourcecomponent`Q`'),
    'pt': (lambda a: _process(a, 'target'), 'Targetcomponent`Q`'),
    'cl': (_clone, "columns:['PFA-7-7']"),
}


def run_sources(sc, obs):
    root = pel.scratch('lg')
    try:
        ss = [Session({'LogFile': 'abs'}, root / f's{k}') for k in range(2)]
        texts: list = [[], []]
        for k, src in sc['ops']:
            f, key = WARN[src]
            with Recorder() as r:
                f(ss[k].a)
                obs.step()
            got = r.messages()
            seen = [x for x in texts[k] if key in x]
            obs.check([x for x in got if key in x] == (got if not seen else []) and (len(got) == 1 if not seen else True), f'source:{src}:captured',
                      f'{got} after {texts[k]}')
            obs.check(len(set(got)) == len(got) and not set(got) & set(texts[k]), f'source:{src}:repeated', got)
            texts[k] += got
        for k in range(2):
            obs.check(squash(ss[k].warned()) == ''.join(texts[k]), 'source:warnings file', f'{ss[k].warned()!r} instead of {texts[k]}')
        obs.state(texts)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# -- complete assessments -----------------------------------------------------
def workflow(s, seed=3):
    """Results, log lines, printed lines, captured warnings."""
    a = s.a
    steps = []
    with Recorder() as r:
        for st in full.STEPS:
            full.step(a, st, n=20)
        _ = a.repair
        a.damage.load_model_parameters([full.damage_params()], {'A', 'B', 'C', 'collapse', 'Q'}, warn_missing=True)
        df, ex = full.aggregate(a)
        df2 = a.loss.aggregate_losses()
        _ = a.repair
        a.damage.save_sample()
        steps = full.results(a)
    return {**{k: fp(v) for k, v in steps.items()}, 'agg': fp(df), 'ex': fp(ex), 'agg2': fp(df2)}, r


FLOWS = [dict(LogShowMS=ms, PrintLog=pl, LogFile=lf, Verbose=vb) for ms in (False, True) for pl in (False, True) for lf in (None, 'abs') for vb in (False, True)]
_REF: dict = {}


def reference(vb):
    if vb not in _REF:
        root = pel.scratch('lgr')
        s = Session({'LogFile': 'abs', 'Verbose': vb, 'Seed': 3}, root / 'a')
        res, r = workflow(s)
        _REF[vb] = (res, parse(s.new()[1], False), r.messages(), squash(s.warned()))
        shutil.rmtree(root, ignore_errors=True)
    return _REF[vb]


def lines_of(x):
    return [line for _, line in x if line]


def run_flow(sc, obs):
    cfg = FLOWS[sc['flow']]
    root = pel.scratch('lg')
    try:
        ref, rlog, rmsg, rfile = reference(cfg['Verbose'])
        quiet_ref = reference(False)
        s = Session({**cfg, 'Seed': 3}, root / 'a')
        other = Session({'LogFile': 'abs', 'PrintLog': sc.get('other', False), 'LogShowMS': False}, root / 'b') if 'other' in sc else None
        o0 = None if other is None else (other.text(), other.warned())
        res, r = workflow(s)
        obs.step(12)
        d = diff(res, quiet_ref[0])
        obs.check(d == [], 'flow:results', d)
        msgs = r.messages()
        obs.check(len(msgs) == len(set(msgs)), 'flow:warnings twice', msgs)
        keys = ('`.repair`isdeprecated', "inthe assetmodel:['Q']".replace(' ', ''), '`aggregate_losses`hasbeenexpanded')
        got = [[k for k in keys if k in x] for x in msgs]
        obs.check([k for g in got for k in g] == list(keys), 'flow:warnings', msgs)
        obs.check(msgs == quiet_ref[2], 'flow:warnings depend on settings', f'{msgs} instead of {quiet_ref[2]}')
        if s.file:
            log = parse(s.new()[1], cfg['LogShowMS'])
            obs.check(log == rlog, 'flow:log depends on settings', [x for x in zip(log, rlog) if x[0] != x[1]][:3])
            obs.check(squash(s.warned()) == ''.join(msgs), 'flow:warnings file', s.warned())
            if cfg['Verbose']:
                it = iter(lines_of(log))
                miss = [x for x in lines_of(quiet_ref[1]) if x not in it]
                obs.check(miss == [], 'flow:verbose', miss)
        out = r.out.getvalue()
        if cfg['PrintLog']:
            obs.check(lines_of(parse(out, cfg['LogShowMS'])) == lines_of(rlog), 'flow:printed', out[:300])
        else:
            obs.check(out == '', 'flow:printed', out[:300])
        for word in ('demand', 'component', 'damage', 'loss'):
            obs.check(any(word in line.lower() for line in lines_of(rlog)), f'flow:{word}', 'not in the log')
        if other is not None:
            obs.check((other.text(), other.warned()) == o0, 'flow:other log', 'log of another assessment changed')
        obs.state(res, sc['flow'])
    finally:
        shutil.rmtree(root, ignore_errors=True)


# -- processes ----------------------------------------------------------------
SCRIPT = '''
import sys, os
sys.path.insert(0, {repo!r})
{pre}
from pelicun.assessment import Assessment
a = Assessment({{'PrintLog': {pl}, 'LogFile': {lf!r}, 'Verbose': False}})
b = Assessment({{'PrintLog': False, 'LogFile': {lf2!r}}})
print('=====', flush=True)
for k in range({rep}):
    a.log.msg('message %d' % k)
    a.repair
    b.repair
    b.log.warning('only b')
    a.log.add_warning('later')
a.log.emit_warnings()
{end}
'''
PROCS = [(pl, pre, opt, rep, end)
         for pl in (False, True)
         for pre in ('', 'import warnings; warnings.simplefilter("ignore")')
         for opt in ((), ('-W', 'ignore'))
         for rep, end in ((1, ''), (3, ''), (2, 'raise RuntimeError("the reason")'))]


def run_proc(sc, obs):
    pl, pre, opt, rep, end = PROCS[sc['proc']]
    root = pel.scratch('lg')
    try:
        lf, lf2 = str(root / 'a.log'), str(root / 'b.log')
        p = root / 'session.py'
        p.write_text(SCRIPT.format(repo=str(pel.REPO), pre=pre, pl=pl, lf=lf, lf2=lf2, rep=rep, end=end))
        r = subprocess.run([sys.executable, '-B', *opt, str(p)], capture_output=True, text=True, cwd=root, timeout=120, check=False,
                           env={**{k: v for k, v in os.environ.items() if k != 'PYTHONWARNINGS'}, 'PYTHONDONTWRITEBYTECODE': '1'})
        obs.step()
        obs.check((r.returncode == 0) == (end == ''), 'process:end', r.stderr[-500:])
        err = squash(r.stdout + r.stderr)
        # settings of the interpreter may silence the terminal, never the file
        # (python itself shows equal warnings from one place only once)
        want = {'.repair`isdeprecated': (1, 2), 'onlyb': (1,), 'later': (1,)}
        silenced = bool(opt) or bool(pre)
        for k, n in want.items():
            c = err.count(k)
            # source lines may be quoted after the message
            quoted = err.count("add_warning('later')") if k == 'later' else err.count("b.log.warning('onlyb')") if k == 'onlyb' else 0
            obs.check(c - quoted in n or (silenced and c - quoted <= max(n)), f'process:stderr:{k}', f'{c - quoted} times: {r.stderr}')
        wa, wb = (squash((root / f'{x}_warnings.log').read_text()) for x in 'ab')
        obs.check(wa.count('.repair`isdeprecated') == 1 and wa.count('later') == 1 and 'onlyb' not in wa, 'process:file a', wa)
        obs.check(wb.count('.repair`isdeprecated') == 1 and wb.count('onlyb') == 1 and 'later' not in wb, 'process:file b', wb)
        la, lb = Path(lf).read_text(), Path(lf2).read_text()
        for k in range(rep):
            obs.check(la.count(f'message {k}') == 1 and f'message {k}' not in lb, 'process:log', la)
            printed = r.stdout.partition('=====')[2].count(f'message {k}')
            obs.check(printed == (1 if pl else 0), 'process:stdout', r.stdout)
        if end:
            obs.check('RuntimeError: the reason' in la and 'RuntimeError: the reason' in r.stderr, 'process:exception', la + r.stderr)
        obs.state(sc['proc'])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(sc, obs):
    f = {'one': run_one, 'two': run_two, 'src': run_sources, 'flow': run_flow, 'proc': run_proc}[sc['kind']]
    with contextlib.suppress(FileNotFoundError):
        os.chdir(pel.SCRATCH)
    f(sc, obs)
    obs.outcomes.add(sc['kind'])


def scenarios(tier):
    th = tier == 'thorough'
    for d in range(4):
        for ops in itertools.product(OPS, repeat=d):
            for k in range(len(SETTINGS)):
                yield {'kind': 'one', 'ops': ''.join(ops), 'set': k, 'name': (k + d) % 3 if d < 3 else 0}
    for ops in itertools.product(OPS if th else 'mMacwve', repeat=4):
        for k in range(len(SETTINGS)) if th else (4,):
            yield {'kind': 'one', 'ops': ''.join(ops), 'set': k}
    two = [(k, o) for k in range(2) for o in ('mawed' if th else 'mawe')]
    for d in range(1, 6 if th else 5):
        for ops in itertools.product(two, repeat=d):
            if ops[0][0] == 1 and d > 2 and not th:
                continue
            yield {'kind': 'two', 'ops': [list(o) for o in ops]}
    src = [(k, o) for k in range(2) for o in WARN]
    for d in range(1, 4 if th else 3):
        for ops in itertools.product(src, repeat=d):
            yield {'kind': 'src', 'ops': [list(o) for o in ops]}
    for k in range(len(FLOWS)):
        yield {'kind': 'flow', 'flow': k}
    for o in (False, True):
        yield {'kind': 'flow', 'flow': 5, 'other': o}
    for k in range(len(PROCS)):
        yield {'kind': 'proc', 'proc': k}
