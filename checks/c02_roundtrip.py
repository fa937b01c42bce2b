"""C02: saved samples and models load back to the same state."""

from __future__ import annotations

import itertools
import shutil

import numpy as np
import pandas as pd

from mc import flow, full, large, pel
from mc.lossref import uf

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = (
    'explicit exploration of save/load detours: the workflow of a complete assessment with every subset of the seven points at which its state '
    'can be saved and loaded into a fresh assessment, through files or memory; what is loaded, what is saved from it again, and all later '
    'results are compared with those of the uninterrupted workflow; and every kind of table in every admissible shape loaded, saved, loaded'
)
BOUND = {
    'quick': 'all 128 subsets of 7 detours x file/memory (1 block; with base units only pairs and all), all 8 subsets of demand detours with several blocks; 5 kinds of tables x labels x units x shapes, with up to 297 columns and 120 realizations; large buildings; demand models of 8 families x truncation x correlation x units',
    'thorough': 'the same with 5 sets of units, 2 sampling methods and 2 calibrations',
}
ASSUMPTIONS = [
    'numbers survive a file up to the last digits of the decimal representation (relative tolerance 1e-11)',
    'component samples do not carry the number of blocks (groups loaded from a sample have one block)',
    'the state of the random generator is not part of what is saved; every step is seeded',
]
CHUNK = 4
HORIZON = 300

POINTS = ['raw', 'model', 'gen', 'cmp', 'dmg', 'ds', 'loss']
UNITS = [
    {},
    {'PFA': 'g', 'SA_1.0': 'inps2', 'PFV': 'inps', 'PID': 'rad', 'A': 'ft2', 'L': 'in2', 'B': 'ea', 'M': 'ft', 'cost': 'loss_ratio', 'time': 'day', 'carbon': 'lb',
     'dA': 'g', 'dC': 'ftps2', 'xL': 'g', 'qA': '100 ft2', 'qL': '1 ft2', 'qM': '10 ft'},
    {'PFA': 'ftps2', 'PFV': 'mph', 'A': 'cm2', 'L': 'SF', 'M': 'inch', 'time': 'hour', 'carbon': 'ton'},
    {'SA_1.0': 'g', 'PFV': 'cmps', 'A': 'mm2', 'L': 'inch2', 'B': 'AP', 'M': 'LF', 'time': 'sec'},
    {'PFA': 'inchps2', 'PFV': 'ftps', 'A': 'km2', 'L': 'mile2', 'M': 'mile', 'time': 'minute'},
]
CAL = [None, {'ALL': {'DistributionFamily': 'empirical'}}]


def scenarios(tier):
    th = tier != 'quick'
    cfg = [(u, 0, 'LHS', 0) for u in range(2)]
    if th:
        cfg = [(u, c, m, 0) for u in range(5) for c in range(2) for m in ('LHS', 'MonteCarlo')]
    for (u, c, m, b), form, pts in itertools.product(cfg, ('file', 'mem'), range(1 << 7)):
        if not th and not u and 2 < pts.bit_count() < 7:
            continue
        yield {'k': 'flow', 'u': u, 'c': c, 'm': m, 'b': b, 'form': form, 'pts': [p for i, p in enumerate(POINTS) if pts >> i & 1]}
    for u, c, form, pts in itertools.product(range(5 if th else 3), range(2), ('file', 'mem'), range(1, 8)):
        yield {'k': 'flow', 'u': u, 'c': c, 'm': 'LHS', 'b': 1, 'form': form, 'pts': [p for i, p in enumerate(POINTS[:3]) if pts >> i & 1]}
    for form, n, lab, un in itertools.product(('file', 'mem'), (1, 2, 12), range(len(DEMAND)), range(4)):
        yield {'k': 'demand', 'form': form, 'n': n, 'l': lab, 'u': un}
    for form, n, lab, un in itertools.product(('file', 'mem'), (1, 3, 12), range(len(CMP)), range(4)):
        yield {'k': 'cmp', 'form': form, 'n': n, 'l': lab, 'u': un}
    for form, n, lab, un in itertools.product(('file', 'mem'), (1, 3, 12), range(len(DMG)), range(4)):
        yield {'k': 'dmg', 'form': form, 'n': n, 'l': lab, 'u': un}
    for form, n, lab, un, how in itertools.product(('file', 'mem'), (1, 3, 12), range(len(LOSS)), range(4), ('ds', 'loss')):
        yield {'k': 'loss', 'form': form, 'n': n, 'l': lab, 'u': un, 'how': how}
    # large tables: many columns or many realizations
    for form, un, n, k in itertools.product(('file', 'mem'), (1, 3), (2, 120), ('demand', 'cmp', 'dmg', 'ds', 'loss')):
        yield {'k': 'loss' if k == 'ds' else k, 'form': form, 'n': n, 'l': 'wide' if n == 2 else 'long', 'u': un, 'how': k}
    # large buildings: analysis continued from what was saved
    for form, v, pts in itertools.product(('file', 'mem'), range(6), (['gen'], ['cmp'], ['gen', 'cmp', 'dmg'])):
        yield {'k': 'large', 'form': form, 'v': v, 'pts': pts}
    for form, fam, tr, co, un in itertools.product(('file', 'mem'), FAM, range(4), (0, 1), range(4)):
        yield {'k': 'model', 'form': form, 'f': fam, 't': tr, 'co': co, 'u': un}


# ---------------------------------------------------------------------------
def table(s, u):
    """Sample and units as a table with a Units row and simple labels."""
    df = s.astype(object)
    df.columns = ['-'.join(map(str, c)) for c in df.columns]
    top = pd.DataFrame([[u[c] for c in s.columns]], columns=df.columns, index=['Units'], dtype=object)
    return pd.concat([top, df])


class Ctx:
    """Saving and loading through a file or memory, with comparisons."""

    def __init__(self, obs, form):
        self.obs, self.form = obs, form
        self.d = pel.scratch('rt')
        self.n = 0

    def save(self, fn):
        """What a save function provides, as something that can be loaded."""
        s, u = fn(save_units=True)
        u = {c: u[c] for c in s.columns}
        if self.form == 'mem':
            return s, u, table(s, u)
        self.n += 1
        p = self.d / f's{self.n}.csv'
        self.obs.check(fn(str(p)) is None, 'save:returns')
        return s, u, str(p)

    def cycle(self, fn_save, load, sig, what):
        """Save, load with ``load`` and compare; returns what was saved."""
        s, u, src = self.save(fn_save)
        keep = src.copy() if isinstance(src, pd.DataFrame) else None
        fn2 = load(src)
        if keep is not None:
            self.obs.check(keep.equals(src), f'{sig}:input', f'{what}: loading changed the table of the caller')
        s2, u2, src2 = self.save(fn2)
        self.same(s2, u2, s, u, sig, what)
        fn3 = load(src2)
        s3, u3, src3 = self.save(fn3)
        self.same(s3, u3, s2, u2, f'{sig}:again', what)
        if self.form == 'file':
            a, b = (pd.read_csv(x, index_col=0, low_memory=False) for x in (src2, src3))
            self.obs.eq(a.columns.tolist(), b.columns.tolist(), f'{sig}:file', what)
            self.obs.eq(a.index.astype(str).tolist(), b.index.astype(str).tolist(), f'{sig}:file', what)
        self.obs.step(8)
        return src

    def same(self, s, u, s0, u0, sig, what):
        lab = [tuple(map(str, c)) for c in s.columns]
        lab0 = [tuple(map(str, c)) for c in s0.columns]
        if not self.obs.eq(sorted(lab), sorted(lab0), f'{sig}:labels', what):
            return
        self.obs.eq({str(k): v for k, v in u.items()}, {str(k): v for k, v in u0.items()}, f'{sig}:units', what)
        o, o0 = sorted(range(len(lab)), key=lab.__getitem__), sorted(range(len(lab0)), key=lab0.__getitem__)
        self.obs.close(s.iloc[:, o].to_numpy(float), s0.iloc[:, o0].to_numpy(float), f'{sig}:values', what, rtol=1e-11, atol=0)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------------------
def prep(a, sc, name):
    """Perform a step with its own seed."""
    a.options.seed = 100 + 7 * full.STEPS.index(name)
    un = UNITS[sc['u']]
    if name == 'calibrate' and sc['c']:
        a.demand.calibrate_model(CAL[sc['c']])
    elif name == 'asset' and not sc['b']:
        m = full.marginals(un)
        m['Blocks'] = 1
        a.stories = 10
        a.asset.load_cmp_model({'marginals': m})
    elif name == 'map':
        a.loss.decision_variables = full.DVS
        a.loss.add_loss_map(full.loss_map(), 'fill')
    else:
        full.step(a, name, un=un)


def new(sc):
    return pel.asmt(Seed=1, Sampling={'SamplingMethod': sc['m']})


_BASE: dict = {}


def same_file(obs, got, want, sig, what):
    """Tables with numbers and texts."""
    if not obs.eq([got.columns.tolist(), got.index.tolist()], [want.columns.tolist(), want.index.tolist()], sig, what):
        return
    for col in want:
        g, w = (pd.to_numeric(x[col], errors='coerce').to_numpy(float) for x in (got, want))
        obs.close(g, w, sig, f'{what} {col}', rtol=1e-10, atol=0)
        obs.eq([str(x) for x, v in zip(got[col], g) if v != v], [str(x) for x, v in zip(want[col], w) if v != v], sig, f'{what} {col}')


def snapshot(a):
    out = full.results(a)
    out.pop('marginals', None)
    if a.loss.sample is not None:
        out['loss'] = a.loss.sample
        agg, ex = full.aggregate(a)
        out['agg'], out['ex'] = agg, ex.astype(float)
    return out


def base(sc):
    key = (sc['u'], sc['c'], sc['m'], sc['b'])
    if key not in _BASE:
        a = new(sc)
        for s in full.STEPS:
            prep(a, sc, s)
        _BASE[key] = snapshot(a)
    return _BASE[key]


def run_flow(sc, obs):
    want = base(sc)
    pts = set(sc['pts'])
    c = Ctx(obs, sc['form'])
    src: dict = {}
    have: list = []
    a = new(sc)

    def fresh():
        """Another assessment with everything saved so far."""
        b = new(sc)
        b.stories = 10
        if 'gen' in src:
            b.demand.load_sample(src['gen'])
        elif 'raw' in src:
            b.demand.load_sample(src['raw'])
        if 'cmp' in src:
            b.asset.load_cmp_sample(src['cmp'])
        if 'dmg' in src:
            b.damage.load_sample(src['dmg'])
        return b

    def detour(point, fn, load):
        nonlocal a
        src[point] = c.cycle(fn, load, f'flow:{point}', f'{sc}')
        have.append(point)
        obs.state(point, sorted(have), sc['u'], sc['form'])

    for s in full.STEPS:
        if s in ('dmgpar', 'map', 'losspar'):
            continue
        if s == 'asset' and 'cmp' in src:
            continue
        if s == 'dmg':
            prep(a, sc, 'dmgpar')
        if s == 'loss':
            prep(a, sc, 'map')
            prep(a, sc, 'losspar')
        prep(a, sc, s)
        obs.step()
        if s == 'demand' and 'raw' in pts:
            detour('raw', a.demand.save_sample, lambda x: loaded(sc, 'demand', x).demand.save_sample)
            a = fresh()
        if s == 'calibrate' and 'model' in pts:
            b = new(sc)
            p = str(c.d / 'model')
            if sc['form'] == 'file':
                a.demand.save_model(p)
                b.demand.load_model(p)
                b.demand.save_model(p + '2')
                for x in ('_marginals', '_correlation', '_empirical'):
                    if (c.d / f'model{x}.csv').exists():
                        f1, f2 = (pd.read_csv(f'{p}{n}{x}.csv', index_col=0) for n in ('', '2'))
                        same_file(obs, f2, f1, 'flow:model:file', f'{sc} {x}')
            else:
                # (as a dictionary, in base units)
                bu = {'PFA': 'mps2', 'SA_1.0': 'mps2', 'PFV': 'mps', 'PID': 'unitless'}
                m = a.demand.marginal_params.copy()
                m['Units'] = [bu[x[0]] for x in m.index]
                d = {'marginals': m}
                if a.demand.correlation is not None and not a.demand.correlation.empty:
                    d['correlation'] = a.demand.correlation.copy()
                if a.demand.empirical_data is not None:
                    d['empirical'] = a.demand.empirical_data.copy()
                b.demand.load_model(d)
            obs.step(3)
            for x in ('marginal_params', 'correlation', 'empirical_data'):
                got, exp = getattr(b.demand, x), getattr(a.demand, x)
                if exp is not None and exp.empty:
                    exp = None
                if not obs.check((got is None) == (exp is None), f'flow:model:{x}', f'{sc} {x}'):
                    continue
                if exp is not None:
                    obs.eq(list(map(str, got.index)), list(map(str, exp.index)), f'flow:model:{x}', f'{sc}')
                    obs.eq(list(map(str, got.columns)), list(map(str, exp.columns)), f'flow:model:{x}', f'{sc}')
                    for col in exp:
                        if col == 'Family':
                            obs.eq(got[col], exp[col], f'flow:model:{x}', f'{sc} {col}')
                        else:
                            obs.close(got[col].astype(float), exp[col].astype(float), f'flow:model:{x}', f'{sc} {col}', rtol=1e-10)
            b.stories = 10
            a = b
        if s == 'generate' and 'gen' in pts:
            detour('gen', a.demand.save_sample, lambda x: loaded(sc, 'demand', x).demand.save_sample)
            a = fresh()
        if s == 'cmp' and 'cmp' in pts:
            if 'gen' not in src:
                src['gen'] = c.save(a.demand.save_sample)[2]
            detour('cmp', a.asset.save_cmp_sample, lambda x: loaded(sc, 'asset', x).asset.save_cmp_sample)
            a = fresh()
        if s == 'dmg' and 'dmg' in pts:
            for x, f in (('gen', a.demand.save_sample), ('cmp', a.asset.save_cmp_sample)):
                if x not in src:
                    src[x] = c.save(f)[2]
            detour('dmg', a.damage.save_sample, lambda x: loaded(sc, 'damage', x).damage.save_sample)
            a = fresh()
    got = snapshot(a)
    for p, m in (('ds', a.loss.ds_model), ('loss', a.loss)):
        if p in pts:
            def load(x, p=p):
                b = new(sc)
                (b.loss.ds_model if p == 'ds' else b.loss).load_sample(x)
                return (b.loss.ds_model if p == 'ds' else b.loss).save_sample

            x = c.cycle(m.save_sample, load, f'flow:{p}', f'{sc}')
            obs.state(p, sorted(have), sc['u'], sc['form'])
            if p == 'loss':
                # aggregation of the losses that were loaded
                b = new(sc)
                b.loss.load_sample(x)
                b.loss.decision_variables = full.DVS
                agg, ex = full.aggregate(b)
                obs.eq(agg.columns.tolist(), got['agg'].columns.tolist(), 'flow:agg:labels', f'{sc}')
                obs.close(agg.to_numpy(float), got['agg'].to_numpy(float), 'flow:agg', f'{sc}', rtol=1e-9)
                obs.close(ex.to_numpy(float), got['ex'].to_numpy(float), 'flow:agg', f'{sc}')
                obs.step(2)
    rtol = 1e-5 if {'raw', 'model'} & pts else 1e-9
    for k, w in want.items():
        g = got.get(k)
        if g is None:
            obs.check('dmg' in pts or k not in got, f'flow:result:{k}', f'{sc}: no {k}')
            if k in ('demand', 'cmp', 'damage', 'ds', 'lf', 'loss', 'agg'):
                obs.fail(f'flow:result:{k}', f'{sc}: no {k}')
            continue
        gl, wl = ([tuple(map(str, x)) if isinstance(x, tuple) else str(x) for x in f.columns] for f in (g, w))
        if obs.eq(sorted(gl), sorted(wl), f'flow:result:{k}:labels', f'{sc}'):
            og, ow = sorted(range(len(gl)), key=gl.__getitem__), sorted(range(len(wl)), key=wl.__getitem__)
            obs.close(g.iloc[:, og].to_numpy(float), w.iloc[:, ow].to_numpy(float), f'flow:result:{k}', f'{sc}', rtol=rtol, atol=1e-9)
            obs.eq(g.index.tolist(), w.index.tolist(), f'flow:result:{k}:rows', f'{sc}')
    obs.state(sc, got['loss'])
    c.close()


def loaded(sc, what, x):
    """A fresh assessment with just one sample."""
    b = new(sc) if 'm' in sc else pel.asmt(Seed=1)
    if what == 'demand':
        b.demand.load_sample(x)
    elif what == 'asset':
        b.asset.load_cmp_sample(x)
    elif what == 'damage':
        b.damage.load_sample(x)
    return b


# ---------------------------------------------------------------------------
# tables of any shape: labels without and with all optional levels
DEMAND = [
    [('PFA', '1', '1')], [('PID', '10', '2'), ('PFA', '2', '1'), ('PFA', '10', '1'), ('PFA', '1', '1')],
    [('SA_1.0', '0', '1'), ('SA_0.25', '0', '1'), ('PFV', '12', '3')], [('1', 'PFA', '1', '1'), ('1', 'PFA', '10', '1'), ('1', 'PID', '1', '2')],
    [('PFA', ' 1', '1 '), (' PID', '1', '2')], [('Any_name.x', '3', '7'), ('PFA', '0', '1')],
]
CMP = [
    [('B.10.20.001a', '1', '1')], [('X', '1', '1'), ('X', '10', '1'), ('X', '2', '1'), ('Y', '1', '10')],
    [('X', '1', '1', '0'), ('X', '1', '1', '1'), ('X', '1', '1', '10'), ('X', '1', '1', '2'), ('Y', '1', '1', '0')],
    [('X', '1', '1'), ('X', '1', '1'), ('X', '1', '2'), ('Y', '1', '1'), ('Y', '1', '1')],
]
DMG = [
    [('X', '1', '1', '0', '0'), ('X', '1', '1', '0', '1')],
    [(c, loc, '1', uid, d) for c in ('X', 'Y.1') for loc in ('1', '10', '2') for uid in ('0', '10') for d in ('0', '1', '10', '2')],
    [('X', '1', '1', '0', '-1'.replace('-', '')), ('Y.1', '0', '1', '0', '2')],
]
LOSS = [
    [('Cost', 'repX', 'X', '1', '1', '1', '0')],
    [(v, 'r' + c, c, d, loc, '1', uid) for v in ('Cost', 'Time') for c in ('X', 'Y') for d in ('1', '10') for loc in ('1', '10') for uid in ('0', '1')],
    [(v, 'r' + c, c, d, loc, '1') for v in ('Carbon', 'Time') for c in ('X', 'Y') for d in ('1', '2') for loc in ('1', '10')],
    [('Energy', 'A', 'A', '1', '1', '1', '0'), ('Cost', 'B', 'B', '1', '1', '1', '0'), ('Time', 'A', 'B', '1', '1', '1', '0')],
]
LONG = {'demand': DEMAND[1], 'cmp': CMP[2], 'dmg': DMG[0], 'loss': LOSS[0]}
WIDE = {
    'demand': [(t, str(loc), str(d)) for t in ('PFA', 'PID', 'SA_1.0') for loc in range(26, 0, -1) for d in (2, 1, 11)],
    'cmp': [(f'X.{c}', str(loc), str(d), str(u)) for c in range(12) for loc in (1, 2, 10, 11) for d in (1, 2) for u in range(1 + 11 * (loc == 10))],
    'dmg': [(f'X.{c}', str(loc), '1', str(u), str(d)) for c in range(4) for loc in (1, 2, 11) for u in range(13) for d in (0, 1, 2, 3, 12)],
    'loss': [(v, f'r{c}', f'X.{c}', str(d), str(loc), '1', str(u)) for v in ('Time', 'Cost') for c in range(11) for d in (1, 2, 12) for loc in (1, 3, 21) for u in (0, 1, 11)],
}


def labels_of(what, lab):
    if lab in ('wide', 'long'):
        return (WIDE if lab == 'wide' else LONG)[what]
    return {'demand': DEMAND, 'cmp': CMP, 'dmg': DMG, 'loss': LOSS}[what][lab]


DU = {'PFA': ['mps2', 'g', 'inps2', None], 'PID': ['unitless', 'rad', 'unitless', None], 'SA': ['g', 'mps2', 'ftps2', None], 'PFV': ['mps', 'inps', 'cmps', None],
      'Any': ['ft', 'm', 'in', None]}
CU = [['EA', 'ft2'], ['m2', 'SF'], ['ft', 'ea'], ['cm2', 'in2']]
LU = {'Cost': ['USD_2011', 'loss_ratio', 'USD', 'USD_2011'], 'Time': ['worker_day', 'day', 'hour', 'minute'], 'Carbon': ['kg', 'lb', 'ton', 'kg'], 'Energy': ['J', 'J', 'J', 'J']}


def values(k, n, whole=False):
    return [float((i * 7 + k * 3) % 11) if whole else 0.1 + ((i * 37 + k * 11) % 23) / 7.0 for i in range(n)]


def source(c, labels, units, n, whole=False, zero=False):
    """Table to start from."""
    df = pd.DataFrame({i: [units[i], *values(i, n, whole)] for i in range(len(labels))}, index=['Units', *range(n)], dtype=object)
    if zero and n > 1:
        df.iloc[1:, 0] = 0.0
        df.iloc[2, -1] = 1e-300
        df.iloc[1, -1] = 1.23456789012345e12
    df.columns = ['-'.join(x) for x in labels]
    if all(u is None for u in units):
        df = df.drop(index='Units')
    if c.form == 'mem':
        return df
    p = c.d / 'src.csv'
    df.to_csv(p)
    return str(p)


def check_table(sc, obs, c, what, labels, units, fn, strip, whole=False):
    """Load a table, compare, and cycle twice."""
    n = sc['n']
    src = source(c, labels, units, n, whole, zero=True)
    raw = pd.read_csv(src, index_col=0, low_memory=False) if c.form == 'file' else src
    save = fn(src)
    if all(u is None for u in units):
        # base units, no units to report
        s = save()
        u: dict = {}
    else:
        s, u = save(save_units=True)
    got = [tuple(map(str, x)) for x in s.columns]
    obs.eq(sorted(x[: len(strip(labels[0]))] for x in got), sorted(strip(x) for x in labels), f'{what}:labels', f'{sc}')
    seen: dict = {}
    for i, lab in enumerate(labels):
        key = strip(lab)
        match = [g for g in got if g[: len(key)] == key]
        j = seen.get(key, 0)
        seen[key] = j + 1
        vals = [raw.iloc[r, i] for r in range(0 if units[i] is None and all(x is None for x in units) else 1, len(raw))]
        if not obs.check(len(match) > j, f'{what}:labels', f'{sc}: {key}'):
            return
        obs.close(s[match[j]].to_numpy(float), [float(v) for v in vals], f'{what}:values', f'{sc}: {lab}', rtol=1e-11, atol=0)
        if len(u):
            obs.eq(u[match[j]], units[i], f'{what}:units', f'{sc} {lab}')
    if len(u):
        c.cycle(save, fn, what, f'{sc}')
    obs.step(2)
    obs.state(sc, s)


def run_demand(sc, obs):
    c = Ctx(obs, sc['form'])
    labels = labels_of('demand', sc['l'])
    event = len(labels[0]) == 4

    def strip(x):
        return tuple(v.replace(' ', '') for v in (x[1:] if event else x))

    units = [DU[strip(x)[0].split('_')[0]][sc['u']] for x in labels]

    def fn(x):
        a = loaded(sc, 'demand', x)
        for i, lab in enumerate(labels):
            f = uf(units[i]) if units[i] else 1.0
            if a.demand.sample is not None and first[0]:
                obs.close(a.demand.sample[strip(lab)].to_numpy(float), [v * f for v in start[i]], 'demand:base', f'{sc} {lab}', rtol=1e-11, atol=0)
        first[0] = False
        return a.demand.save_sample

    first = [True]
    start = [values(i, sc['n']) for i in range(len(labels))]
    if sc['n'] > 1:
        start[0] = [0.0] * sc['n']
        start[-1][1], start[-1][0] = 1e-300, 1.23456789012345e12
    check_table(sc, obs, c, 'demand', labels, units, fn, strip)
    c.close()


def run_cmp(sc, obs):
    c = Ctx(obs, sc['form'])
    labels = labels_of('cmp', sc['l'])
    if len(set(labels)) < len(labels) and sc['form'] == 'file':
        # columns of a file cannot have the same name
        obs.step()
        return
    units = [CU[sc['u']][int(x[0] != 'X')] for x in labels]
    check_table(sc, obs, c, 'cmp', labels, units, lambda x: loaded(sc, 'asset', x).asset.save_cmp_sample, lambda x: x)
    c.close()


def run_dmg(sc, obs):
    c = Ctx(obs, sc['form'])
    labels = labels_of('dmg', sc['l'])
    units = [CU[sc['u']][int(x[0] != 'X')] for x in labels]
    check_table(sc, obs, c, 'dmg', labels, units, lambda x: loaded(sc, 'damage', x).damage.save_sample, lambda x: x, whole=True)
    c.close()


def run_loss(sc, obs):
    c = Ctx(obs, sc['form'])
    labels = labels_of('loss', sc['l'])
    units = [LU[x[0]][sc['u']] for x in labels]

    def fn(x):
        a = pel.asmt(Seed=1)
        if sc['how'] == 'ds':
            got = a.loss.ds_model.load_sample(x)
            obs.eq(got, {v: LU[v][sc['u']] for v in {y[0] for y in labels}}, 'loss:dv units', f'{sc}')
            return a.loss.ds_model.save_sample
        a.loss.load_sample(x)
        return a.loss.save_sample

    check_table(sc, obs, c, 'loss', labels, units, fn, lambda x: x)
    c.close()


def run_large(sc, obs):
    """Damage of a large building, with the samples saved and loaded on the way."""
    v, pts = sc['v'], sc['pts']
    comps, rows = large.parts(v)
    rows = [{**r, 'Blocks': 1} for r in rows]
    st = large.sizes(v)[0]
    dem = large.demand(st)
    unit = {x[3]: x[1] for x in large.TYPES}
    opts = {'NonDirectionalMultipliers': large.MULT, 'ListAllDamageStates': True, 'Seed': 7}
    res = []
    for det in ([], pts):
        c = Ctx(obs, sc['form'])
        a = flow.start({'-'.join(k): [unit[k[0]], x] for k, x in dem.items()}, rows, opts=opts)
        a.stories = st
        if det:
            b = pel.asmt(**opts)
            b.stories = st
            if 'gen' in det:
                src = c.cycle(a.demand.save_sample, lambda x: loaded(sc, 'demand', x).demand.save_sample, 'large:gen', f'{sc}')
                b.demand.load_sample(src)
            else:
                b.demand.load_sample(c.save(a.demand.save_sample)[2])
            if 'cmp' in det:
                src = c.cycle(a.asset.save_cmp_sample, lambda x: loaded(sc, 'asset', x).asset.save_cmp_sample, 'large:cmp', f'{sc}')
                b.asset.load_cmp_sample(src)
            else:
                b.asset.load_cmp_model({'marginals': flow.marg_df(rows)})
                b.asset.generate_cmp_sample()
            a = b
        flow.damage(a, comps)
        if 'dmg' in det:
            src = c.cycle(a.damage.save_sample, lambda x: loaded(sc, 'damage', x).damage.save_sample, 'large:dmg', f'{sc}')
            a.damage.load_sample(src)
        obs.step(4)
        res.append(a.damage.save_sample(save_units=True))
        c.close()
    (s0, u0), (s1, u1) = res
    g, w = flow.cols_dict(s1), flow.cols_dict(s0)
    if obs.eq(sorted(g), sorted(w), 'large:labels', f'{sc}'):
        for k in w:
            obs.close(g[k], w[k], 'large:values', f'{sc} {k}', rtol=1e-10)
        obs.eq({tuple(map(str, k)): v for k, v in u1.items()}, {tuple(map(str, k)): v for k, v in u0.items()}, 'large:units', f'{sc}')
    obs.state(sc, s1)


# ---------------------------------------------------------------------------
FAM = ['lognormal', 'normal', 'normal_std', 'normal_cov', 'uniform', 'weibull', 'empirical', 'deterministic']
TRUNC = [(np.nan, np.nan), (2.0, np.nan), (np.nan, 6.0), (1.5, 6.5)]
TH = {'lognormal': (4.0, 0.3), 'normal': (4.0, 0.3), 'normal_std': (4.0, 1.2), 'normal_cov': (4.0, 0.3), 'uniform': (1.0, 7.0), 'weibull': (4.0, 2.5),
      'empirical': (np.nan, np.nan), 'deterministic': (4.0, np.nan)}


def run_model(sc, obs):
    """Demand models of every family."""
    fam, (lo, hi) = sc['f'], TRUNC[sc['t']]
    un = [('mps2', 'g', 'inps2', 'ftps2')[sc['u']], 'unitless', ('mps', 'inps', 'mph', 'cmps')[sc['u']]]
    if fam == 'deterministic' and sc['co']:
        obs.step()
        return
    c = Ctx(obs, sc['form'])
    idx = [('PFA', '1', '1'), ('PFA', '10', '1'), ('PID', '2', '2'), ('PFV', '1', '10')]
    units = [un[0], 'g', un[1], un[2]]
    rows = []
    for i in range(4):
        f = 'lognormal' if i == 2 and fam != 'deterministic' else fam
        t = TH[f]
        tr = (np.nan, np.nan) if f in ('empirical', 'deterministic') else (lo, hi)
        rows.append([units[i], np.nan if f == 'deterministic' else f, *t, *tr])
    m = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(idx, names=['type', 'loc', 'dir']),
                     columns=['Units', 'Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'])
    d = {'marginals': m}
    if fam == 'empirical':
        cols = [x for x, r in zip(idx, rows) if r[1] == 'empirical']
        e = pd.DataFrame({x: [units[idx.index(x)], *values(k, 6)] for k, x in enumerate(cols)}, index=['Units', *range(6)], dtype=object)
        e.columns = pd.MultiIndex.from_tuples(cols)
        d['empirical'] = e
    if sc['co']:
        r = np.array([[1, 0.5, 0.2, -0.3], [0.5, 1, 0.1, 0.0], [0.2, 0.1, 1, 0.4], [-0.3, 0.0, 0.4, 1.0]])
        d['correlation'] = pd.DataFrame(r, index=m.index, columns=m.index)
    keep = {k: v.copy() for k, v in d.items()}
    a = pel.asmt(Seed=5)
    a.demand.load_model(d)
    for k, v in keep.items():
        obs.check(v.equals(d[k]), 'model:input', f'{sc} {k}')
    p = str(c.d / 'm')
    if sc['form'] == 'mem':
        # over the files of another model
        b = pel.asmt()
        x = pd.DataFrame({('PFA', '1', '1'): ['g', 1.0, 2.0], ('PFA', '2', '1'): ['g', 1.5, 2.5]}, index=['Units', 0, 1], dtype=object)
        mm = pd.DataFrame([['g', 'lognormal', 1.0, 0.4], ['g', 'lognormal', 1.0, 0.4]], index=m.index[:2], columns=m.columns[:4])
        b.demand.load_model({'marginals': mm, 'empirical': x, 'correlation': pd.DataFrame(np.eye(2), index=mm.index, columns=mm.index)})
        b.demand.save_model(p)
    a.demand.save_model(p)
    b = pel.asmt(Seed=5)
    b.demand.load_model(p)
    b.demand.save_model(p + '2')
    obs.step(4)
    obs.eq(sorted(x.name for x in c.d.glob('m_*')), sorted(x.name.replace('m2', 'm') for x in c.d.glob('m2_*')), 'model:files', f'{sc}')
    f = pd.read_csv(p + '_marginals.csv', index_col=0)
    for x, row in zip(idx, rows):
        r = f.loc['-'.join(x)]
        obs.eq(r['Units'], row[0], 'model:unit', f'{sc} {x}')
        for k, v in zip(m.columns[2:], row[2:]):
            if fam == 'empirical' and row[1] == 'empirical':
                continue
            if k in r:
                obs.close(float(r[k]), v, 'model:params', f'{sc} {x} {k}', rtol=1e-10)
            else:
                obs.check(v != v, 'model:params', f'{sc} {x} {k}')
    res = []
    for q in (a, b):
        q.options.seed = 9
        q.demand.generate_sample({'SampleSize': 25})
        res.append(q.demand.save_sample(save_units=True))
    obs.step(4)
    obs.eq(res[0][0].columns.tolist(), res[1][0].columns.tolist(), 'model:labels', f'{sc}')
    obs.close(res[1][0], res[0][0], 'model:sample', f'{sc}', rtol=1e-9)
    obs.eq(res[1][1].to_dict(), res[0][1].to_dict(), 'model:units', f'{sc}')
    obs.eq({x: res[0][1][x] for x in idx}, dict(zip(idx, units)), 'model:units', f'{sc}')
    for k in ('_marginals', '_correlation', '_empirical'):
        if (c.d / f'm{k}.csv').exists() and (c.d / f'm2{k}.csv').exists():
            f1, f2 = (pd.read_csv(f'{p}{n}{k}.csv', index_col=0, low_memory=False) for n in ('', '2'))
            obs.eq(f1.columns.tolist(), f2.columns.tolist(), 'model:file', f'{sc} {k}')
            obs.eq(f1.index.tolist(), f2.index.tolist(), 'model:file', f'{sc} {k}')
            same_file(obs, f2, f1, 'model:file', f'{sc} {k}')
    obs.state(sc, res[0][0])
    c.close()


def run(sc, obs):
    globals()['run_' + sc['k']](sc, obs)
