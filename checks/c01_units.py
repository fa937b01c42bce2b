"""C01: results do not depend on the units inputs are given or saved in."""

from __future__ import annotations

import itertools
import json
import shutil

import numpy as np
import pandas as pd

from mc import flow, full, pel
from mc.lossref import U, uf

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = (
    'metamorphic exploration of the real code: every unit of every input of a complete assessment replaced by every other unit of its kind '
    '(one input at a time, all pairs of inputs, all inputs at once), with the numbers converted; all samples and aggregated losses compared '
    'with those of the assessment in base units; and everything that can be saved read back with the units it was saved in'
)
BOUND = {
    'quick': 'every unit of 25 inputs, all pairs of inputs with one unit each, 9 families x 4 kinds of parameters x units, 3 custom unit files',
    'thorough': 'the same with all pairs of inputs with two units each, three random generator states and two sampling methods',
}
ASSUMPTIONS = ['the factors of the units in the unit library are the physical ones (checked against a table written down independently)',
               'results are compared with a relative tolerance of 2e-6']
CHUNK = 4
HORIZON = 300

AREA = ['m2', 'ft2', 'in2', 'inch2', 'cm2', 'mm2', 'SF', 'km2', 'mile2']
LENGTH = ['m', 'ft', 'in', 'inch', 'cm', 'mm', 'LF', 'km', 'mile']
ACC = ['mps2', 'g', 'inps2', 'ftps2', 'inchps2']
SPEED = ['mps', 'inps', 'cmps', 'ftps', 'mph', 'inchps']
NONE = ['unitless', 'rad', 'ea', 'test_two', 'test_three', 'AP']
COUNT = ['EA', 'ea', 'test_two', 'AP', 'kV', 'KV', 'TN', 'CF']
MONEY = ['USD_2011', 'USD', 'loss_ratio', 'test_three', 'kV']
TIME = ['worker_day', 'day', 'hour', 'minute', 'sec']
MASS = ['kg', 'ton', 'lb']
KIND = {
    'PFA': ACC, 'SA_1.0': ACC, 'limit': ACC, 'dA': ACC, 'dC': ACC, 'dK': ACC, 'xL': ACC, 'PID': NONE, 'dB': NONE, 'PFV': SPEED, 'xM': SPEED,
    'A': AREA, 'L': AREA, 'B': COUNT, 'M': LENGTH, 'cost': MONEY, 'time': TIME, 'carbon': MASS,
    'qA': ['1 ' + u for u in AREA] + ['100 ft2', '2.5 m2', '0.5 SF', '1000 in2'], 'qL': ['1 ' + u for u in AREA] + ['100 ft2'],
    'qB': ['1 ' + u for u in COUNT] + ['2 EA', '10 ea'], 'qM': ['1 ' + u for u in LENGTH] + ['10 ft', '0.1 km'],
}
ROUND = {'quick': [(3, 'LHS')], 'thorough': [(3, 'LHS'), (4, 'MonteCarlo'), (5, 'LHS_midpoint')]}


def scenarios(tier):
    th = tier != 'quick'
    for (k, us), r in itertools.product(KIND.items(), ROUND[tier if th else 'quick']):
        for u in us:
            yield {'k': 'full', 'u': {k: u}, 'r': r}
    alt = {k: us[1:3] if th else us[1:2] for k, us in KIND.items()}
    for a, b in itertools.combinations(KIND, 2):
        for ua, ub in itertools.product(alt[a], alt[b]):
            yield {'k': 'full', 'u': {a: ua, b: ub}, 'r': ROUND['quick'][0]}
    for n in range(10):
        yield {'k': 'full', 'u': {k: us[(n + i * (n % 3)) % len(us)] for i, (k, us) in enumerate(KIND.items())}, 'r': ROUND['quick'][0]}
    for t, u1, u2 in itertools.product(('PFA', 'PID', 'PFV'), range(5), range(5)):
        yield {'k': 'columns', 't': t, 'u': [u1, u2]}
    for f, u, tr in itertools.product(DEMAND_FAM, ACC, range(4)):
        yield {'k': 'dmodel', 'f': f, 'u': u, 't': tr}
    for f, u, tr in itertools.product(CMP_FAM, AREA, range(4)):
        yield {'k': 'cmp', 'f': f, 'u': u, 't': tr}
    for f, u, tr in itertools.product(DMG_FAM, ACC, range(4)):
        yield {'k': 'dmg', 'f': f, 'u': u, 't': tr}
    for f, cu, q, fn in itertools.product(CON_FAM, MONEY[:1] + MONEY[3:], ['1 m2', '1 ft2', '100 ft2', '2 SF', '1 EA', '10 EA'], (0, 1)):
        yield {'k': 'cons', 'f': f, 'u': cu, 'q': q, 'fn': fn}
    for u1, u2, f in itertools.product(AREA, AREA, (0, 1)):
        yield {'k': 'rows', 'u': [u1, u2], 'f': f}
    for u, s, sim in itertools.product(ACC, SPEED[:5], (0, 1)):
        yield {'k': 'expand', 'u': u, 's': s, 'sim': sim}
    for what in ('demand', 'cmp', 'dmg', 'loss', 'agg'):
        for n in range(9):
            yield {'k': 'save', 'w': what, 'n': n}
    for u in sorted(U):
        if u != 'g_acc':
            yield {'k': 'factor', 'u': u}
    for n in range(3):
        yield {'k': 'file', 'n': n}
    for u, m in itertools.product(ACC, range(3)):
        yield {'k': 'collapse', 'u': u, 'm': m}
    for u, fam, ev, lim in itertools.product(['m', 'in', 'inch', 'ft', 'cm', 'mm', 'km', 'mile'], (None, 'lognormal'), (0, 1), (0, 1, 2)):
        yield {'k': 'dl', 'u': u, 'f': fam, 'ev': ev, 'lim': lim, 'row': 0}
    for u, fam, ev in itertools.product(range(5), (None, 'lognormal'), (0, 1)):
        yield {'k': 'dl', 'u': u, 'f': fam, 'ev': ev, 'lim': 1, 'row': 1}
    for u in ['cmps2', 'mps3', 'G', 'M', 'kg/m']:
        yield {'k': 'unknown', 'u': u}


# ---------------------------------------------------------------------------
def collect(a, un=None):
    """Samples in base units (aggregated losses are reported in the units of the consequences)."""
    out = {}
    u = full.units(un)
    dvu = {'cost': uf(u['cost']), 'time': uf(u['time']), 'carbon': uf(u['carbon'])}
    for k, v in full.results(a).items():
        if k == 'marginals':
            v = v[[c for c in v if c != 'Family']].astype(float)
        out[k] = v
    agg, ex = full.aggregate(a)
    agg = agg.astype(float)
    for c in agg:
        k = next(k for k in dvu if k in str(c[0] if isinstance(c, tuple) else c))
        agg[c] = agg[c] * dvu[k]
    out['agg'], out['ex'] = agg, ex.astype(float)
    out['loss'] = a.loss.sample
    return out


def same(obs, got, want, sig, what, rtol=2e-6):
    obs.eq(sorted(got), sorted(want), sig, what)
    for k in want:
        if k not in got:
            continue
        if not obs.eq(got[k].columns.tolist(), want[k].columns.tolist(), f'{sig}:labels', f'{what} {k}'):
            continue
        obs.eq(got[k].index.tolist(), want[k].index.tolist(), f'{sig}:rows', f'{what} {k}')
        obs.close(got[k].to_numpy(dtype=float), want[k].to_numpy(dtype=float), f'{sig}:{k}', f'{what}: {k}', rtol=rtol, atol=1e-9)


_BASE: dict = {}


def base_run(r):
    key = tuple(r)
    if key not in _BASE:
        a = full.start(seed=r[0], opts={'Sampling': {'SamplingMethod': r[1]}})
        _BASE[key] = collect(a)
    return _BASE[key]


def run_full(sc, obs):
    a = full.start(un=sc['u'], seed=sc['r'][0], opts={'Sampling': {'SamplingMethod': sc['r'][1]}})
    obs.step(len(full.STEPS))
    got = collect(a, sc['u'])
    same(obs, got, base_run(sc['r']), 'result', f'inputs in {sc["u"]}')
    obs.state(sc['u'], sc['r'])


def run_columns(sc, obs):
    """Demands of one type given in different units."""
    t, (i, j) = sc['t'], sc['u']
    kinds = KIND[t]
    a = pel.asmt(Seed=3)
    raw = full.raw_demands()
    n = 0
    for c in raw:
        if c.startswith(t):
            u = kinds[(i if n % 2 else j) % len(kinds)]
            raw[c] = (u, [x * uf(full.BASE[t]) / uf(u) for x in raw[c][1]])
            n += 1
    a.demand.load_sample(flow.demand_df(raw))
    s0, u0 = a.demand.save_sample(save_units=True)
    for c, (u, v) in raw.items():
        key = tuple(c.split('-'))
        obs.eq(u0[key], u, 'columns:unit', f'{c}')
        obs.close(s0[key], v, 'columns:saved', f'{c} in {u}')
        obs.close(a.demand.sample[key], [x * uf(u) for x in v], 'columns:base', f'{c} in {u}')
    for s in full.STEPS[1:]:
        full.step(a, s)
    obs.step(12)
    same(obs, collect(a), base_run((3, 'LHS')), 'columns', f'{sc}')
    obs.state(sc)


# ---------------------------------------------------------------------------
# distribution families: parameters in base units; which of them have the unit
DEMAND_FAM = {
    'lognormal': ([4.0, 0.3], [1, 0]), 'normal': ([4.0, 0.3], [1, 0]), 'normal_std': ([4.0, 1.2], [1, 1]), 'normal_cov': ([4.0, 0.3], [1, 0]),
    'uniform': ([1.0, 7.0], [1, 1]), 'weibull': ([4.0, 2.5], [1, 0]), 'deterministic': ([4.0, np.nan], [1, 0]),
    'multilinear_CDF': ('0,2,5,9|0,0.2,0.7,1', 'x'), 'empirical': (None, None),
}
CMP_FAM = {k: v for k, v in DEMAND_FAM.items() if k not in ('empirical', 'multilinear_CDF')}
DMG_FAM = {k: v for k, v in DEMAND_FAM.items() if k != 'empirical'}
CON_FAM = {k: DEMAND_FAM[k] for k in ('lognormal', 'normal', 'deterministic')}
TRUNC = [(np.nan, np.nan), (2.0, np.nan), (np.nan, 6.0), (1.5, 6.5)]


def params(fam, f):
    if fam == 'empirical':
        return np.nan, np.nan
    th, un = DEMAND_FAM[fam]
    if un == 'x':
        x, p = th.split('|')
        return ','.join(repr(float(v) / f) for v in x.split(',')) + '|' + p, np.nan
    return tuple(v / f if n else v for v, n in zip(th, un))


def trunc(fam, i, f):
    if fam in ('deterministic', 'multilinear_CDF', 'empirical'):
        return (np.nan, np.nan)
    return tuple(x / f for x in TRUNC[i])


_CACHE: dict = {}


def cached(fn, *key):
    k = (fn.__name__, *key)
    if k not in _CACHE:
        _CACHE[k] = fn(*key)
    return _CACHE[k]


def demand_model(fam, u, t):
    """Demand statistics of three demands, the second one in a fixed unit."""
    f = uf(u)
    rows, idx = [], [('PFA', '1', '1'), ('PFA', '10', '1'), ('PFA', '2', '2')]
    for i in range(3):
        g, unit = (f, u) if i != 1 else (uf('g'), 'g')
        th = params(fam, g)
        rows.append([unit, 'lognormal' if i == 2 else (np.nan if fam == 'deterministic' else fam), *(params('lognormal', g) if i == 2 else th), *trunc(fam, t, g)])
    m = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(idx), columns=['Units', 'Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'])
    if fam == 'multilinear_CDF':
        return None
    a = pel.asmt(Seed=3)
    d = {'marginals': m, 'correlation': pd.DataFrame(0.3 * np.ones((3, 3)) + 0.7 * np.eye(3), index=m.index, columns=m.index)}
    if fam == 'deterministic':
        d.pop('correlation')
    if fam == 'empirical':
        e = pd.DataFrame({c: [v / (uf('g') if i == 1 else f) for v in (2.0 + i, 3.0, 5.5 + i, 4.0)] for i, c in enumerate(idx[:2])})
        e.columns = pd.MultiIndex.from_tuples(e.columns)
        e.loc['Units'] = [u, 'g']
        d['empirical'] = e
    a.demand.load_model(d)
    a.demand.generate_sample({'SampleSize': 30})
    s, units = a.demand.save_sample(save_units=True)
    return a.demand.sample.copy(), s, units, a.demand.marginal_params.copy()


def run_dmodel(sc, obs):
    fam, u, t = sc['f'], sc['u'], sc['t']
    if fam == 'multilinear_CDF':
        obs.step()
        return
    obs.step(3)
    got, saved, units, _m = demand_model(fam, u, t)
    want = cached(demand_model, fam, 'mps2', t)[0]
    obs.close(got, want, f'dmodel:{fam}', f'{sc}', rtol=2e-6)
    for i, c in enumerate([('PFA', '1', '1'), ('PFA', '10', '1'), ('PFA', '2', '2')]):
        un = 'g' if i == 1 else u
        obs.eq(units[c], un, 'dmodel:unit', f'{sc}')
        obs.close(saved[c] * uf(un), got[c], 'dmodel:saved', f'{sc}')
    obs.state(sc, got)


def cmp_model(fam, u, t):
    f = uf(u)
    rows = []
    for loc, g, unit in (('1', f, u), ('10', uf('ft2'), 'ft2')):
        th, tr = params(fam, g), trunc(fam, t, g)
        rows.append({'cmp': 'X' if loc == '1' else 'Y', 'Units': unit, 'Location': loc, 'Direction': '1,2', 'Theta_0': th[0], 'Theta_1': th[1],
                     'Family': np.nan if fam == 'deterministic' else fam, 'Blocks': 2, 'TruncateLower': tr[0], 'TruncateUpper': tr[1]})
    a = pel.asmt(Seed=4)
    a.stories = 10
    a.asset.load_cmp_model({'marginals': flow.marg_df(rows)})
    a.asset.generate_cmp_sample(30)
    s, units = a.asset.save_cmp_sample(save_units=True)
    return a.asset.cmp_sample.copy(), s, units


def run_cmp(sc, obs):
    fam, u, t = sc['f'], sc['u'], sc['t']
    obs.step(3)
    got, saved, units = cmp_model(fam, u, t)
    want = cached(cmp_model, fam, 'm2', t)[0]
    obs.close(got, want, f'cmp:{fam}', f'{sc}', rtol=2e-6)
    for c in got:
        un = u if c[0] == 'X' else 'ft2'
        obs.eq(units[c], un, 'cmp:unit', f'{sc} {c}')
        obs.close(saved[c] * uf(un), got[c], 'cmp:saved', f'{sc} {c}')
    obs.state(sc, got)


def dmg_model(fam, u, t):
    f = uf(u)
    th, tr = params(fam, f), trunc(fam, t, f)
    ls = {'f': np.nan if fam == 'deterministic' else fam, 't0': th[0], 't1': th[1], 'lo': tr[0], 'hi': tr[1]}
    z = [0.3 + 0.31 * k for k in range(30)]
    a = flow.start({'PFA-1-1': ('mps2', z)}, flow.marg_df([{'cmp': 'X', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 6.0, 'Blocks': 6},
                                                           {'cmp': 'Y', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 6.0, 'Blocks': 6}]))
    flow.damage(a, flow.dmg_df({
        'X': {'type': 'Peak Floor Acceleration', 'unit': u, 'offset': 1, 'ls': [ls]},
        'Y': {'type': 'Peak Floor Acceleration', 'unit': 'g', 'offset': 1, 'ls': [{'f': 'lognormal', 't0': 0.5, 't1': 0.4}]}}))
    return a.damage.save_sample()


def run_dmg(sc, obs):
    fam, u, t = sc['f'], sc['u'], sc['t']
    obs.step(3)
    got = dmg_model(fam, u, t)
    want = cached(dmg_model, fam, 'mps2', t)
    obs.eq(got.columns.tolist(), want.columns.tolist(), 'dmg:labels', f'{sc}')
    if got.shape == want.shape:
        obs.close(got, want, f'dmg:{fam}', f'{sc}')
    obs.state(sc, got)


def cons_model(fam, cu, q, fn):
    """Consequences of a component counted in area or in pieces."""
    count = q.endswith('EA')
    qf, d = uf(q), uf(cu)
    a = flow.start({'PFA-1-1': ('mps2', [5.0] * 20)}, flow.marg_df([
        {'cmp': 'X', 'Units': 'EA' if count else 'm2', 'Location': '1,2', 'Direction': '1', 'Theta_0': 30.0, 'Theta_1': 0.4, 'Family': 'lognormal'}]))
    a.damage.load_sample(pd.DataFrame({
        ('X', '1', '1', '0', '0'): ['EA' if count else 'm2', *([0.0] * 20)], ('X', '1', '1', '0', '1'): ['EA' if count else 'm2', *[2.0 * k for k in range(20)]],
        ('X', '2', '1', '0', '2'): ['EA' if count else 'm2', *[3.0 + k for k in range(20)]]}, index=['Units', *range(20)]))
    if fn:
        t0 = ','.join(repr(v * qf / d) for v in (20.0, 14.0, 9.0)) + '|' + ','.join(repr(v / qf) for v in (5.0, 20.0, 50.0))
    else:
        t0 = repr(12.0 * qf / d)
    ds = {'f': np.nan if fam == 'deterministic' else fam, 't0': t0, 't1': np.nan if fam == 'deterministic' else 0.3}
    flow.loss_setup(a, ('Cost',), pd.DataFrame({'Repair': ['X']}, index=['X']), [flow.cons_df([{'id': 'X', 'dv': 'Cost', 'unit': cu, 'q': q, 'ds': [ds, ds]}])])
    a.loss.calculate()
    return a.loss.sample.copy()


def run_cons(sc, obs):
    fam, u, q, fn = sc['f'], sc['u'], sc['q'], sc['fn']
    obs.step(4)
    got = cons_model(fam, u, q, fn)
    want = cached(cons_model, fam, 'USD_2011', '1 EA' if q.endswith('EA') else '1 m2', fn)
    obs.eq(got.columns.tolist(), want.columns.tolist(), 'cons:labels', f'{sc}')
    obs.close(got.to_numpy(float), want.to_numpy(float), f'cons:{fam}', f'{sc}')
    obs.state(sc, got)


def row_model(u1, u2, f):
    rows = [
        {'cmp': 'X', 'Units': u1, 'Location': '1', 'Direction': '1', 'Theta_0': 30.0 / uf(u1), 'Theta_1': 0.4, 'Family': 'lognormal'},
        {'cmp': 'X', 'Units': u2, 'Location': '2' if f else '1', 'Direction': '1', 'Theta_0': 50.0 / uf(u2), 'Theta_1': 0.2, 'Family': 'lognormal'},
    ]
    a = pel.asmt(Seed=4)
    a.stories = 3
    a.asset.load_cmp_model({'marginals': flow.marg_df(rows)})
    a.asset.generate_cmp_sample(30)
    s, units = a.asset.save_cmp_sample(save_units=True)
    return a.asset.cmp_sample.copy(), s, units


def run_rows(sc, obs):
    """Rows of the same component in different units."""
    obs.step(3)
    got, s, units = row_model(*sc['u'], sc['f'])
    want = cached(row_model, 'm2', 'm2', sc['f'])[0]
    obs.close(got, want, 'rows', f'{sc}')
    for c in got:
        obs.check(units[c] in sc['u'], 'rows:unit', f'{sc}: saved in {units[c]}')
        obs.close(s[c] * uf(units[c]), got[c], 'rows:saved', f'{sc} {c}')
    obs.state(sc, got)


def run_expand(sc, obs):
    """Demands added to a sample by the user."""
    u, s = sc['u'], sc['s']
    a = pel.asmt(Seed=3)
    a.demand.load_sample(flow.demand_df({'PFA-1-1': (u, [1.0, 2.0, 3.0]), 'PFV-1-1': ('mps', [4.0, 5.0, 6.0])}))
    v = np.array([0.3, 0.7, 0.2])
    a.demand.expand_sample('Z', v if sc['sim'] else 0.5, s, '2', '3')
    obs.step(3)
    got, units = a.demand.save_sample(save_units=True)
    obs.close(a.demand.sample['Z', '2', '3'], (v if sc['sim'] else np.full(3, 0.5)) * uf(s), 'expand:base', f'{sc}')
    obs.eq(units['Z', '2', '3'], s, 'expand:unit', f'{sc}')
    obs.close(got['Z', '2', '3'], v if sc['sim'] else np.full(3, 0.5), 'expand:saved', f'{sc}')
    obs.close(got['PFA', '1', '1'], [1.0, 2.0, 3.0], 'expand:other', f'{sc}')
    obs.eq(units['PFA', '1', '1'], u, 'expand:other:unit', f'{sc}')
    obs.state(sc, got)


# ---------------------------------------------------------------------------
def run_save(sc, obs):
    """Everything saved is in the unit of the input."""
    n = sc['n']
    un = {k: us[n % len(us)] for k, us in KIND.items()}
    a = full.start(un=un)
    u = full.units(un)
    b = base_run((3, 'LHS'))
    d = pel.scratch('sv')
    obs.step(4)

    def both(model_save, name):
        s, units = model_save(save_units=True)
        model_save(str(d / 'x.csv'))
        f = pd.read_csv(d / 'x.csv', index_col=0, low_memory=False)
        obs.eq([c.split('-') for c in f.columns], [list(map(str, c)) for c in s.columns], f'save:{name}:labels')
        obs.eq(f.loc['Units'].tolist(), [units[c] for c in s.columns], f'save:{name}:units')
        obs.close(f.drop('Units').astype(float), s, f'save:{name}:file', rtol=1e-12)
        return s, units

    w = sc['w']
    if w == 'demand':
        s, units = both(a.demand.save_sample, w)
        for c in s:
            obs.eq(units[c], u[c[0]], 'save:demand:unit', f'{c}')
            obs.close(s[c] * uf(units[c]), b['demand'][c], 'save:demand', f'{c} {units[c]}', rtol=2e-6)
    elif w in ('cmp', 'dmg'):
        s, units = both(a.asset.save_cmp_sample if w == 'cmp' else a.damage.save_sample, w)
        want = b['cmp' if w == 'cmp' else 'damage']
        for c in s:
            obs.eq(units[c], u.get(c[0], 'EA'), f'save:{w}:unit', f'{c}')
            obs.close(s[c] * uf(units[c]), want[c], f'save:{w}', f'{c} {units[c]}', rtol=2e-6)
    elif w == 'loss':
        dvu = {'Cost': u['cost'], 'Time': u['time'], 'Carbon': u['carbon']}
        for m, key in ((a.loss.ds_model, 'ds'), (a.loss, 'loss')):
            s, units = both(m.save_sample, key)
            for c in s:
                obs.eq(units[c], dvu[c[0]], f'save:{key}:unit', f'{c}')
                obs.close(s[c].astype(float) * uf(units[c]), b[key][c], f'save:{key}', f'{c} {units[c]}', rtol=2e-6)
    elif w == 'agg':
        same(obs, {'agg': collect(a, un)['agg']}, {'agg': b['agg']}, 'save:agg', f'{un}')
    shutil.rmtree(d)
    obs.state(sc, a.demand.save_sample())


def run_factor(sc, obs):
    u = sc['u']
    a = pel.asmt()
    obs.step(4)
    obs.close(a.scale_factor(u), U[u], 'factor', u, rtol=1e-5)
    obs.close(a.unit_conversion_factors[u], U[u], 'factor:table', u, rtol=1e-5)
    f = a.scale_factor(u)
    for t, k in (('1 ', 1.0), ('100 ', 100.0), ('2.5 ', 2.5), ('1e3 ', 1000.0)):
        obs.close(a.calc_unit_scale_factor(t + u), k * f, 'factor:quantity', t + u)
    obs.close(a.calc_unit_scale_factor(u), f, 'factor:name', u)
    for bad in (u + 'x', '', 'x ' + u):
        for fn in (a.scale_factor, a.calc_unit_scale_factor):
            try:
                fn(bad)
            except (KeyError, ValueError):
                continue
            obs.fail('factor:unknown', f'{bad!r} is accepted by {fn.__name__}')
    obs.state(sc)


def run_file(sc, obs):
    """Custom unit files: another set of base units."""
    d = pel.scratch('uf')
    n = sc['n']
    lib = {'all': {k: v for k, v in U.items() if k != 'g_acc'}}
    if n == 1:
        # two new units, used below
        lib = {'all': dict(lib['all']), 'own': {'yard2': 0.9144**2, 'gal': 0.01}}
    if n == 2:
        lib = {k: {k: v} for k, v in lib['all'].items()}
    (d / 'units.json').write_text(json.dumps(lib))
    un = {}
    if n == 1:
        U['yard2'], U['gal'] = 0.9144**2, 0.01
        un = {'A': 'yard2', 'L': 'yard2', 'qA': '1 yard2', 'qL': '10 yard2', 'PFA': 'gal', 'dA': 'gal', 'xL': 'gal', 'limit': 'gal'}
    a = full.start(un=un, opts={'UnitsFile': str(d / 'units.json')})
    obs.step(10)
    same(obs, collect(a, un), base_run((3, 'LHS')), 'file', f'{sc}')
    if un:
        obs.eq(a.demand.save_sample(save_units=True)[1]['PFA', '1', '1'], 'gal', 'file:unit')
        obs.eq(a.asset.save_cmp_sample(save_units=True)[1].iloc[0], 'yard2', 'file:unit')
        # the units of this assessment do not exist in another one
        b = pel.asmt()
        obs.check('gal' not in b.unit_conversion_factors, 'file:leak', 'custom units appear in another assessment')
    obs.state(sc)
    shutil.rmtree(d)


def run_collapse(sc, obs):
    """Collapse limits and added collapse demands of the damage workflow."""
    def one(u, m):
        a = pel.asmt(Seed=2)
        n = 20
        dem = flow.demand_df({'PFA-1-1': ('mps2', [1.0 + 0.1 * k for k in range(n)]), 'SA_1.0-0-1': ('g', [0.2 + 0.05 * k for k in range(n)])})
        marg = flow.marg_df([{'cmp': 'X', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 6.0, 'Blocks': 6},
                             {'cmp': 'collapse', 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0}])
        kw = {}
        if m == 0:
            kw['collapse_fragility_configuration'] = {'label': 'SA_2.0', 'value': 6.0 / uf(u), 'unit': u}
        elif m == 1:
            kw['collapse_fragility_configuration'] = {'label': 'SA_2.0', 'value': 6.0 / uf(u), 'unit': u, 'location': '0', 'direction': '1'}
        dmg = flow.dmg_df({
            'X': {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'ls': [{'f': 'lognormal', 't0': 2.0, 't1': 0.4}]},
            'collapse': {'type': 'Spectral Acceleration|2.0' if m < 2 else 'Spectral Acceleration|1.0', 'unit': u, 'offset': 0, 'dir': 1,
                         'ls': [{'f': 'lognormal', 't0': 5.0 / uf(u), 't1': 0.3}]}})
        a.demand.load_sample(dem)
        sample, units = a.demand.save_sample(save_units=True)
        dm = pd.concat([sample, units.to_frame('Units').T])
        dm.columns = ['-'.join(c) for c in dm.columns]
        d2 = pel.asmt(Seed=2)
        d2.demand.load_sample(dm)
        d2.demand.calibrate_model({'ALL': {'DistributionFamily': 'lognormal'}})
        p = pel.scratch('cm')
        d2.demand.save_model(str(p / 'm'))
        b = pel.asmt(Seed=2)
        b.calculate_damage(3, {'SampleSize': 30, 'PreserveRawOrder': False}, str(p / 'm'), {'marginals': marg}, [dmg], {'1_collapse': {'DS1': 'ALL_NA'}}, **kw)
        shutil.rmtree(p)
        return b.demand.sample.copy(), b.damage.save_sample()

    obs.step(8)
    got, want = one(sc['u'], sc['m']), cached(lambda m: one('mps2', m), sc['m'])
    for i, x in enumerate(('demand', 'damage')):
        obs.eq(got[i].columns.tolist(), want[i].columns.tolist(), f'collapse:{x}:labels', f'{sc}')
        obs.close(got[i].to_numpy(float), want[i].to_numpy(float), f'collapse:{x}', f'{sc}')
    obs.state(sc, got[0])


DL = {'PFA': 2, 'PGA': 2, 'SA_1.0': 2, 'PFV': 1, 'PWS': 1, 'PGV': 1, 'SV_0.5': 1, 'PFD': 0, 'PIH': 0, 'SD_1.0': 0, 'PGD': 0,
      'PID': None, 'RID': None, 'PRD': None, 'DWD': None, 'RDR': None, 'PMD': None}
DL_UNIT = {None: ['unitless', 'rad'], 0: LENGTH, 1: SPEED, 2: ACC}


def dl_demand(u, fam, ev, lim, row):
    """Demand calculation of an assessment run from a configuration file."""
    from pelicun.assessment import DLCalculationAssessment

    cols, n = {}, 60
    for k, (t, e) in enumerate(DL.items()):
        for loc in ('0', '10'):
            v = [(k + 1.0) * (1 + 0.01 * (((i + 1) * (2 * k + 3 + (loc == '10'))) % 61)) for i in range(n)]
            if e is None:
                un, f = DL_UNIT[None][u % 2 if row else 0], 1.0
            elif row:
                un = DL_UNIT[e][u % len(DL_UNIT[e])]
                f = uf(un)
            else:
                un, f = '', uf(u)
            cols[('1-' if ev else '') + f'{t}-{loc}-1'] = ([un] if row else []) + [repr(x / f) for x in v]
    df = pd.DataFrame(cols, index=(['Units'] if row else []) + list(range(n)))
    d = pel.scratch('dl')
    df.to_csv(d / 'demands.csv')
    f = {0: 1.0, 2: uf(DL_UNIT[2][u % 5]) if row else uf(u) if u not in (None,) else 1.0}
    limits = None
    if lim:
        limits = {'PFA': 1.5531 / f[2], 'PID': 18.871}
        if lim == 2:
            limits = {'PID': 19}
    a = DLCalculationAssessment(config_options={'Seed': 3, 'LogFile': None, 'Verbose': False})
    a.calculate_demand(d / 'demands.csv', limits, None if row else u, {'ALL': {'DistributionFamily': fam}} if fam else None, 25, None, None, coupled_demands=False)
    shutil.rmtree(d)
    return a.demand.sample.copy(), a.demand.save_sample(save_units=True)[1]


def run_dl(sc, obs):
    obs.step(6)
    want, _ = cached(dl_demand, 'm', sc['f'], sc['ev'], sc['lim'], 0)
    key = {k: sc[k] for k in ('u', 'f', 'ev', 'lim', 'row')}
    try:
        got, units = dl_demand(**dict(zip(('u', 'fam', 'ev', 'lim', 'row'), key.values())))
    except ValueError as e:
        # a length unit without the corresponding speed and acceleration
        obs.check(sc['u'] in ('cm', 'mm', 'km', 'mile') and sc['u'] in str(e), 'dl:rejected', f'{sc}: {e}')
        return
    obs.eq(got.columns.tolist(), want.columns.tolist(), 'dl:labels', f'{sc}')
    if got.shape == want.shape:
        obs.close(got.to_numpy(float), want.to_numpy(float), 'dl', f'{sc}', rtol=2e-6)
    obs.eq(got.columns.tolist(), units.index.tolist(), 'dl:units', f'{sc}')
    obs.state(sc, got)


def run_unknown(sc, obs):
    """Inputs in a unit that is not known."""
    u = sc['u']
    ok = (KeyError, ValueError)
    obs.step(5)

    def rejects(what, fn):
        try:
            fn()
        except ok:
            return
        obs.fail(f'unknown:{what}', f'{u!r} is accepted as a unit of the {what}')

    a = pel.asmt(Seed=1)
    rejects('demands', lambda: a.demand.load_sample(flow.demand_df({'PFA-1-1': (u, [1.0, 2.0])})))
    a = pel.asmt(Seed=1)
    a.stories = 2
    rejects('components', lambda: a.asset.load_cmp_model({'marginals': flow.marg_df([{'cmp': 'X', 'Units': u, 'Location': '1', 'Direction': '1', 'Theta_0': 6.0}])}))
    row = [{'cmp': 'X', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 6.0}]
    a = flow.start({'PFA-1-1': ('mps2', [1.0, 2.0])}, flow.marg_df(row))
    rejects('damage parameters', lambda: flow.damage(a, flow.dmg_df({'X': {'type': 'Peak Floor Acceleration', 'unit': u, 'offset': 1, 'ls': [{'t0': 1.0}]}})))
    for what, un, q in (('consequences', u, '1 EA'), ('consequence quantities', 'USD_2011', '1 ' + u)):
        a = flow.start({'PFA-1-1': ('mps2', [1.0, 2.0])}, flow.marg_df(row))
        flow.damage(a, flow.dmg_df({'X': {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'ls': [{'t0': 1.0}]}}))
        cons = flow.cons_df([{'id': 'X', 'dv': 'Cost', 'unit': un, 'q': q, 'ds': [{'t0': '3.0'}]}])
        rejects(what, lambda a=a, cons=cons: (flow.loss_setup(a, ('Cost',), pd.DataFrame({'Repair': ['X']}, index=['X']), [cons]), a.loss.calculate()))
    obs.state(sc)


def run(sc, obs):
    globals()['run_' + sc['k']](sc, obs)
