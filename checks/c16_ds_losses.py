"""Losses of damage-state driven components equal consequence x damaged quantity."""

from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from mc import flow, lossref, pel

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('one scenario = (economies-of-scale options, consequence functions, layout of the damage table); its rows are the full '
        'product of damaged quantities; states = distinct (options, functions, loss table) observed')
BOUND = {
    'quick': '2 components x 2 locations x 2 damage states, every non-empty set of damage columns, quantities {0,1,2.5,none}, '
             '4 economies-of-scale options, 9 consequence shapes; large buildings',
    'thorough': 'same with every ordered pair of consequence shapes and quantities {0,1,2.5,6,none}',
}
ASSUMPTIONS = ['the damage table is given through the public load_sample of the damage model',
               'random deviations are identified through midpoint Latin hypercube samples, whose values are known exactly']

NAN = float('nan')
SHAPES = {
    'const': {'t0': 10.0},
    'det': {'t0': 7.0, 'f': 'deterministic'},
    'logn': {'t0': 4.0, 'f': 'lognormal', 't1': 0.4},
    'norm': {'t0': 4.0, 'f': 'normal', 't1': 0.3},
    'normbig': {'t0': 4.0, 'f': 'normal', 't1': 1.2},
    'fn': {'t0': '100.0,40.0|2.0,5.0'},
    'fn3': {'t0': '100.0,40.0,10.0|1.0,3.0,8.0'},
    'fnlogn': {'t0': '100.0,40.0|2.0,5.0', 'f': 'lognormal', 't1': 0.25},
    'fnnorm': {'t0': '100.0,40.0|2.0,5.0', 'f': 'normal', 't1': 0.25},
    'none': {'t0': NAN},
}
ECO = list(itertools.product([True, False], [True, False]))
# (cmp, loc, dir, uid, ds)
FULL = [('A', '1', '1', '0', '1'), ('A', '1', '1', '0', '2'), ('A', '2', '1', '0', '1'), ('A', '2', '1', '0', '2')]


def scenarios(tier):
    alpha = [0.0, 1.0, 2.5, NAN]
    shapes = ['const', 'logn', 'fn', 'fnlogn']
    # 1. every set of damage columns x options x shapes
    for eco in ECO:
        for r in range(1, 5):
            for sub in itertools.combinations(range(4), r):
                for s1, s2 in (('fn', 'fnlogn'), ('const', 'fn3'), ('none', 'fn'), ('logn', 'none')):
                    yield {'k': 'cols', 'eco': eco, 'cols': sub, 's': [s1, s2], 'al': 'q'}
    # 2. all shapes x options on the complete table
    pairs = itertools.product(SHAPES, SHAPES) if tier == 'thorough' else [(a, b) for a in SHAPES for b in ('fn', 'logn')]
    for eco in ECO:
        for s1, s2 in pairs if tier != 'thorough' else list(itertools.product(SHAPES, SHAPES)):
            yield {'k': 'shape', 'eco': eco, 'cols': [0, 1, 2, 3], 's': [s1, s2], 'al': 'q'}
    # 3. several components, dirs, uids, dvs
    for eco in ECO:
        for units in (('USD_2011', '1 EA', 'EA'), ('USD_2011', '100 ft2', 'ft2'), ('lb', '10 m2', 'ft2')):
            for s1, s2 in itertools.permutations(shapes, 2):
                yield {'k': 'multi', 'eco': eco, 's': [s1, s2], 'u': units}
    # 4. cost-time dependence
    for rho in (1.0, -1.0):
        for eco in ECO:
            yield {'k': 'rho', 'eco': eco, 'rho': rho}
    # 5. decision variables served by different consequences / no consequence at all
    for have in itertools.product([0, 1], repeat=4):
        for eco in ECO if tier == 'thorough' else ECO[:2]:
            yield {'k': 'avail', 'have': have, 'eco': eco}
    # 7. many components, stories, damage states and equal groups
    for eco in ECO:
        for size in ((2, 12, 3, 2), (3, 2, 12, 2), (12, 2, 2, 2), (2, 2, 2, 12), (1, 22, 11, 1)):
            yield {'k': 'large', 'eco': eco, 'size': size}
    # 6. no damage
    for eco in ECO:
        for z in ('only0', 'zero'):
            yield {'k': 'nodmg', 'eco': eco, 'z': z}


def dmg_table(cols: dict, units: dict) -> pd.DataFrame:
    keys = list(cols)
    n = len(cols[keys[0]])
    df = pd.DataFrame({k: cols[k] for k in keys}, index=range(n), dtype=float)
    df.columns = pd.MultiIndex.from_tuples(keys, names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    top = pd.DataFrame([[units[k[0]] for k in keys]], index=['Units'], columns=df.columns)
    return pd.concat([top, df.astype(object)])


def build(cols, units, params, dvs, eco, rho=None, method='LHS_midpoint', loss_map=None):
    cmps = sorted({k[0] for k in cols})
    n = len(next(iter(cols.values())))
    opts = {'EconomiesOfScale': {'AcrossFloors': eco[0], 'AcrossDamageStates': eco[1]},
            'Sampling': {'SamplingMethod': method}, 'SamplingMethod': method}
    if rho is not None:
        opts['RepairCostAndTimeCorrelation'] = rho
    a = pel.asmt(**opts)
    a.stories = 3
    a.demand.load_sample(flow.demand_df({'PFA-1-1': ['mps2', [1.0] * n]}))
    groups = sorted({k[:4] for k in cols})
    a.asset.load_cmp_model({'marginals': flow.marg_df([
        {'cmp': g[0], 'Units': units[g[0]], 'Location': g[1], 'Direction': g[2], 'Theta_0': 9.0, 'Blocks': 1} for g in groups])})
    a.asset.generate_cmp_sample(n)
    a.damage.load_sample(dmg_table(cols, units))
    flow.loss_setup(a, dvs, loss_map or {c: c for c in cmps}, [flow.cons_df(params)])
    a.loss.calculate()
    return a


def expect(obs, a, cols, units, params, dvs, eco, sig):
    """Compare the detailed loss sample with the reference."""
    n = len(next(iter(cols.values())))
    base = {k: np.asarray(v, dtype=float) * lossref.uf(units[k[0]]) for k, v in cols.items()}
    tot = lossref.eco_quantities(base, *eco)
    s = a.loss.ds_model.sample
    got = {} if s is None else {tuple(map(str, c)): s.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(s.columns)}
    obs.state(eco, sorted(got), [np.round(v[:: max(1, n // 20)], 6) for _, v in sorted(got.items())])
    want_keys = set()
    levels_by_key = {}
    for p in params:
        if p['dv'] not in dvs:
            continue
        items = p['ds'].items() if isinstance(p['ds'], dict) else [(str(i), d) for i, d in enumerate(p['ds'], start=1)]
        for ds, spec in items:
            if spec is None or spec['t0'] != spec['t0']:
                continue
            for k, q in base.items():
                if k[0] != p['id'] or k[4] != ds:
                    continue
                key = (p['dv'], p['id'], k[0], ds, k[1], k[2], k[3])
                want_keys.add(key)
                med = lossref.unit_median(spec, p['unit'], p.get('q', '1 EA'), tot[k]) * np.nan_to_num(q)
                if key not in got:
                    if np.all(med == 0):
                        continue
                    obs.fail(f'{sig}:missing-column', f'{key} not in losses {sorted(got)}')
                    continue
                lv = lossref.deviation_levels(spec, n)
                if lv is None:
                    obs.close(got[key], med, f'{sig}:value', f'{key} units {p["unit"]},{p.get("q")}')
                else:
                    z = med == 0
                    obs.close(got[key][z], med[z], f'{sig}:zero', str(key))
                    r = got[key][~z] / med[~z]
                    obs.check(lossref.match_levels(r, lv), f'{sig}:deviation',
                              lambda key=key, r=r, lv=lv: f'{key}: ratios {np.sort(r)[:8]} levels {lv[:8]}')
                    levels_by_key[key] = (np.where(z, np.nan, got[key] / np.where(z, 1, med)))
    for key, v in got.items():
        if key not in want_keys:
            obs.check(np.all(np.nan_to_num(v) == 0), f'{sig}:extra', lambda key=key, v=v: f'{key}: {v[:10]}')
    return levels_by_key


def run(sc, obs):
    k = sc['k']
    eco = tuple(sc['eco'])
    alpha = [0.0, 1.0, 2.5, NAN] if sc.get('al') == 'q' else [0.0, 1.0, 3.0]
    if k in ('cols', 'shape'):
        keys = [FULL[i] for i in sc['cols']]
        rows = np.array(list(itertools.product(alpha, repeat=len(keys))))
        # also the undamaged column, which must not count
        cols = {key: rows[:, i].tolist() for i, key in enumerate(keys)}
        cols['A', '1', '1', '0', '0'] = [5.0] * len(rows)
        units = {'A': 'EA'}
        params = [{'id': 'A', 'dv': 'Cost', 'unit': 'USD_2011', 'q': '1 EA', 'ds': [SHAPES[sc['s'][0]], SHAPES[sc['s'][1]]]}]
        obs.step(4)
        a = build(cols, units, params, ('Cost',), eco)
        expect(obs, a, {c: v for c, v in cols.items() if c[4] != '0'}, units, params, ('Cost',), eco, k)
        return
    if k == 'multi':
        unit, q, cu = sc['u']
        keys = [('A', '1', '1', '0', '1'), ('A', '1', '2', '0', '1'), ('A', '2', '1', '0', '2'), ('B', '1', '1', '0', '1'), ('B', '2', '0', '0', '2')]
        rows = np.array(list(itertools.product([0.0, 40.0, 170.0], repeat=len(keys))))
        cols = {key: rows[:, i].tolist() for i, key in enumerate(keys)}
        units = {'A': cu, 'B': 'EA'}
        big = {'t0': '100.0,40.0|1.0,3.0'}
        s1, s2 = (dict(SHAPES[x]) for x in sc['s'])
        params = [
            {'id': 'A', 'dv': 'Cost', 'unit': unit, 'q': q, 'ds': [s1, big]},
            {'id': 'A', 'dv': 'Time', 'unit': 'worker_day', 'q': q, 'ds': [s2, s1]},
            {'id': 'B', 'dv': 'Cost', 'unit': unit, 'q': '50 EA', 'ds': [s2, big]},
        ]
        obs.step(4)
        a = build(cols, units, params, ('Cost', 'Time'), eco)
        lv = expect(obs, a, cols, units, params, ('Cost', 'Time'), eco, k)
        vals = list(lv.items())
        for (k1, v1), (k2, v2) in itertools.combinations(vals, 2):
            m = ~np.isnan(v1) & ~np.isnan(v2)
            if m.sum() > 20:
                r1, r2 = np.argsort(np.argsort(v1[m])), np.argsort(np.argsort(v2[m]))
                obs.check(not np.array_equal(r1, r2), 'multi:shared-deviation', f'{k1} and {k2} have the same random deviations')
        return
    if k == 'large':
        nc, nl, nd, nu = sc['size']
        n, names = 16, list(SHAPES)
        cols, units, params = {}, {}, []
        for c in range(nc):
            cid = f'C.{c + 1}'
            units[cid] = 'ft2' if c % 2 else 'EA'
            for loc, u, ds in itertools.product(range(1, nl + 1), range(nu), range(1, nd + 1)):
                if (c + loc + u + ds) % 5 == 4:
                    continue
                cols[cid, str(loc), '1' if c % 3 else '11', str(u), str(ds)] = [float((7 * i + 3 * loc + 5 * ds + c + u) % 4) * 1.5 for i in range(n)]
            for dv, un in (('Cost', 'USD_2011'), ('Time', 'worker_day')):
                params.append({'id': cid, 'dv': dv, 'unit': un, 'q': f'{1 + c % 3} {units[cid]}', 'ds': [SHAPES[names[(c + i + (dv == 'Time')) % len(names)]] for i in range(nd)]})
        obs.step(4)
        a = build(cols, units, params, ('Cost', 'Time'), eco)
        expect(obs, a, cols, units, params, ('Cost', 'Time'), eco, k)
        return
    if k == 'rho':
        keys = [('A', '1', '1', '0', '1'), ('A', '2', '1', '0', '1')]
        n = 30
        cols = {key: [1.0 + (i % 3)] * n for i, key in enumerate(keys)}
        params = [
            {'id': 'A', 'dv': 'Cost', 'unit': 'USD_2011', 'ds': [SHAPES['logn'], None]},
            {'id': 'A', 'dv': 'Time', 'unit': 'worker_day', 'ds': [SHAPES['fnlogn'], None]},
        ]
        obs.step(4)
        a = build(cols, {'A': 'EA'}, params, ('Cost', 'Time'), eco, rho=sc['rho'], method='LHS')
        s = a.loss.ds_model.sample
        got = {tuple(map(str, c)): s.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(s.columns)}
        for key in keys:
            c = got['Cost', 'A', 'A', '1', key[1], '1', '0']
            t = got['Time', 'A', 'A', '1', key[1], '1', '0']
            rc, rt = np.argsort(np.argsort(c)), np.argsort(np.argsort(t))
            obs.eq(rt, rc if sc['rho'] > 0 else n - 1 - rc, 'rho:rank', f'{key} rho={sc["rho"]}')
            obs.state('rho', sc['rho'], rc)
        r1 = np.argsort(got['Cost', 'A', 'A', '1', '1', '1', '0'])
        r2 = np.argsort(got['Cost', 'A', 'A', '1', '2', '1', '0'])
        obs.check(not np.array_equal(r1, r2), 'rho:independent', 'locations share deviations')
        return
    if k == 'avail':
        keys = [('A', '1', '1', '0', '1'), ('B', '1', '1', '0', '1')]
        cols = {key: [0.0, 1.0, 3.0, 2.0] for key in keys}
        params = [{'id': i, 'dv': dv, 'unit': 'USD_2011' if dv == 'Cost' else 'worker_day', 'ds': [SHAPES[s], None]}
                  for h, (i, dv, s) in zip(sc['have'], [('A', 'Cost', 'fn'), ('A', 'Time', 'logn'), ('B', 'Cost', 'const'), ('B', 'Time', 'fn')]) if h]
        if not params:
            # a table with no relevant row at all
            params = [{'id': 'Z', 'dv': 'Cost', 'unit': 'USD_2011', 'ds': [SHAPES['fn'], None]}]
        obs.step(4)
        a = build(cols, {'A': 'EA', 'B': 'EA'}, params, ('Cost', 'Time'), eco)
        expect(obs, a, cols, {'A': 'EA', 'B': 'EA'}, [p for p in params if p['id'] != 'Z'], ('Cost', 'Time'), eco, k)
        return
    if k == 'nodmg':
        if sc['z'] == 'only0':
            cols = {('A', '1', '1', '0', '0'): [1.0, 2.0]}
        else:
            cols = {('A', '1', '1', '0', '0'): [1.0, 2.0], ('A', '1', '1', '0', '1'): [0.0, 0.0]}
        params = [{'id': 'A', 'dv': 'Cost', 'unit': 'USD_2011', 'ds': [SHAPES['fnlogn']]}]
        obs.step(4)
        a = build(cols, {'A': 'EA'}, params, ('Cost',), eco)
        s = a.loss.sample
        tot = 0.0 if s is None else float(np.nansum(s.to_numpy(dtype=float)))
        obs.eq(tot, 0.0, 'nodmg:total', str(sc))
        obs.state(k, sc['z'], eco)
