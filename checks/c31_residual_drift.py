"""Residual drift estimates follow the inference rule for every drift."""

from __future__ import annotations

import itertools
import math
import shutil

import numpy as np
import pandas as pd

from mc import flow, pel

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = ('one scenario = (yield drift(s), drift columns in a given order, interface, noise level); its rows enumerate every assignment of '
        'drift levels around the thresholds to the columns; states = distinct (regime pattern, noise, interface, labels)')
BOUND = {
    'quick': '13 drift levels around the thresholds in every combination over 1-2 columns, 7 layouts of locations/directions incl. '
             'multi-digit ones, tall buildings with up to 110 stories, 4 yield drifts, 5 noise levels (stub) + 3 seeded runs; tables that already have residual drifts, repeated inference; direct, in-place and config-driven calls',
    'thorough': 'also 3 columns, 9 yield drifts',
}
ASSUMPTIONS = ['the lognormal dispersion of 0.2 is the documented "extra uncertainty"; its draws are replaced by chosen constants through Options.rng']

LAYOUTS = [
    [('1', '1')],
    [('1', '1'), ('1', '2')],
    [('1', '2'), ('1', '1')],
    [('2', '1'), ('1', '1')],
    [('10', '1'), ('9', '1')],
    [('1', '10'), ('1', '2')],
    [('2', '2'), ('11', '1')],
]
DYS = [0.005, 0.01, 0.02, 0.25]


class Rng:
    """Stand-in of the generator: every draw is the same number of sigmas."""

    def __init__(self, z):
        self.z = z
        self._real = np.random.default_rng(1)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def _fill(self, size):
        return float(self.z) if size is None else np.full(size, float(self.z))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._fill(size)

    def standard_normal(self, size=None, **_k):
        return self._fill(size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(mean + sigma * self._fill(size))


def levels(dy):
    e = 1e-6
    return [0.0, dy * 1e-6, dy / 2, dy * (1 - e), dy, dy * (1 + e), 1.5 * dy, 2.5 * dy, 4 * dy * (1 - e), 4 * dy, 4 * dy * (1 + e), 6 * dy, 20 * dy]


def rule(p, dy, z):
    """FEMA P-58 Vol. 1, Eq. 5-25."""
    if p <= dy:
        r = 0.0
    elif p < 4 * dy:
        r = 0.3 * (p - dy)
    else:
        r = p - 3 * dy
    r *= math.exp(0.2 * z)
    return min(r, p)


def regime(p, dy):
    return 0 if p < dy else 1 if p < 4 * dy else 2


def scenarios(tier):
    th = tier == 'thorough'
    dys = DYS + ([0.001, 0.0075, 0.015, 0.05, 1.0] if th else [])
    for lay in range(len(LAYOUTS)):
        for dy in dys:
            for z in (-3, -0.5, 0, 1, 8):
                for how in ('direct', 'adjust', 'default'):
                    yield {'lay': lay, 'dy': dy, 'z': z, 'how': how}
    for lay in range(len(LAYOUTS)):
        for z in (0, 1):
            for pair in itertools.permutations((0.005, 0.01, 0.02), 2):
                yield {'lay': lay, 'dys': list(pair), 'z': z, 'how': 'config'}
    # residual drifts that are already in the table: the estimates replace them
    for lay in range(len(LAYOUTS)):
        for z in (0, 1):
            for had in ('first', 'all', 'other', 'again'):
                yield {'lay': lay, 'dy': 0.01, 'z': z, 'how': 'adjust', 'had': had}
                if had != 'again':
                    yield {'lay': lay, 'dys': [0.01, 0.02], 'z': z, 'how': 'config', 'had': had}
    # tall buildings with many directions
    for st, nd in ((12, 1), (24, 2), (3, 13), (110, 1)):
        for z in (0, 1):
            for how in ('direct', 'adjust', 'config'):
                yield {'tall': [st, nd], 'dy': 0.01, 'dys': [0.005, 0.01], 'z': z, 'how': how}
    for s in (1, 2, 3):
        for how in ('direct', 'adjust', 'default', 'config'):
            yield {'lay': 1, 'dy': 0.01, 'dys': [0.01, 0.02], 'seed': s, 'how': how}
    if th:
        for z in (0, 1):
            yield {'lay': 7, 'dy': 0.01, 'z': z, 'how': 'direct'}
    for how in ('direct', 'adjust', 'config'):
        yield {'bad': how}
    for idx in ([0, 2, 5], [7, 3, 1]):
        yield {'gaps': idx}


def layout(sc):
    if 'tall' in sc:
        st, nd = sc['tall']
        return [(str(1 + (7 * i) % st if st % 7 else 1 + i), str(d + 1)) for d in range(nd) for i in range(st)]
    return LAYOUTS[sc['lay']] if sc['lay'] < len(LAYOUTS) else [('1', '1'), ('2', '2'), ('2', '1')]


def shifted(cols):
    """Levels of every column in another order: as many rows as levels."""
    return [tuple(lv[(r * (1 + i % 3) + 5 * i) % 13] for i, lv in enumerate(cols)) for r in range(13)]


def table(lay, dy):
    lv = levels(dy)
    if len(lay) > 3:
        return shifted([lv] * len(lay))
    rows = list(itertools.product(lv, repeat=len(lay)))
    return rows


def earlier(lay, had):
    return {'first': lay[:1], 'all': list(lay), 'other': [('7', '1')]}.get(had, [])


def sample_df(lay, rows, had=None):
    cols = {f'PID-{l}-{d}': ['rad', [r[i] for r in rows]] for i, (l, d) in enumerate(lay)}
    n = len(rows)
    cols.update({f'RID-{l}-{d}': ['rad', [0.123 + 0.001 * k for k in range(n)]] for l, d in earlier(lay, had)})
    for l in sorted({l for l, _ in lay}):
        cols[f'PFA-{l}-1'] = ['mps2', [float(k) for k in range(n)]]
    return flow.demand_df(cols)


def run(sc, obs):
    obs.step(3)
    if 'bad' in sc:
        return run_bad(sc, obs)
    if 'gaps' in sc:
        return run_gaps(sc, obs)
    lay = layout(sc)
    how = sc['how']
    with pel.quiet():
        if how == 'config':
            return run_config(sc, obs, lay)
        dy = sc['dy']
        rows = table(lay, dy)
        a = pel.asmt(Seed=sc.get('seed', 1))
        a.demand.load_sample(sample_df(lay, rows, sc.get('had')))
        before, ubefore = a.demand.save_sample(save_units=True)
        if 'z' in sc:
            a.options._rng = Rng(sc['z'])
        pid = before['PID'].copy()
        # (the caller decides on the column order)
        pid = pid[[c for c in lay]]
        keep = pid.copy(deep=True)
        par = {'yield_drift': dy}
        if how == 'direct':
            rid = a.demand.estimate_RID(pid, par)
            obs.check(pid.equals(keep) and par == {'yield_drift': dy}, 'input-changed', 'peak drifts or parameters were changed by the inference')
            obs.check(a.demand.save_sample().equals(before), 'sample-changed', 'the stored sample changed')
            got = {tuple(map(str, c)): rid.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(rid.columns)}
            obs.eq(list(rid.index), list(pid.index), 'index', 'realizations')
        else:
            if sc.get('had') == 'again':
                a.options._rng.z = 3
                a.demand.estimate_RID_and_adjust_sample({'yield_drift': 0.03})
                a.options._rng.z = sc['z']
            if how == 'adjust':
                a.demand.estimate_RID_and_adjust_sample(par, 'FEMA P-58')
            else:
                a.demand.estimate_RID_and_adjust_sample(params=par)
            after, uafter = a.demand.save_sample(save_units=True)
            obs.check(after.columns.is_unique, 'duplicate', f'{list(after.columns)}')
            stay = [('RID', '7', '1')] if sc.get('had') == 'other' else []
            got = {tuple(map(str, c)): after[c].to_numpy(dtype=float) for c in after.columns if c[0] == 'RID' and c not in stay}
            gone = [('RID', *c) for c in earlier(lay, sc.get('had')) if ('RID', *c) not in stay]
            before = before[[c for c in before.columns if c not in gone]]
            rest = after[[c for c in after.columns if c[0] != 'RID' or c in stay]]
            obs.check(par == {'yield_drift': dy}, 'input-changed', 'parameters were changed')
            obs.eq(sorted(map(tuple, rest.columns)), sorted(map(tuple, before.columns)), 'labels', 'other demands')
            for c in before.columns:
                obs.close(after[c], before[c], 'other-changed', f'demand {c}', rtol=1e-12)
                obs.eq(uafter[c], ubefore[c], 'other-unit', f'unit of {c}')
            for c in got:
                obs.check(uafter[c] in {'unitless', 'rad'}, 'rid-unit', f'{c}: {uafter[c]}')
        verdict(obs, sc, lay, rows, {d: dy for _, d in lay}, got)


def verdict(obs, sc, lay, rows, dys, got, pid=None):
    want = [('RID', l, d) for l, d in lay]
    obs.eq(sorted(got), sorted(want), 'labels', 'residual drift columns')
    eps = []
    for i, (l, d) in enumerate(lay):
        g = got[('RID', l, d)]
        p = np.array([r[i] for r in rows]) if pid is None else pid[(l, d)]
        dy = dys[d]
        obs.check(not np.isnan(g).any() and (g >= 0).all(), 'negative', lambda: f'{l}-{d}: {g.tolist()}')
        obs.check((g <= p * (1 + 1e-9)).all(), 'above-peak', lambda: f'{l}-{d}: residual above peak {g.tolist()} {p.tolist()}')
        if 'z' in sc:
            obs.close(g, [rule(x, dy, sc['z']) for x in p], 'rule', f'{l}-{d} yield {dy} noise {sc["z"]}', rtol=1e-6, atol=1e-12)
        else:
            base = np.array([rule(x, dy, 0) for x in p])
            zero = p <= dy
            obs.check((g[zero] == 0).all(), 'below-yield', lambda: f'{g.tolist()}')
            obs.check((g[~zero] > 0).all(), 'above-yield', lambda: f'{g.tolist()}')
            free = (~zero) & (g < p * (1 - 1e-9)) & (p < 4 * dy) & (base > 1e-12)
            eps += np.log(g[free] / base[free]).tolist()
    if 'z' not in sc and len(eps) > 10:
        obs.check(len({round(x, 12) for x in eps}) > 0.9 * len(eps), 'noise-shared', 'the extra uncertainty is not drawn for each value')
        obs.check(0.1 < float(np.std(eps)) < 0.3 and abs(float(np.mean(eps))) < 0.12, 'noise-scale',
                  f'dispersion {np.std(eps)} mean {np.mean(eps)} over {len(eps)} values')
    for r in rows[:: max(1, len(rows) // 40)]:
        obs.state(sc['how'], sc.get('z'), sc.get('lay', sc.get('tall')), [regime(x, dys[d]) for x, (_, d) in zip(r, lay)])


def run_config(sc, obs, lay):
    from pelicun.assessment import DLCalculationAssessment

    dirs = sorted({d for _, d in lay})
    dys = {d: sc['dys'][i % 2] for i, d in enumerate(dirs)}
    lv = {d: levels(v) for d, v in dys.items()}
    rows = list(itertools.product(*[lv[d] for _, d in lay])) if len(lay) <= 3 else shifted([lv[d] for _, d in lay])
    d = pel.scratch('rid')
    try:
        sample_df(lay, rows, sc.get('had')).to_csv(d / 'dem.csv')
        a = DLCalculationAssessment({'PrintLog': False, 'Seed': sc.get('seed', 1)})
        if 'z' in sc:
            a.options._rng = Rng(sc['z'])
        cfg = {'method': 'FEMA P-58', **{k: v for k, v in dys.items()}}
        keep = dict(cfg)
        a.calculate_demand(demand_path=d / 'dem.csv', collapse_limits=None, length_unit=None, demand_calibration=None,
                           sample_size=len(rows), demand_cloning=None, residual_drift_inference=cfg, coupled_demands=True)
        obs.eq(cfg, keep, 'config-changed', 'the settings given by the caller')
        s = a.demand.sample
        obs.check(s.columns.is_unique, 'duplicate', f'{list(s.columns)}')
        stay = [('RID', '7', '1')] if sc.get('had') == 'other' else []
        for c in stay:
            obs.close(s[c], [0.123 + 0.001 * k for k in range(len(rows))], 'other-changed', f'{c}', rtol=1e-9)
        got = {tuple(map(str, c)): s[c].to_numpy(dtype=float) for c in s.columns if c[0] == 'RID' and c not in stay}
        pid = {(str(c[1]), str(c[2])): s[c].to_numpy(dtype=float) for c in s.columns if c[0] == 'PID'}
        for i, k in enumerate(lay):
            obs.close(pid[k], [r[i] for r in rows], 'peak-changed', f'PID {k}', rtol=1e-9)
        verdict(obs, sc, lay, rows, dys, got, pid)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_bad(sc, obs):
    with pel.quiet():
        a = pel.asmt()
        if sc['bad'] == 'adjust':
            try:
                a.demand.estimate_RID_and_adjust_sample({'yield_drift': 0.01})
                obs.fail('no-sample', 'inference without a sample was accepted')
            except ValueError:
                pass
        a.demand.load_sample(sample_df(LAYOUTS[1], [(0.01, 0.02), (0.03, 0.04)]))
        before = a.demand.save_sample()
        fn = (lambda: a.demand.estimate_RID(before['PID'], {'yield_drift': 0.01}, 'other')) if sc['bad'] == 'direct' else (
            lambda: a.demand.estimate_RID_and_adjust_sample({'yield_drift': 0.01}, 'other'))
        if sc['bad'] != 'config':
            try:
                fn()
                obs.fail('unknown-method', 'an unknown method was accepted')
            except ValueError:
                pass
            obs.check(a.demand.save_sample().equals(before), 'rejected-changed', 'a rejected request changed the sample')
        else:
            from pelicun.assessment import DLCalculationAssessment

            d = pel.scratch('rid')
            sample_df(LAYOUTS[1], [(0.01, 0.02), (0.03, 0.04)]).to_csv(d / 'dem.csv')
            b = DLCalculationAssessment({'PrintLog': False, 'Seed': 1})
            try:
                b.calculate_demand(demand_path=d / 'dem.csv', collapse_limits=None, length_unit=None, demand_calibration=None, sample_size=2,
                                   demand_cloning=None, residual_drift_inference={'method': 'x', '1': 0.01}, coupled_demands=True)
                obs.fail('unknown-method', 'an unknown method was accepted')
            except ValueError:
                pass
            shutil.rmtree(d, ignore_errors=True)
    obs.state('bad', sc['bad'])


def run_gaps(sc, obs):
    """Realizations keep their labels."""
    with pel.quiet():
        a = pel.asmt()
        a.options._rng = Rng(0)
        vals = np.array([[0.001, 0.08], [0.02, 0.001], [0.08, 0.02]])
        pid = pd.DataFrame(vals, index=sc['gaps'], columns=pd.MultiIndex.from_tuples([('3', '2'), ('1', '1')], names=['loc', 'dir']))
        keep = pid.copy(deep=True)
        rid = a.demand.estimate_RID(pid, {'yield_drift': 0.01})
        obs.eq(list(rid.index), sc['gaps'], 'index', 'realizations')
        obs.check(pid.equals(keep), 'input-changed')
        got = flow.cols_dict(rid)
        for i, c in enumerate([('3', '2'), ('1', '1')]):
            obs.close(got['RID', *c], [rule(x, 0.01, 0) for x in vals[:, i]], 'rule', f'{c}', rtol=1e-9)
        # integer drifts (multiples of the unit)
        pid = pd.DataFrame([[0, 5], [2, 1]], columns=pd.MultiIndex.from_tuples([('1', '1'), ('2', '1')]))
        rid = a.demand.estimate_RID(pid, {'yield_drift': 1})
        obs.close(rid.to_numpy(), [[0, 2], [0.3, 0]], 'rule', 'integer drifts')
    obs.state('gaps', sc['gaps'])
