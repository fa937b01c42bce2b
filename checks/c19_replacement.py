"""Replacement exclusivity and replacement thresholds."""

from __future__ import annotations

import itertools

import numpy as np

from checks import c21_aggregation as c21
from mc import dlrun, lossflow, pel

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = ('one scenario = (replacement consequences, thresholds, decision variables); its rows enumerate every combination of collapse, '
        'irreparable damage, repair losses of two components and a loss function; states = distinct (configuration, outcome)')
BOUND = {
    'quick': '2 replacement drivers, 2 repair components, 1 loss-function component, losses from {0,1,2,3}; thresholds below/at/above '
             'each attainable total, for every subset of decision variables, deterministic and random replacement values; complete runs with the consequences taken from the configuration; combined losses; losses from 2^-40 to 2^40',
    'thorough': 'same with three decision variables in all orders and more threshold values',
}
ASSUMPTIONS = ['replacement consequences of a damage-triggered replacement are positive']

ALL = list(itertools.product([0.0, 1.0], [0.0, 1.0], [0.0, 1.0, 3.0], [0.0, 2.0], [0.0, 1.0]))
# realizations with and without replacement alternate
ROWS = [ALL[(29 * i + 17) % len(ALL)] for i in range(len(ALL))]
REP = {('replacement', 'Cost'): 100.0, ('replacement', 'Time'): 50.0, ('replacement', 'Carbon'): 70.0,
       ('A', 'Time'): 0.5, ('B', 'Time'): 2.0, ('L', 'Time'): 0.25}
VALUE = {'Cost': 8.0, 'Time': 4.0, 'Carbon': 16.0}


def scenarios(tier):
    dvsets = [('Cost',), ('Cost', 'Time'), ('Time', 'Cost')]
    if tier == 'thorough':
        dvsets += list(itertools.permutations(('Cost', 'Time', 'Carbon')))
    ratios = [None, 0.0, 0.125, 0.25, 0.3, 0.375, 0.5, 0.625, 0.75, 1.0]
    for dvs in dvsets:
        yield {'dvs': dvs, 'rep': 'all', 'thr': None, 'lf': 1}
        yield {'dvs': dvs, 'rep': 'all', 'thr': None, 'lf': 0}
        if len(dvs) > 1:
            yield {'dvs': dvs, 'rep': 'costonly', 'thr': None, 'lf': 1}
            yield {'dvs': dvs, 'rep': 'timeonly', 'thr': None, 'lf': 1}
        rr = ratios if len(dvs) < 3 or tier == 'thorough' else ratios[:4]
        if len(dvs) == 3:
            rr = [None, 0.0, 0.25, 0.375, 1.0]
        for r in itertools.product(rr, repeat=len(dvs)):
            for lf in (0, 1) if len(dvs) == 1 else (1,):
                yield {'dvs': dvs, 'rep': 'all', 'thr': [x for x in r], 'lf': lf}
            if len(dvs) > 1:
                yield {'dvs': dvs, 'rep': 'none', 'thr': [x for x in r], 'lf': 1}
    for dvs in dvsets:
        for rep in ('all', 'none'):
            for r in (0.125, 0.25, 0.5, 1.0):
                yield {'dvs': dvs, 'rep': rep, 'thr': [r] * len(dvs), 'lf': 1, 'rand': 1}
    # next to combined losses
    for dvs in dvsets[:3]:
        for rep in ('all', 'none', 'costonly', 'timeonly'):
            for r in (None, 0.0, 0.25, 0.3125, 0.375, 0.5):
                for order in ('AB', 'BA'):
                    if len(dvs) > 1 or rep in ('all', 'none'):
                        yield {'dvs': dvs, 'rep': rep, 'thr': None if r is None else [r] * len(dvs), 'lf': int(order == 'AB'), 'comb': order}
    # very large and very small losses
    for dvs in dvsets[:2]:
        for rep in ('all', 'none'):
            for e in (-40, -20, 18, 40):
                for r in (0.25, 0.375, 0.5):
                    for lf in (0,) if e == 40 else (0, 1):
                        yield {'dvs': dvs, 'rep': rep, 'thr': [r] * len(dvs), 'lf': lf, 'exp': e}
    # no damage at all / losses from loss functions only
    for thr in (None, [0.25, 0.25]):
        yield {'dvs': ('Cost', 'Time'), 'rep': 'lfonly', 'thr': thr, 'lf': 1}
        yield {'dvs': ('Cost', 'Time'), 'rep': 'noloss', 'thr': thr, 'lf': 0}
    # a decision variable without any loss
    for thr in (None, [0.25, 0.25], [0.25, None], [None, 0.25]):
        yield {'dvs': ('Cost', 'Time'), 'rep': 'notime', 'thr': thr, 'lf': 1}
    # large buildings
    for size in c21.LARGE:
        for dvs in (('Cost', 'Time'), ('Time', 'Cost')):
            for q in (None, 0.3, 0.7):
                yield {'dvs': dvs, 'rep': 'large', 'size': list(size), 'thr': None if q is None else [q, None if size[0] % 3 else q], 'lf': 1}
    # replacement consequences from the configuration of a complete run
    yield from cfg_scenarios(tier)
    for thr in ('missingrv', 'badtype', 'unknownkey', 'unknownratio'):
        yield {'bad': thr}


PAR = [None, {}, {'Distribution': 'normal', 'Theta_1': 0.1}, {'Distribution': 'lognormal', 'Theta_1': 0.3}]
MED = {'Cost': ('USD_2011', 5000.0), 'Time': ('worker_day', 90.0), 'Carbon': ('lb', 700.0), 'Energy': ('MJ', 40.0)}
NAME = {'Cost': 'repair_cost', 'Time': 'repair_time-sequential', 'Carbon': 'repair_carbon', 'Energy': 'repair_energy'}


def cfg_scenarios(tier):
    k = 0
    for shift in range(4):
        for step in (1, 3) if tier == 'quick' else range(4):
            for median in (1e-5, 0.013):
                p = {dv: (shift + step * i) % 4 for i, dv in enumerate(MED)}
                k += 1
                yield {'cfg': p, 'median': median, 'irr': k % 3, 'n': 60 if median > 1e-3 else 160}
    for dvs in (('Cost',), ('Energy', 'Cost'), ('Carbon',), ('Time', 'Carbon')):
        yield {'cfg': {dv: 3 for dv in dvs}, 'median': 0.013, 'irr': 2, 'n': 60}


def run_cfg(sc, obs):
    """A complete run: replaced realizations have the configured replacement consequences and nothing else."""
    from checks import c28_outputs as c28
    from mc import ref

    over = {'DL__Losses__Repair__DecisionVariables': {dv: True for dv in sc['cfg']}, 'DL__Demands__SampleSize': str(sc['n']),
            'DL__Damage__CollapseFragility__CapacityMedian': sc['median']}
    for dv in MED:
        q = PAR[sc['cfg'].get(dv, 0)]
        u, m = MED[dv]
        over[f'DL__Losses__Repair__Replacement{dv}'] = None if q is None else {'Unit': u, 'Median': m, **q}
    over['DL__Damage__IrreparableDamage__DriftCapacityMedian'] = [1e-6, 0.004, 0.02][sc['irr']]
    c = dlrun.p58_config(**over)
    files = {'response.csv': dlrun.demands(n=9), 'CMP.csv': dlrun.CMP}
    res, raw = dlrun.in_child(c28._run, {'config': c, 'files': files, 'losses': True, 'kw': {'realizations': sc['n']}})
    if not obs.check(res['end'] == 'ok', 'cfg:end', f"{sc}: {res['end']}"):
        return
    n = sc['n']
    dn, ln = raw['damage_names'], raw['loss_names']
    by = np.zeros(n, dtype=bool)
    for col, v in raw['damage'][0].items():
        r = dict(zip(dn, col))
        if r['cmp'] in ('collapse', 'irreparable') and r['ds'] == '1':
            by |= np.nan_to_num(np.array(v, dtype=float)) > 0
    got = {k[0] if isinstance(k, tuple) and len(k) == 1 else k: np.array(v, dtype=float) for k, v in raw['agg'].items()}
    got = {'-'.join(x for x in ((k,) if isinstance(k, str) else k) if x): v for k, v in got.items()}
    fix = {dv: np.zeros(n) for dv in sc['cfg']}
    rep = {dv: np.zeros(n) for dv in sc['cfg']}
    for col, v in raw['loss'][0].items():
        r = dict(zip(ln, col))
        x = np.nan_to_num(np.array(v, dtype=float))
        (rep if r['loss'] == 'replacement' else fix)[r['dv']] += x
    for dv, j in sc['cfg'].items():
        u, m = MED[dv]
        q = PAR[j]
        msg = f'{sc} {dv}'
        obs.check(np.all(rep[dv][~by] == 0), 'cfg:not-replaced', msg)
        if q is None:
            # documented default of the component-based method
            obs.check(np.all(rep[dv] == 0), 'cfg:default', lambda dv=dv, msg=msg: f'{msg}: {rep[dv][by][:5]}')
        elif not q:
            obs.close(rep[dv][by], np.full(by.sum(), m), 'cfg:median', msg)
        else:
            x = np.sort(rep[dv][by])
            cdf = np.array([ref.base_cdf(q['Distribution'], (m, q['Theta_1']), float(v)) for v in x])
            obs.check(np.all(np.diff(x) > 0), 'cfg:random', f'{msg}: replacement consequences repeat')
            i = np.arange(len(x))
            dist = max(np.max(cdf - i / len(x)), np.max((i + 1) / len(x) - cdf)) if len(x) else 0.0
            # far beyond any plausible sampling deviation
            obs.check(len(x) < 20 or dist < 2.4 / np.sqrt(len(x)), 'cfg:distribution', f'{msg}: distance {dist} over {len(x)} realizations')
        want = np.where(by & (rep[dv] > 0), rep[dv], fix[dv])
        if any(np.any(rep[d] > 0) for d in rep):
            anyrep = np.any([rep[d] > 0 for d in rep], axis=0)
            want = np.where(anyrep, rep[dv], fix[dv])
        if NAME[dv] in got:
            obs.close(got[NAME[dv]], want, f'cfg:total:{dv}', msg)
        else:
            obs.check(np.all(want == 0), f'cfg:total:{dv}:absent', f'{msg}: {sorted(got)}')
    obs.state('cfg', sc['cfg'], int(by.sum()))


def setup(sc):
    dvs = tuple(sc['dvs'])
    if sc['rep'] == 'large':
        ds, lf = c21.large(*sc['size'])
        ids = sorted({k[0] for k in [*ds, *lf]} - {'R'})
        return dvs, ds, lf, {**{(i, dv): 0.25 * (1 + len(i) + ord(i[-1]) % 5) for i in ids for dv in dvs}, ('replacement', 'Cost'): 512.0}, {'R': 'replacement'}
    rows = ROWS
    ds = {}
    rep = sc['rep']
    if rep not in ('lfonly', 'none'):
        ds['collapse', '0', '1', '0', '1'] = [r[0] for r in rows]
        ds['irr', '0', '1', '0', '1'] = [r[1] for r in rows]
    if rep != 'lfonly':
        ds['A', '1', '1', '0', '1'] = [r[2] for r in rows]
        ds['A', '12', '1', '0', '2'] = [r[2] * 2 for r in rows]
        ds['B', '1', '1', '0', '1'] = [r[3] for r in rows]
    if rep == 'noloss':
        ds = {(*k[:4], '0'): [1.0] * len(rows) for k in ds}
    lf = {('L', '1', '1'): [r[4] for r in rows], ('L', '12', '1'): [2 * r[4] for r in rows]} if sc['lf'] else {}
    f = dict(REP)
    if rep == 'costonly':
        f['replacement', 'Time'] = None
    if rep == 'timeonly':
        f['replacement', 'Cost'] = None
    if rep == 'notime':
        for i in ('replacement', 'A', 'B', 'L'):
            f[i, 'Time'] = None
    lmap = {'collapse': 'replacement', 'irr': 'replacement'}
    return dvs, ds, lf, f, lmap


def losses(ds, lf, f, lmap, dvs):
    """{dv: (repair total, replacement total)} per realization."""
    out = {}
    n = len(next(iter({**ds, **lf}.values())))
    for dv in dvs:
        repair, repl = {}, np.zeros(n)
        loc = {}
        for k, v in list(ds.items()) + [((*k, '0', 'lf'), v) for k, v in lf.items()]:
            if k[4] == '0':
                continue
            i = lmap.get(k[0], k[0])
            c = f.get((i, dv), 1.0)
            if c is None:
                continue
            x = np.array(v) * c
            if i == 'replacement':
                repl = repl + x
                loc.setdefault(('rep', k[1]), np.zeros(n))
                loc['rep', k[1]] += x
            else:
                loc.setdefault(('fix', k[1]), np.zeros(n))
                loc['fix', k[1]] += x
        out[dv] = (sum((v for kk, v in loc.items() if kk[0] == 'fix'), np.zeros(n)), repl, loc)
    return out


def run(sc, obs):
    from pelicun import uq

    obs.step(6)
    if 'bad' in sc:
        return run_bad(sc, obs)
    if 'cfg' in sc:
        return run_cfg(sc, obs)
    dvs, ds, lf, f, lmap = setup(sc)
    scale = 2.0 ** sc.get('exp', 0)
    amount = {dv: v * scale for dv, v in VALUE.items()}
    ds, lf = ({k: [x * scale for x in v] for k, v in t.items()} for t in (ds, lf))
    a = lossflow.build(ds, lf, dvs, lmap, f)
    n = len(next(iter({**ds, **lf}.values())))
    before = None if a.loss.sample is None else a.loss.sample.copy()
    ref = losses(ds, lf, f, lmap, dvs)
    if sc['rep'] == 'large' and sc['thr'] is not None:
        # thresholds at one of the totals
        sc = {**sc, 'thr': [None if q is None else float(np.sort(ref[dv][0])[int(q * n)]) / amount[dv] for q, dv in zip(sc['thr'], dvs)]}
    comb = None
    if sc.get('comb'):
        # losses of A and B at the same place are combined (exactly, in between the points of the table)
        g = np.array([0.0, 2.0, 4.0])
        comb = {dv: {tuple(sc['comb']): g[:, None] + g[None, :] - 0.25 * g[:, None] * g[None, :]} for dv in dvs}
        for dv in dvs:
            less = 0.25 * np.array(ds['A', '1', '1', '0', '1']) * np.array(ds['B', '1', '1', '0', '1']) * f.get(('A', dv), 1.0) * f.get(('B', dv), 1.0)
            fix, repl, loc = ref[dv]
            ref[dv] = (fix - less, repl, {**loc, ('fix', '1'): loc['fix', '1'] - less})
    by_damage = np.zeros(n, dtype=bool)
    for dv in dvs:
        by_damage |= ref[dv][1] > 0
    cfg = None
    if sc['thr'] is not None:
        reg = uq.RandomVariableRegistry(a.options.rng)
        for dv in dvs:
            if sc.get('rand'):
                reg.add_RV(uq.rv_class_map('lognormal')(name=dv, theta=np.array((amount[dv], 0.6))))
            else:
                reg.add_RV(uq.rv_class_map('deterministic')(name=dv, theta=np.array((amount[dv],))))
        cfg = (reg, {dv: r for dv, r in zip(dvs, sc['thr']) if r is not None})
    agg, exc = a.loss.aggregate_losses(cfg, comb, future=True)
    got = lossflow.agg_cols(agg)
    exceeded = np.zeros(n, dtype=bool)
    flags = {}
    if cfg is not None:
        for dv, r in cfg[1].items():
            val = cfg[0].RV[dv].sample if sc.get('rand') else np.full(n, amount[dv])
            if sc['rep'] == 'noloss':
                val = np.full(n, amount[dv])
            rep = np.where(by_damage, 0.0, ref[dv][0])
            flags[dv] = (rep > val * r) & ~by_damage
            exceeded |= flags[dv]
        for dv in dvs:
            w = flags.get(dv, np.zeros(n, dtype=bool))
            if obs.check(dv in exc.columns, 'exceedance:column', f'{sc} {dv}'):
                obs.eq(exc[dv].to_numpy(dtype=bool).tolist(), w.tolist(), 'exceedance', f'{sc} {dv}')
    for dv in dvs:
        fix, repl, loc = ref[dv]
        want = np.where(by_damage, repl, fix)
        val = None
        if cfg is not None and exceeded.any():
            val = cfg[0].RV[dv].sample if sc.get('rand') else np.full(n, amount[dv])
            want = np.where(exceeded, val, want)
        names = [f'repair_{dv.lower()}'] if dv != 'Time' else ['repair_time-sequential']
        for nm in names:
            if nm in got:
                obs.close(got[nm], want, f'total:{nm}', str(sc))
            else:
                obs.check(np.all(want == 0), f'total:{nm}:absent', f'{sc}: {sorted(got)}')
        if dv == 'Time' and 'repair_time-parallel' in got:
            par = np.zeros(n)
            for l in {k[1] for k in loc}:
                fx = loc.get(('fix', l), np.zeros(n))
                rp = loc.get(('rep', l), np.zeros(n))
                par = np.maximum(par, np.where(by_damage, rp, fx))
            if val is not None:
                par = np.where(exceeded, val, par)
            obs.close(got['repair_time-parallel'], par, 'total:parallel', str(sc))
    obs.eq(len(agg), n, 'rows', str(sc))
    if before is not None:
        obs.check(before.equals(a.loss.sample), 'sample-changed', str(sc))
    # deterministic configurations can be repeated
    if not sc.get('rand'):
        agg2, _ = a.loss.aggregate_losses(cfg, comb, future=True)
        obs.check(agg.equals(agg2), 'repeat', str(sc))
    obs.state(sc['dvs'], sc['rep'], [np.round(v, 5) for _, v in sorted(got.items())])


def run_bad(sc, obs):
    from pelicun import uq

    ds = {('A', '1', '1', '0', '1'): [1.0, 2.0]}
    a = lossflow.build(ds, {}, ('Cost', 'Time'))
    reg = uq.RandomVariableRegistry(a.options.rng)
    names = {'missingrv': ['Cost'], 'badtype': ['Cost', 'Time'], 'unknownkey': ['Cost', 'Time', 'Fun'], 'unknownratio': ['Cost', 'Time']}[sc['bad']]
    for nm in names:
        reg.add_RV(uq.rv_class_map('deterministic')(name=nm, theta=np.array((10.0,))))
    ratios = {'Cost': 0.1, 'Time': 0.1}
    if sc['bad'] == 'unknownratio':
        ratios['Fun'] = 0.1
    try:
        a.loss.aggregate_losses((reg if sc['bad'] != 'badtype' else {'Cost': 1.0, 'Time': 1.0}, ratios), future=True)
    except (ValueError, TypeError):
        obs.check(True, 'bad')
    else:
        obs.fail('bad:accepted', str(sc))
    obs.state(sc)
