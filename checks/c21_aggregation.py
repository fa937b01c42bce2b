"""Aggregated losses equal the sum of their parts."""

from __future__ import annotations

import itertools

import numpy as np

from mc import lossflow, lossref

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('one scenario = (layout of loss cells over components, damage states, locations, directions, uids and loss functions; decision '
        'variables; units); its rows enumerate every on/off pattern of the cells (each with its own power-of-two value); '
        'states = distinct (layout, decision variables, aggregated outcome)')
BOUND = {
    'quick': 'layouts of up to 7 cells, all 2^n on/off patterns; every ordered choice of 1-3 decision variables among 4; 3 unit systems; '
             'decision variables missing for some or all components; direct, facade and legacy calls',
    'thorough': 'layouts of up to 9 cells, every ordered choice of 1-4 decision variables',
}
ASSUMPTIONS = ['decision variables without any loss are left out of the table (as the code documents) and need not be reported as zero']

LAYOUTS = {
    'ds': ([('A', '1', '1', '0', '1'), ('A', '1', '1', '0', '2'), ('A', '1', '2', '0', '1'), ('A', '2', '1', '0', '1'),
            ('B', '2', '1', '0', '1'), ('B', '2', '1', '1', '1'), ('B', '10', '1', '0', '3')], []),
    'lf': ([], [('L', '1', '1'), ('L', '1', '2'), ('L', '2', '1'), ('M', '1', '1'), ('M', '3', '1')]),
    'mix': ([('A', '1', '1', '0', '1'), ('A', '2', '2', '0', '2'), ('B', '2', '1', '1', '1'), ('B', '3', '1', '0', '1')],
            [('L', '1', '1'), ('L', '2', '1'), ('L', '4', '2')]),
    'one': ([('A', '0', '1', '0', '1')], []),
    'onelf': ([], [('L', '1', '1')]),
    'rep': ([('A', '1', '1', '0', '1'), ('A', '2', '1', '0', '1'), ('R', '0', '1', '0', '1'), ('R', '0', '2', '0', '1')],
            [('L', '1', '1'), ('L', '2', '1')]),
}
BIG = ([('A', '1', '1', '0', '1'), ('A', '2', '2', '0', '2'), ('A', '11', '1', '0', '1'), ('B', '2', '1', '1', '1'), ('B', '1', '1', '0', '1')],
       [('L', '1', '1'), ('L', '2', '1'), ('L', '4', '2'), ('M', '2', '1')])
UNITS = [
    {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'},
    {'Cost': 'loss_ratio', 'Time': 'day', 'Carbon': 'lb', 'Energy': 'J'},
    {'Cost': 'USD', 'Time': 'hour', 'Carbon': 'ton', 'Energy': 'MJ'},
]
FAC = {'A': {'Cost': 1.0, 'Time': 0.5, 'Carbon': 3.0, 'Energy': 0.125}, 'B': {'Cost': 2.0, 'Time': 0.25, 'Carbon': 1.0, 'Energy': 1.0},
       'L': {'Cost': 0.5, 'Time': 2.0, 'Carbon': 0.25, 'Energy': 1.0}, 'M': {'Cost': 1.0, 'Time': 1.0, 'Carbon': 7.0, 'Energy': 2.0},
       'replacement': {'Cost': 4096.0, 'Time': 1024.0, 'Carbon': 16.0, 'Energy': 32.0}}

# components, locations, directions, identical rows, damage states, loss functions, realizations
LARGE = [(14, 3, 1, 1, 3, 0, 40), (2, 25, 2, 1, 2, 2, 40), (2, 2, 2, 3, 12, 3, 40), (1, 3, 2, 1, 2, 1, 1200), (3, 120, 1, 1, 1, 1, 12), (60, 2, 2, 1, 2, 3, 12)]


def large(nc, nl, nd, nu, ns, nf, n):
    """Losses of a large building in formula form."""
    ds = {}
    for c, lo, d, u, s in itertools.product(range(nc), range(1, nl + 1), range(1, nd + 1), range(nu), range(ns)):
        if (c + lo + d + u + s) % 6 != 5:
            # no damage at all is recorded in every group
            ds[f'C.{c + 1}' if c else 'R', str(lo), str(d), str(u), str(s)] = [
                float(((5 * i + 3 * lo + 7 * s + c + u) % 11) * (i % 7 == 3 if c == 0 else 1) * (s > 0 or ns == 1)) for i in range(n)]
    lf = {}
    for c, lo, d in itertools.product(range(nf), range(1, nl + 1), range(1, nd + 1)):
        lf[f'L.{c + 1}', str(lo), str(d)] = [float((5 * i + 3 * lo + c + d) % 13) for i in range(n)]
    return ds, lf


def scenarios(tier):
    th = tier == 'thorough'
    allv = ('Cost', 'Time', 'Carbon', 'Energy')
    sets = [p for k in range(1, 5 if th else 4) for p in itertools.permutations(allv, k)]
    lay = dict(LAYOUTS)
    if th:
        lay['big'] = BIG
    for nm in lay:
        for dvs in sets:
            for u in range(3):
                if not th and nm not in ('mix', 'ds') and (len(dvs) != 2 or u == 2):
                    continue
                yield {'lay': nm, 'dvs': list(dvs), 'u': u}
    for nm in ('ds', 'mix', 'rep'):
        for how in ('facade', 'legacy'):
            for dvs in (['Cost', 'Time'], ['Time', 'Cost', 'Carbon']):
                yield {'lay': nm, 'dvs': dvs, 'u': 1, 'how': how}
    for nm in ('ds', 'mix', 'lf'):
        ids = sorted({k[0] for k in LAYOUTS[nm][0] + LAYOUTS[nm][1]})
        for dvs in (['Cost', 'Time'], ['Time', 'Cost'], ['Carbon', 'Time', 'Cost']):
            for miss in itertools.product(ids, dvs):
                yield {'lay': nm, 'dvs': dvs, 'u': 1, 'miss': [list(miss)]}
            for m in dvs:
                yield {'lay': nm, 'dvs': dvs, 'u': 2, 'miss': [[i, m] for i in ids]}
    for dvs in (['CO2'], ['Cost', 'CO2'], ['CO2', 'Time']):
        yield {'lay': 'mix', 'dvs': dvs, 'u': 0}
    for size in LARGE:
        for dvs in (['Cost', 'Time'], ['Time'], ['Carbon', 'Energy', 'Time', 'Cost']):
            yield {'lay': 'large', 'size': list(size), 'dvs': dvs, 'u': 1}
    for n in (1, 3):
        for dvs in (['Cost'], ['Cost', 'Time'], ['Carbon', 'Time']):
            yield {'none': n, 'dvs': dvs}


def run(sc, obs):
    obs.step(6)
    dvs = sc['dvs']
    if 'none' in sc:
        a = lossflow.build({('A', '1', '1', '0', '0'): [1.0] * sc['none']}, {}, dvs)
        agg, exc = a.loss.aggregate_losses(future=True)
        got = lossflow.agg_cols(agg)
        want = {}
        for dv in dvs:
            for nm in ([f'repair_{dv.lower()}'] if dv != 'Time' else ['repair_time-sequential', 'repair_time-parallel']):
                want[nm] = [0.0] * sc['none']
        obs.eq({k: v.tolist() for k, v in got.items()}, want, 'nolosses', str(sc))
        obs.eq(len(exc), sc['none'], 'nolosses:rows')
        obs.state(sc)
        return
    if sc['lay'] == 'large':
        ds, lf = large(*sc['size'])
        allc, n = [*ds, *lf], sc['size'][-1]
    else:
        cells, lfs = BIG if sc['lay'] == 'big' else LAYOUTS[sc['lay']]
        allc = cells + lfs
        n = 2 ** len(allc)
        pat = (np.arange(n)[:, None] >> np.arange(len(allc))[None, :]) & 1
        val = pat * (2.0 ** np.arange(len(allc)))[None, :]
        ds = {c: val[:, i].tolist() for i, c in enumerate(cells)}
        lf = {c: val[:, len(cells) + i].tolist() for i, c in enumerate(lfs)}
    units = {**UNITS[sc['u']], 'CO2': 'kg'}
    fac = {}
    ids = sorted({k[0] for k in allc})
    lmap = {'R': 'replacement'}
    for i in ids:
        for dv in dvs:
            f = FAC.get(lmap.get(i, i))
            fac[lmap.get(i, i), dv] = 0.25 * (1 + len(i) + ord(i[-1]) % 5) if f is None else f.get(dv, 1.0)
    for i, dv in sc.get('miss', []):
        fac[i, dv] = None
    a = lossflow.build(ds, lf, dvs, lmap, fac, units)
    before = [None if m.sample is None else m.sample.copy() for m in (a.loss.ds_model, a.loss.lf_model)]
    if sc.get('how') == 'facade':
        agg, _ = a.aggregate_loss()
    elif sc.get('how') == 'legacy':
        agg = a.loss.aggregate_losses()
    else:
        agg, exc = a.loss.aggregate_losses(future=True)
        obs.check(len(exc) == n and not exc.to_numpy().any(), 'exceedance', str(sc))
    got = lossflow.agg_cols(agg)
    obs.eq(agg.index.tolist(), list(range(n)), 'index', str(sc))
    repl = np.zeros(n, dtype=bool)
    for k, v in ds.items():
        if k[0] == 'R' and k[4] != '0':
            repl |= np.array(v) > 0
    names = set()
    for dv in dvs:
        loc: dict = {}
        for k, v in list(ds.items()) + list(lf.items()):
            f = fac[lmap.get(k[0], k[0]), dv]
            if f is None or k[4:5] == ('0',):
                continue
            x = np.array(v) * f
            if k[0] != 'R':
                x = np.where(repl, 0.0, x)
            loc[k[1]] = loc.get(k[1], 0.0) + x
        # values come out in the unit of the consequence parameters, which is
        # the unit they were put in (one damaged unit -> f units of loss)
        nm = [f'repair_{dv.lower()}'] if dv != 'Time' else ['repair_time-sequential', 'repair_time-parallel']
        if not loc:
            for x in nm:
                obs.check(x not in got or np.all(got[x] == 0), f'absent:{x}', str(sc))
                names.add(x) if x in got else None
            continue
        names |= set(nm)
        obs.check(all(x in got for x in nm), f'missing:{dv}', f'{sc}: {sorted(got)}')
        if nm[0] in got:
            obs.close(got[nm[0]], sum(loc.values()), f'sum:{nm[0]}', str(sc), rtol=1e-9)
        if dv == 'Time' and nm[1] in got:
            obs.close(got[nm[1]], np.max(list(loc.values()), axis=0), 'parallel', str(sc), rtol=1e-9)
    obs.eq(sorted(got), sorted(names), 'columns', str(sc))
    for b, m in zip(before, (a.loss.ds_model, a.loss.lf_model)):
        obs.check((b is None) == (m.sample is None) and (b is None or b.equals(m.sample)), 'detail-changed', str(sc))
    # detailed results in base units
    s = a.loss.sample
    for dv in dvs:
        if dv in s.columns.get_level_values('dv').unique():
            tot = s[dv].sum(axis=1).to_numpy(dtype=float)
            w = sum((np.array(v) * fac[lmap.get(k[0], k[0]), dv] for k, v in list(ds.items()) + list(lf.items())
                     if fac[lmap.get(k[0], k[0]), dv] is not None and k[4:5] != ('0',)), np.zeros(n))
            obs.close(tot, w * lossref.uf(units[dv]), f'detail:{dv}', str(sc), rtol=1e-9)
    obs.state(sc['lay'], dvs, {k: np.round(v, 6) for k, v in got.items()})
