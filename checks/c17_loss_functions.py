"""Loss functions: loss = f(demand) x quantity x variability, summed over blocks."""

from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from mc import flow, large, lossref, pel

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('one scenario = (functions, units, variability, blocks, layout, loss map); its rows enumerate all demand levels below, at, '
        'between and at the end of the breakpoints; states = distinct loss tables')
BOUND = {
    'quick': '7 functions x 3 demand units x 3 quantity units x 3 DV units, 4 variability settings, blocks 1..3, 2 components x 2 '
             'locations x 2 directions, 4 loss maps'
             '; six large buildings (22 stories, 40 components, 12 limit states, 13 blocks, 12 equal rows)',
    'thorough': 'full product of functions, units, variability, blocks and maps',
}
ASSUMPTIONS = ['demands outside the domain of a loss function must be rejected (they cannot be evaluated)',
               'random deviations are identified through midpoint Latin hypercube samples']
NAN = float('nan')

FNS = {
    'two': ([0.0, 10.0], [0.0, 5.0]),
    'flat': ([3.0, 3.0], [0.0, 9.0]),
    'step': ([0.0, 0.0, 4.0, 6.0], [0.0, 1.0, 1.5, 9.0]),
    'dec': ([8.0, 2.0, 1.0], [0.0, 2.0, 9.0]),
    'neg': ([1.0, 5.0], [-1.0, 9.0]),
    'digits': ([0.123456789, 7.7654321098], [0.0123456789, 8.7654321012]),
    'many': ([0.0, 1.0, 3.0, 3.0, 7.0, 20.0], [0.0, 0.5, 1.0, 2.0, 4.0, 9.0]),
}
DU = {'mps2': 1.0, 'ftps2': 0.3048, 'inps2': 0.0254}
VAR = {'det': {}, 'logn': {'f': 'lognormal', 't1': 0.4}, 'norm': {'f': 'normal', 't1': 0.9}, 'determ': {'f': 'deterministic'}}


def fstr(fn):
    y, x = FNS[fn]
    return ','.join(map(str, y)) + '|' + ','.join(map(str, x))


def demands(*fns):
    """All breakpoints, midpoints and points next to breakpoints, inside every domain."""
    lo = max(FNS[f][1][0] for f in fns)
    hi = min(FNS[f][1][-1] for f in fns)
    pts = set()
    for f in fns:
        x = FNS[f][1]
        pts |= set(x) | {0.5 * (a + b) for a, b in zip(x, x[1:])} | {v + e for v in x for e in (-1e-3, 1e-3)}
    return sorted(p for p in pts if max(lo, 0.0) <= p <= hi)


def scenarios(tier):
    full = tier == 'thorough'
    base = {'fn': ['two', 'dec'], 'du': 'mps2', 'cu': 'EA', 'q': '1 EA', 'unit': 'USD_2011', 'var': ['det', 'det'], 'bl': 1, 'map': 'same'}
    if full:
        for fn in itertools.product(FNS, ['many', 'step']):
            for du in DU:
                for cu, q in (('EA', '1 EA'), ('ft2', '1 ft2'), ('m2', '100 ft2'), ('ft2', '10 m2'), ('EA', '4 EA')):
                    for unit in ('USD_2011', 'lb', 'loss_ratio'):
                        for var in itertools.product(VAR, ['det', 'logn']):
                            for bl in (1, 2, 3, 5):
                                for mp in ('same', 'swap', 'both', 'alias'):
                                    if (du, unit) != ('mps2', 'USD_2011') and (bl > 2 or mp not in ('same', 'swap')):
                                        continue
                                    yield dict(base, fn=list(fn), du=du, cu=cu, q=q, unit=unit, var=list(var), bl=bl, map=mp)
    else:
        for fn in itertools.permutations(FNS, 2):
            yield dict(base, fn=list(fn))
        for du in DU:
            for cu, q in (('EA', '1 EA'), ('ft2', '1 ft2'), ('m2', '100 ft2'), ('ft2', '10 m2'), ('EA', '4 EA')):
                for unit in ('USD_2011', 'lb', 'loss_ratio'):
                    for fn in (['many', 'step'], ['digits', 'two']):
                        yield dict(base, fn=fn, du=du, cu=cu, q=q, unit=unit)
        for var in itertools.product(VAR, VAR):
            for bl in (1, 2, 3):
                for mp in ('same', 'swap', 'both', 'alias'):
                    yield dict(base, var=list(var), bl=bl, map=mp)
        for mp in ('same', 'swap', 'both', 'alias'):
            for bl in (1, 2):
                yield dict(base, map=mp, bl=bl, q='10 ft2', cu='m2', var=['logn', 'det'])
    # functions available for some decision variables only
    for have in itertools.product([0, 1], repeat=4):
        for mp in ('same', 'swap', 'both', 'alias'):
            yield {'avail': have, 'map': mp}
    # demand outside the domain
    for where in ('below', 'above'):
        for fn in FNS:
            for row in (0, 1, 2):
                yield {'out': where, 'fn': fn, 'row': row}
    # sum of deviations over blocks
    for f in ('logn', 'norm'):
        for bl in (1, 2, 3, 4, 7, 9, 10, 12, 25):
            for n in (1, 2, 7):
                yield {'blocks': bl, 'f': f, 'n': n}
    for v in range(6):
        yield {'large': v}
    for rho in (1.0, -1.0):
        for bl in (1,):
            for q in ('A', 'swap'):
                yield {'rho': rho, 'bl': bl, 'map': q}


MAPS = {'same': {'A': 'A', 'B': 'B'}, 'swap': {'A': 'B', 'B': 'A'}, 'both': {'A': 'B', 'B': 'B'}, 'alias': {'A': 'X', 'B': 'Y'}}


def get(a):
    s = a.loss.lf_model.sample
    if s is None:
        return {}
    names = list(s.columns.names)
    order = [names.index(x) for x in ('dv', 'loss', 'dmg', 'loc', 'dir', 'uid')]
    return {tuple(str(c[i]) for i in order): s.iloc[:, j].to_numpy(dtype=float) for j, c in enumerate(s.columns)}


def run(sc, obs):
    if 'avail' in sc:
        return run_avail(sc, obs)
    if 'out' in sc:
        return run_out(sc, obs)
    if 'large' in sc:
        return run_large(sc, obs)
    if 'blocks' in sc:
        return run_blocks(sc, obs)
    if 'rho' in sc:
        return run_rho(sc, obs)
    lm = MAPS[sc['map']]
    ids = {'A': lm['A'], 'B': lm['B']}
    fnA, fnB = sc['fn']
    # consequence ids
    cons = {}
    if sc['map'] == 'alias':
        cons = {'X': (fnA, sc['var'][0]), 'Y': (fnB, sc['var'][1])}
    else:
        cons = {'A': (fnA, sc['var'][0]), 'B': (fnB, sc['var'][1])}
    pts = demands(fnA, fnB)
    n = len(pts)
    rows = []
    for cid, (fn, var) in cons.items():
        for dv, u in (('Cost', sc['unit']), ('Time', 'worker_day')):
            rows.append({'id': cid, 'dv': dv, 'unit': u, 'q': sc['q'], 'type': 'Peak Floor Acceleration', 'dunit': sc['du'], 'offset': 1,
                         'dir': 1, 'fn': fstr(fn), **VAR[var]})
    # demands: every location/direction sees the points in a different order
    cols = {}
    for li, loc in enumerate('12'):
        for di, d in enumerate('12'):
            sh = (3 * li + 5 * di) % n
            cols[f'PFA-{loc}-{d}'] = [sc['du'], pts[sh:] + pts[:sh]]
    marg = [{'cmp': c, 'Units': sc['cu'], 'Location': loc, 'Direction': d, 'Theta_0': t, 'Blocks': sc['bl'] if c == 'A' else 1}
            for c, loc, d, t in (('A', '1', '1', 3.0), ('A', '2', '2', 7.0), ('B', '1', '2', 2.0), ('A', '1', '1', 4.0), ('B', '2', '1', 0.0))]
    a = flow.start(cols, marg, {'Sampling': {'SamplingMethod': 'LHS_midpoint'}, 'SamplingMethod': 'LHS_midpoint'}, n)
    flow.loss_setup(a, ('Cost', 'Time'), ids, [flow.lf_df(rows)])
    a.loss.calculate()
    obs.step(5)
    got = get(a)
    obs.state(sorted(got), [np.round(v, 7) for _, v in sorted(got.items())])
    want_keys = set()
    uid = {}
    for m in marg:
        key = (m['cmp'], m['Location'], m['Direction'])
        u = uid.get(key, 0)
        uid[key] = u + 1
        cid = ids[m['cmp']]
        fn, var = cons[cid]
        ys, xs = FNS[fn]
        dem = cols[f'PFA-{m["Location"]}-{m["Direction"]}'][1]
        f = np.array([lossref.interp_clamped(x, xs, ys) for x in dem])
        qty = m['Theta_0'] * lossref.uf(sc['cu'])
        for dv, un in (('Cost', sc['unit']), ('Time', 'worker_day')):
            k = (dv, cid, m['cmp'], m['Location'], m['Direction'], str(u))
            want_keys.add(k)
            med = f * lossref.uf(un) / lossref.uf(sc['q']) * qty
            if not obs.check(k in got, 'missing-column', f'{k} not in {sorted(got)}'):
                continue
            lv = lossref.deviation_levels(VAR[var], n)
            if lv is None:
                obs.close(got[k], med, 'value', f'{k}', rtol=1e-9)
            else:
                z = med == 0
                obs.close(got[k][z], med[z], 'zero', str(k))
                r = got[k][~z] / med[~z]
                if sc['bl'] == 1 or m['cmp'] != 'A':
                    obs.check(lossref.match_levels(r, lv), 'deviation', lambda: f'{k}: {np.sort(r)[:6]} vs {lv[:6]}')
                else:
                    obs.check(np.all(r >= lv[0] - 1e-9) and np.all(r <= lv[-1] + 1e-9), 'deviation-range', lambda: f'{k}: {r}')
    obs.eq(sorted(set(got) - want_keys), [], 'extra', 'unexpected loss columns')


def run_avail(sc, obs):
    lm = MAPS[sc['map']]
    cids = sorted(set(lm.values()))
    fn = {('A', 'Cost'): 'two', ('A', 'Time'): 'dec', ('B', 'Cost'): 'many', ('B', 'Time'): 'step'}
    names = {'same': ('A', 'B'), 'swap': ('A', 'B'), 'both': ('A', 'B'), 'alias': ('X', 'Y')}[sc['map']]
    rows = []
    have = {}
    for h, ((c, dv), f) in zip(sc['avail'], fn.items()):
        if not h:
            continue
        cid = names['AB'.index(c)]
        have[cid, dv] = f
        rows.append({'id': cid, 'dv': dv, 'unit': 'USD_2011' if dv == 'Cost' else 'worker_day', 'type': 'Peak Floor Acceleration', 'offset': 1, 'dunit': 'mps2',
                     'fn': fstr(f)})
    rows.append({'id': 'Z', 'dv': 'Cost', 'unit': 'USD_2011', 'type': 'Peak Floor Velocity', 'dunit': 'mps', 'fn': fstr('two')})
    pts = demands(*fn.values())
    a = flow.start({'PFA-1-1': ['mps2', pts]}, [{'cmp': c, 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 2.0} for c in 'AB'], None, len(pts))
    flow.loss_setup(a, ('Cost', 'Time'), lm, [flow.lf_df(rows)])
    a.loss.calculate()
    obs.step(5)
    got = get(a)
    want = {}
    for c in 'AB':
        for dv in ('Cost', 'Time'):
            f = have.get((lm[c], dv))
            if f:
                want[dv, lm[c], c, '1', '1', '0'] = np.array([2.0 * lossref.interp_clamped(x, FNS[f][1], FNS[f][0]) for x in pts])
    obs.eq(sorted(got), sorted(want), 'avail:columns', str(sc))
    for k in want:
        if k in got:
            obs.close(got[k], want[k], 'avail:value', str(k))
    obs.state(sc['map'], sorted(got))


def run_out(sc, obs):
    ys, xs = FNS[sc['fn']]
    bad = xs[0] - 0.5 if sc['out'] == 'below' else xs[-1] + 0.5
    dem = [xs[0] * 0.5 + xs[1] * 0.5] * 3
    dem[sc['row']] = bad
    rows = [{'id': 'A', 'dv': 'Cost', 'unit': 'USD_2011', 'type': 'Peak Floor Acceleration', 'offset': 1, 'dunit': 'mps2', 'fn': fstr(sc['fn'])}]
    a = flow.start({'PFA-1-1': ['mps2', dem]}, [{'cmp': 'A', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 2.0}], None, 3)
    flow.loss_setup(a, ('Cost',), {'A': 'A'}, [flow.lf_df(rows)])
    obs.step(5)
    obs.state(sc['out'], sc['fn'])
    try:
        a.loss.calculate()
    except ValueError:
        obs.check(True, 'out')
        return
    obs.fail('out:accepted', f'{sc}: demand {dem} outside {xs}: {get(a)}')


def run_blocks(sc, obs):
    """Each block has its own deviation: their sum over the sample is known."""
    n, bl = sc['n'], sc['blocks']
    spec = {'logn': {'f': 'lognormal', 't1': 0.4}, 'norm': {'f': 'normal', 't1': 0.5}}[sc['f']]
    rows = [{'id': 'A', 'dv': 'Cost', 'unit': 'USD_2011', 'type': 'Peak Floor Acceleration', 'offset': 1, 'dunit': 'mps2', 'fn': fstr('two'), **spec}]
    a = flow.start({'PFA-1-1': ['mps2', [2.0] * n]}, [{'cmp': 'A', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 6.0, 'Blocks': bl}],
                   {'Sampling': {'SamplingMethod': 'LHS_midpoint'}, 'SamplingMethod': 'LHS_midpoint'}, n)
    flow.loss_setup(a, ('Cost',), {'A': 'A'}, [flow.lf_df(rows)])
    a.loss.calculate()
    obs.step(5)
    v = get(a)['Cost', 'A', 'A', '1', '1', '0']
    lv = lossref.deviation_levels(spec, n)
    obs.close(v.sum() / (4.0 * 6.0), lv.sum(), 'blocks:sum', str(sc))
    if bl > 1 and n > 2:
        # not all blocks deviate together
        obs.check(not lossref.match_levels(v / 24.0, lv), 'blocks:independent', f'{sc}: {v / 24.0}')
    obs.state(sc, np.round(v, 6))


def run_large(sc, obs):
    """Many stories, components, groups and blocks."""
    v = sc['large']
    a = large.start(v)
    comps, rows = large.parts(v)
    un = {r['cmp']: r['Units'] for r in rows}
    fns = {}
    for i, c in enumerate(comps):
        xs = [0.0, *(3.0 * (j + 1) + 0.25 * (i % 4) for j in range(i % 12)), 60.0]
        fns[c] = (xs, [((7 * j + i) % 13) / 3.0 for j in range(len(xs))])
    tab = flow.lf_df([{'id': c, 'dv': dv, 'unit': u, 'q': f'{1 + i % 3} {un[c]}', 'type': s['type'], 'dunit': s['unit'], 'offset': s['offset'], 'dir': s['dir'],
                       'fn': ','.join(str(f * y) for y in fns[c][1]) + '|' + ','.join(map(str, fns[c][0]))}
                      for i, (c, s) in enumerate(comps.items()) for dv, u, f in (('Cost', 'USD_2011', 1.0), ('Time', 'worker_day', 0.5))])
    flow.loss_setup(a, ('Cost', 'Time'), {c: c for c in comps}, [tab])
    a.loss.calculate()
    obs.step(5)
    got = get(a)
    dem = large.demand(large.sizes(v)[0])
    want = {}
    for key, q, _ in large.groups(v):
        c = key[0]
        x = large.used(v, dem, comps, *key[:3])
        y = np.array([lossref.interp_clamped(t, *fns[c]) for t in x]) * q / lossref.uf(f'{1 + list(comps).index(c) % 3} {un[c]}')
        want['Cost', c, *key] = y
        want['Time', c, *key] = (0.5 * lossref.uf('worker_day')) * y
    want = {(k[0], k[1], *k[2:]): w for k, w in want.items()}
    obs.eq(sorted(got), sorted((k[0], k[1], k[1], *k[3:]) for k in want), 'large:columns', str(sc))
    for k, w in want.items():
        g = got.get((k[0], k[1], k[1], *k[3:]))
        if g is not None:
            obs.close(g, w, 'large:value', f'{k} {sc}', rtol=1e-8)
    obs.state(sc, got)


def run_rho(sc, obs):
    n = 25
    lm = {'A': 'A', 'B': 'B'} if sc['map'] == 'A' else {'A': 'B', 'B': 'A'}
    rows = []
    for cid in 'AB':
        for dv, u in (('Cost', 'USD_2011'), ('Time', 'worker_day')):
            rows.append({'id': cid, 'dv': dv, 'unit': u, 'type': 'Peak Floor Acceleration', 'offset': 1, 'dunit': 'mps2', 'fn': fstr('two' if dv == 'Cost' else 'dec'),
                         'f': 'lognormal', 't1': 0.3})
    a = flow.start({'PFA-1-1': ['mps2', [2.0] * n]}, [{'cmp': c, 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 6.0} for c in 'AB'],
                   {'RepairCostAndTimeCorrelation': sc['rho']}, n)
    flow.loss_setup(a, ('Cost', 'Time'), lm, [flow.lf_df(rows)])
    a.loss.calculate()
    obs.step(5)
    got = get(a)
    for c in 'AB':
        rc = np.argsort(np.argsort(got['Cost', lm[c], c, '1', '1', '0']))
        rt = np.argsort(np.argsort(got['Time', lm[c], c, '1', '1', '0']))
        obs.eq(rt, rc if sc['rho'] > 0 else n - 1 - rc, 'rho:rank', f'{sc} {c}')
        obs.state(sc, rc)
