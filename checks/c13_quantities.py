"""C13: damaged quantities conserve the component quantity."""

import itertools

import numpy as np

from mc import dmgref as dr
from mc import flow, large

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = (
    'all combinations of limit-state layouts, block counts, quantity distributions, damage processes and the list-all option; '
    'the quantity table is recomputed block by block from the damage-state table and the component sample and compared cell by cell; '
    'a state is a distinct quantity table'
)
BOUND = {
    'quick': '<=2 components x <=2 groups, blocks 1..4, 5 limit-state layouts, 4 quantity families, 5 processes, n=20'
             '; six large buildings (22 stories, 40 components, 12 limit states, 13 blocks, 12 equal rows)',
    'thorough': 'same with blocks 1..7 and n=60',
}
ASSUMPTIONS = []
CHUNK = 6
PGA = 'Peak Ground Acceleration'
LAY = [
    [{'t0': 1.0, 't1': 0.5, 'f': 'lognormal'}],
    [{'t0': 1.0, 't1': 0.5, 'f': 'lognormal'}, {'t0': 2.0, 't1': 0.5, 'f': 'lognormal'}],
    [{'t0': 1.0, 't1': 0.5, 'f': 'lognormal', 'w': '0.3|0.7'}],
    [{'t0': 1.0, 't1': 0.5, 'f': 'lognormal'}, {'t0': 1.5, 't1': 0.5, 'f': 'lognormal', 'w': '0.2|0.3|0.5'}, {'t0': 3.0}],
    [{'t0': 100.0}],
]
QF = [
    {'Theta_0': 7.0}, {'Theta_0': 10.0, 'Theta_1': 0.2, 'Family': 'normal'},
    {'Theta_0': 3.0, 'Theta_1': 0.4, 'Family': 'lognormal'}, {'Theta_0': 1.0, 'Theta_1': 4.0, 'Family': 'uniform'},
]
PROC = [None, {'1_b': {'DS1': 'a_NA'}}, {'1_b': {'DS1': 'a_DS1'}}, {'1_a-LOC': {'DS1': 'b_NA'}, '2_a': {'DS2': 'ALL_DS1'}}, {'1_b': {'DS1': 'a_DS7'}},
        {'1_b': {'DS0': 'a_NA', 'DS1': 'a_NA'}}]


def scenarios(tier):
    nb = 4 if tier == 'quick' else 7
    n = 20 if tier == 'quick' else 60
    out = []
    for la, bl, qf, p, al in itertools.product(range(5), range(1, nb + 1), range(4), range(6), (False, True)):
        if tier == 'quick' and (la + bl + qf + p) % 2 and la not in {3}:
            continue
        out.append({'la': la, 'bl': bl, 'qf': qf, 'p': p, 'all': al, 'n': n, 'w': (la + bl + p) % 2})
    out += [{'large': v, 'all': al} for v in range(6) for al in (False, True)]
    return out


def run_large(sc, obs):
    v = sc['large']
    a = large.start(v, ListAllDamageStates=sc['all'])
    comps = large.parts(v)[0]
    flow.damage(a, comps)
    obs.step(4)
    st, qty, nb = large.expected(v)
    want = dr.quantities(st, qty, nb)
    if sc['all']:
        for k in qty:
            for ds in range(sum(len(x) for x in dr.ds_ids(comps[k[0]]['ls'])) + 1):
                want.setdefault((*k, str(ds)), np.zeros(large.N))
    got = flow.cols_dict(a.damage.ds_model.sample)
    obs.eq(sorted(got), sorted(want), 'large:columns', sc)
    for k, w in want.items():
        if k in got:
            obs.close(got[k], w, 'large:quantity', f'{k} {sc}')
    obs.state(sc, got)


def run(sc, obs):
    if 'large' in sc:
        return run_large(sc, obs)
    n = sc['n']
    dem = {f'PGA-{l}-1': ['mps2', [0.05 + 4.0 * ((7 * i + 3 * l) % n) / n for i in range(n)]] for l in (1, 2)}
    marg = [
        {'cmp': 'a', 'Units': 'ft2', 'Location': '1,2', 'Direction': '1', 'Blocks': sc['bl'], **QF[sc['qf']]},
        {'cmp': 'a', 'Units': 'ft2', 'Location': '1', 'Direction': '1', 'Blocks': 2, 'Theta_0': 5.0},
        {'cmp': 'b', 'Units': 'EA', 'Location': '2', 'Direction': '1', 'Blocks': 1, **QF[(sc['qf'] + 1) % 4]},
        {'cmp': 'nodamage', 'Units': 'EA', 'Location': '2', 'Direction': '1', 'Blocks': 1, 'Theta_0': 2.0},
    ]
    par = flow.dmg_df({
        'a': {'type': PGA, 'unit': 'mps2', 'ls': LAY[sc['la']]},
        'b': {'type': PGA, 'unit': 'mps2', 'ls': [{'t0': 2.0}]},
    })
    if sc['w'] and all(ls.get('w') is None for ls in LAY[sc['la']]):
        par = par.drop(columns=[c for c in par.columns if c[1] == 'DamageStateWeights'])
    a = flow.start(dem, marg, opts={'ListAllDamageStates': sc['all']})
    flow.damage(a, par, process=PROC[sc['p']], batch=[1, 2, 1000][sc['bl'] % 3], warn=False)
    obs.step(4)
    qty = flow.cols_dict(a.asset.cmp_sample)
    nb = {k: {'a': sc['bl'] if k[3] == '0' else 2, 'b': 1, 'nodamage': 1}[k[0]] for k in qty}
    st = flow.cols_dict(a.damage.ds_model.ds_sample)
    want = dr.quantities(st, qty, nb)
    got = flow.cols_dict(a.damage.ds_model.sample)
    tag = 'all' if sc['all'] else 'observed'
    seen = set(want)
    if sc['all']:
        for c, ls in (('a', LAY[sc['la']]), ('b', [{}])):
            m = sum(len(x) for x in dr.ds_ids(ls))
            for k in {k[:4] for k in st if k[0] == c}:
                for ds in range(m + 1):
                    if (*k, str(ds)) not in want and any(x[:4] == k for x in want):
                        want[(*k, str(ds))] = np.zeros(n)
    obs.eq(sorted(got), sorted(want), f'columns:{tag}', sc)
    for k, w in want.items():
        if k in got:
            g = got[k]
            if k not in seen:  # never-observed states of a removed group may be reported as zero
                g, w = np.nan_to_num(g), np.nan_to_num(w)
            obs.close(g, w, f'quantity:{tag}', f'{k} {sc}')
    # conservation, independent of the damage-state table
    for pg, q in qty.items():
        cols = [v for k, v in got.items() if k[:4] == pg]
        if not cols:
            continue
        arr = np.array(cols)
        obs.check(not np.any(arr < 0), 'negative', pg)
        gone = np.array([v for k, v in st.items() if k[:4] == pg])
        keep = ~(gone == -1).any(axis=0)
        obs.close(np.nansum(arr, axis=0)[keep], q[keep], 'conservation', f'{pg} {sc}')
        obs.close(np.nansum(arr, axis=0)[~keep], np.zeros((~keep).sum()), 'removed-quantity', f'{pg} {sc}')
    obs.check(not any(k[0] == 'nodamage' for k in got), 'no-parameters', 'a component without damage parameters got damage')
    # the saved table conserves the quantity in the user's units
    df, un = a.damage.save_sample(save_units=True)
    obs.step()
    s2 = flow.cols_dict(df)
    f = {'a': 0.3048**2, 'b': 1.0}
    obs.eq(sorted(s2), sorted(got), 'saved-columns')
    for k, w in got.items():
        if k in s2:
            obs.close(s2[k], w / f[k[0]], 'saved-quantity', k)
            obs.eq(un[k], {'a': 'ft2', 'b': 'EA'}[k[0]], 'saved-unit', k)
    obs.state(got)
