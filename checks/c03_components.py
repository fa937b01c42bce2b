"""C03: component tables expand to exactly the described performance groups."""

import itertools
import math

import numpy as np
import pandas as pd

from mc import flow, pel
from mc import ref as R
from mc.lossref import uf

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = (
    'all location x direction descriptors over buildings of several heights, all two-row tables over a set of rows (repeated rows included), '
    'all families x truncations x block settings x units; the performance groups are expanded by a grammar written down in the check and compared '
    'as a multiset with the loaded groups, and every sampled column must contain one realization in each equal-probability interval of the '
    'distribution of its own row; a state is a distinct set of performance groups'
)
BOUND = {
    'quick': '5 building heights, ~40 location and 12 direction descriptors, tables of 1-3 rows and of 20 rows, n=20, both input forms',
    'thorough': '8 building heights, the same descriptors in pairs, tables of up to 40 rows, n=50',
}
ASSUMPTIONS = ['unit factors written down in mc/lossref.py']
CHUNK = 20
HORIZON = 200

LOCS = ['1', '2', '12', '0', 3, 2.0, '1,2', '1,3,12', '3,1', '1, 3', '1--1', '1--3', '2--4', '9--12', '1--3,5', '1,3--4', '1--2,4--5', '1--2,4--5,7',
        'all', 'top', 'roof', '1--top', '2--roof', 'top--roof', 'all,roof', 'top,roof', '0,all', '0--2', '1,top', 'roof,1', '0--roof', '01', '2,10', '10,2']
DIRS = ['1', '2', '0', '1,2', '1--3', '1--2,4', '0,1', 1, 2.0, None, '11', '2,1', '3--3', '9--11']
BADLOC = ['abc', '', '1--', '--2', '1,,2', 'all--', None, 'ALL ROOF', '1;2']
BADDIR = ['x', '1--', '1,,2', 'all']


# -- the grammar of descriptors, written without the implementation ---------
def atom(s, st):
    s = s.strip()
    if s == 'top':
        return st
    if s == 'roof':
        return st + 1
    return int(float(s))


def expand(desc, st, direction=False):
    if desc is None or (isinstance(desc, float) and math.isnan(desc)):
        return [1]
    out = []
    for part in str(desc).split(','):
        part = part.strip()
        if part == 'all' and not direction:
            out += list(range(1, st + 1))
        elif '--' in part:
            lo, hi = part.split('--')
            out += list(range(atom(lo, st), atom(hi, st) + 1))
        else:
            out.append(atom(part, st))
    return out


def usable(desc, st):
    """Descriptors whose ranges run upwards in a building of st stories."""
    for part in str(desc).split(','):
        if '--' in part:
            lo, hi = part.split('--')
            if atom(lo, st) > atom(hi, st):
                return False
    return len(set(expand(desc, st))) == len(expand(desc, st))


FAM = [
    {'Theta_0': 7.123456789012},
    {'Theta_0': 1234567.891, 'Family': 'deterministic'},
    {'Theta_0': 10.0, 'Theta_1': 0.2, 'Family': 'normal'},
    {'Theta_0': 10.0, 'Theta_1': 0.3, 'Family': 'normal_cov'},
    {'Theta_0': 10.0, 'Theta_1': 2.0, 'Family': 'normal_std'},
    {'Theta_0': 3.0000000123, 'Theta_1': 0.40000000987, 'Family': 'lognormal'},
    {'Theta_0': 1.00000000321, 'Theta_1': 4.0, 'Family': 'uniform'},
    {'Theta_0': 5.0, 'Theta_1': 2.5, 'Family': 'weibull'},
]
TR = [(None, None), (2.0, None), (None, 11.0), (1.5, 9.0), (0.0, None)]
BL = ['absent', None, 1, 3, 12]
UN = ['EA', 'ft2', 'm2', 'inch', 'ft']


def scenarios(tier):
    deep = tier != 'quick'
    out = []
    heights = [1, 2, 4, 6, 11] if not deep else [1, 2, 3, 4, 5, 6, 9, 11]
    k = 0
    for st in heights:
        for l in LOCS:
            if not usable(l, st):
                continue
            for d in DIRS:
                k += 1
                if not deep and k % 3 and l not in ('1--3,5', 'all,roof', '1') and d not in ('1', '1--2,4'):
                    continue
                out.append({'k': 'desc', 'st': st, 'rows': [{'l': l, 'd': d, 'f': k % 8, 'b': BL[k % 4 + 1], 'u': UN[k % 5]}], 'csv': k % 2})
        # pairs of rows of the same and of different components
        pool = [l for l in ('1', '1,2', '1--3', 'all', 'top', 'roof', '0,all', 'all,roof', '2,10') if usable(l, st)]
        for (i, a), (j, b) in itertools.product(enumerate(pool), repeat=2):
            for same in (0, 1):
                k += 1
                out.append({'k': 'desc', 'st': st, 'csv': k % 2, 'rows': [
                    {'l': a, 'd': DIRS[(i + k) % len(DIRS)], 'f': (i + k) % 8, 'b': BL[1 + k % 4], 'u': UN[k % 5]},
                    {'l': b, 'd': DIRS[(j + k) % len(DIRS)], 'f': (j + 3 * k + 1) % 8, 'b': BL[1 + (k + 1) % 4], 'u': UN[(k + 1) % 5], 'same': same},
                    {'l': a, 'd': '1', 'f': (j + 5) % 8, 'b': BL[1 + (k + 2) % 4], 'u': UN[(k + 3) % 5], 'same': 1 - same}]})
    for f, (t, tr), b, u in itertools.product(range(8), enumerate(TR), BL, UN):
        if FAM[f].get('Family') in (None, 'deterministic') and t:
            continue
        out.append({'k': 'fam', 'f': f, 'tr': tr, 'b': b, 'u': u, 'csv': (f + t) % 2})
    # many rows of one component at one location
    for m in (2, 9, 17, 20) if not deep else (2, 9, 17, 20, 40):
        for r in range(4):
            out.append({'k': 'many', 'm': m, 'r': r, 'csv': r % 2})
    for l in BADLOC:
        out.append({'k': 'bad', 'l': l, 'd': '1', 'st': 3})
        out.append({'k': 'bad', 'l': l, 'd': '1', 'st': 3, 'csv': 1})
    for d in BADDIR:
        out.append({'k': 'bad', 'l': '1', 'd': d, 'st': 3})
    for l in ('all', 'top', 'roof', '1--top', 'all,roof'):
        out.append({'k': 'bad', 'l': l, 'd': '1', 'st': None})
    for miss in ('unit', 'theta'):
        out.append({'k': 'bad', 'l': '1', 'd': '1', 'st': 3, 'miss': miss})
    n = 20 if not deep else 50
    for o in out:
        o['n'] = n
    return out


def load(a, df, csv):
    if not csv:
        a.asset.load_cmp_model({'marginals': df})
        return
    p = pel.scratch()
    df.to_csv(p / 'CMP_marginals.csv')
    a.asset.load_cmp_model(str(p / 'CMP'))


def table(rows):
    recs = []
    for r in rows:
        rec = {'cmp': r['cmp'], 'Units': r['u'], 'Location': r['l'] if r['l'] is not None else flow.NAN,
               'Direction': r['d'] if r['d'] is not None else flow.NAN, **r['fam']}
        if r['b'] != 'absent':
            rec['Blocks'] = flow.NAN if r['b'] is None else r['b']
        lo, hi = r.get('tr', (None, None))
        if lo is not None:
            rec['TruncateLower'] = lo
        if hi is not None:
            rec['TruncateUpper'] = hi
        recs.append(rec)
    return flow.marg_df(recs)


def scaled(fam, tr, u):
    """(family, thetas, truncation) in base units."""
    f = uf(u)
    name = fam.get('Family', 'deterministic')
    th = [fam['Theta_0'] * f]
    if name in ('normal_std', 'uniform'):
        th.append(fam['Theta_1'] * f)
    elif 'Theta_1' in fam:
        th.append(fam['Theta_1'])
    return name, th, tuple(None if x is None else x * f for x in tr)


def fits(x, name, th, tr, n):
    """Column x is a stratified sample of the distribution."""
    if name == 'deterministic':
        return np.allclose(x, th[0], rtol=1e-12)
    ks = []
    for v in x:
        c = R.cdf(name, th, tr, float(v)) * n
        ks.append(c)
    return sorted(min(n - 1, math.floor(c)) for c in ks) == list(range(n))


def run(sc, obs):
    n = sc['n']
    a = pel.asmt()
    if sc['k'] == 'bad':
        a.stories = sc['st']
        row = {'cmp': 'a', 'u': 'EA', 'l': sc['l'], 'd': sc['d'], 'fam': {'Theta_0': 1.0}, 'b': 'absent'}
        ok = {'cmp': 'b', 'u': 'EA', 'l': '1', 'd': '1', 'fam': {'Theta_0': 1.0}, 'b': 'absent'}
        df = table([ok, row])
        if sc.get('miss') == 'unit':
            df.iloc[1, df.columns.get_loc('Units')] = np.nan
        if sc.get('miss') == 'theta':
            df.iloc[1, df.columns.get_loc('Theta_0')] = np.nan
        obs.step()
        try:
            load(a, df, sc.get('csv'))
        except Exception as e:  # noqa: BLE001
            obs.state('rejected', type(e).__name__)
            obs.check(True, 'bad')
            return
        obs.fail('bad:accepted', f'{sc} was accepted: {a.asset.cmp_marginal_params.index.tolist()}')
        return
    rows = []
    if sc['k'] == 'desc':
        a.stories = sc['st']
        for i, r in enumerate(sc['rows']):
            rows.append({'cmp': 'a.10' if i == 0 or r.get('same') else f'b.{i}', 'u': r['u'], 'l': r['l'], 'd': r['d'],
                         'fam': FAM[r['f']], 'b': r['b'], 'tr': TR[0] if FAM[r['f']].get('Family') in (None, 'deterministic') else TR[(r['f'] + i) % 4]})
    elif sc['k'] == 'fam':
        a.stories = 3
        other = {'cmp': 'z', 'u': UN[(UN.index(sc['u']) + 1) % 5], 'l': '1,2', 'd': '2', 'fam': FAM[(sc['f'] + 3) % 8], 'b': BL[(BL.index(sc['b']) + 1) % 5 or 1]
                 if sc['b'] != 'absent' else 'absent'}
        rows = [{'cmp': 'y', 'u': sc['u'], 'l': 'all', 'd': '1,2', 'fam': FAM[sc['f']], 'b': sc['b'], 'tr': tuple(sc['tr'])}, other]
    else:
        a.stories = 12
        for i in range(sc['m']):
            r = sc['r']
            rows.append({'cmp': 'a' if r < 2 or i % 3 else 'b', 'u': UN[i % 5] if r in (1, 2) else 'EA', 'l': ['1', '1', '1,2', '9--12'][r] if i % 4 else '2',
                         'd': '1' if r != 3 else '1,2', 'fam': {'Theta_0': 1.0 + i} if i % 2 else {'Theta_0': 5.0 + i, 'Theta_1': 0.1, 'Family': 'lognormal'},
                         'b': 1 + i})
    tab = table(rows)
    keep = tab.copy()
    load(a, tab, sc['csv'])
    obs.step()
    obs.check(tab.equals(keep), 'input-modified', 'the table of the user was modified')
    # expected groups
    want: dict = {}
    for r in rows:
        name, th, tr = scaled(r['fam'], r.get('tr', (None, None)), r['u'])
        b = 1 if r['b'] in ('absent', None) else r['b']
        for l in expand(r['l'], a.stories):
            for d in expand(r['d'], a.stories, direction=True):
                want.setdefault((r['cmp'], str(l), str(d)), []).append((name, th, tr, b))
    mp = a.asset.cmp_marginal_params
    got: dict = {}
    for key, rec in zip(mp.index.tolist(), mp.to_dict('records')):
        got.setdefault(tuple(str(x) for x in key[:3]), []).append((str(key[3]), rec))
    obs.eq({k: len(v) for k, v in got.items()}, {k: len(v) for k, v in want.items()}, 'groups', f'performance groups of {sc}')
    obs.state({repr(k): len(v) for k, v in want.items()})
    par: dict = {}
    for k, lst in got.items():
        obs.check(len({u for u, _ in lst}) == len(lst), 'identity', f'{k}: identities {lst}')
        mine = []
        for u, rec in lst:
            fam = rec.get('Family', flow.NAN)
            fam = 'deterministic' if not isinstance(fam, str) else fam
            th = [float(rec['Theta_0'])]
            if not math.isnan(float(rec.get('Theta_1', flow.NAN))):
                th.append(float(rec['Theta_1']))
            tr = tuple(None if math.isnan(float(rec.get(f'Truncate{s}', flow.NAN))) else float(rec[f'Truncate{s}']) for s in ('Lower', 'Upper'))
            mine.append((fam, th, tr, int(rec['Blocks'])))
            par[(*k, u)] = mine[-1]
        ws = sorted(want.get(k, []), key=repr_key)
        ms = sorted(mine, key=repr_key)
        for g, w in zip(ms, ws):
            obs.eq(g, w, 'parameters', f'{k} in {sc}')
    # units of the saved component quantities and the unit of each group
    a.asset.generate_cmp_sample(n)
    obs.step()
    sam = flow.cols_dict(a.asset.cmp_sample)
    obs.eq(sorted(sam), sorted(par), 'sample-columns', f'{sc}')
    for k, x in sam.items():
        if k not in par:
            continue
        name, th, tr, _b = par[k]
        obs.eq(len(x), n, 'sample-size')
        obs.check(fits(x, name, th, tr, n), 'sample', lambda k=k, x=x: f'{k}: sample does not follow {par[k]}: {x.tolist()[:8]} in {sc}')
    # independent of the identities: the sampled columns of a group are those of its rows
    for k, ws in want.items():
        cols = [x for kk, x in sam.items() if kk[:3] == k]
        left = list(cols)
        for w in ws:
            for i, x in enumerate(left):
                if fits(x, w[0], w[1], w[2], n):
                    left.pop(i)
                    break
            else:
                obs.fail('sample-of-row', f'{k}: no sampled quantity follows {w} in {sc}')
    # saved quantities in the unit of the component
    df, un = a.asset.save_cmp_sample(save_units=True)
    obs.step()
    sv = flow.cols_dict(df)
    obs.eq(sorted(sv), sorted(sam), 'saved-columns')
    for k, x in sam.items():
        us = {r['u'] for r in rows if r['cmp'] == k[0]}
        if k in sv and k in un.index:
            u = un[k]
            obs.check(u in us, 'saved-unit', f'{k}: {u} not in {us}')
            obs.close(sv[k] * uf(u), x, 'saved-quantity', f'{k} {u}', rtol=1e-9)


def repr_key(t):
    return repr((t[0], [float(f'{x:.9g}') for x in t[1]], [None if x is None else float(f'{x:.9g}') for x in t[2]], t[3]))
