"""A building with many stories, components, groups, blocks and damage states, all capacities known."""

from __future__ import annotations

import numpy as np

from mc import dmgref as dr
from mc import flow

TYPES = [('Peak Floor Acceleration', 'mps2', 1, 'PFA'), ('Peak Interstory Drift Ratio', 'unitless', 0, 'PID'), ('Peak Ground Acceleration', 'mps2', 0, 'PGA'),
         ('Peak Floor Velocity', 'mps', 1, 'PFV'), ('Peak Interstory Drift Ratio', 'unitless', 1, 'PID')]
DIRS = ('1', '2', '11')
MULT = {'ALL': 1.2, 'PFA': 1.5, 'PFV': 1.25}
N = 24


def sizes(v):
    """Variants: (stories, components, most limit states, most blocks, most equal rows)."""
    return [(12, 5, 12, 3, 2), (2, 13, 3, 13, 2), (3, 4, 4, 2, 12), (22, 2, 2, 2, 1), (11, 11, 11, 11, 1), (4, 40, 2, 2, 1)][v]


def demand(st):
    out = {}
    for ti, t in enumerate(('PFA', 'PID', 'PGA', 'PFV')):
        for loc in range(st + 2):
            for di, d in enumerate(DIRS):
                out[t, str(loc), d] = [0.3 + ((7 * i + 5 * loc + 11 * di * (1 + i % 3) + 3 * ti) % 97) / 8.0 for i in range(N)]
    return out


def parts(v):
    """Definitions of the components and rows of the component table."""
    st, nc, ml, mb, rep = sizes(v)
    comps, rows = {}, []
    for c in range(nc):
        cid = f'B.{c + 1}' if v % 2 else f'c{c + 1}'
        ty, un, off, _ = TYPES[c % len(TYPES)]
        m = ml - c % max(ml - 1, 1)
        ls = []
        for i in range(m):
            x = {'t0': 0.5 + 12.0 * (i + 0.5 + 0.3 * ((c + i) % 3)) / (m + 1)}
            if (c + i) % 3 == 1:
                x['w'] = '0|1' if i % 2 else '1|0|0'
            ls.append(x)
        comps[cid] = {'type': ty, 'unit': un, 'offset': off, 'dir': int(c % 3 != 2), 'ls': ls}
        locs = range(1, st + 1) if c % 2 == 0 else [1 + c % st, st]
        for k, loc in enumerate(dict.fromkeys(locs)):
            d = DIRS[(c + loc) % 3] if c % 3 != 2 else '0'
            for r in range(rep if k == 0 else 1):
                rows.append({'cmp': cid, 'Units': 'ft2' if c % 2 else 'EA', 'Location': str(loc), 'Direction': d, 'Theta_0': 2.0 + (c + 3 * loc) % 7,
                             'Blocks': 1 + (c + 2 * loc + mb - 1) % mb})
    return comps, rows


def used(v, dem, comps, cid, loc, d):
    """Demand of a performance group."""
    spec = comps[cid]
    t = next(x[3] for x in TYPES if x[0] == spec['type'])
    at = int(loc) + spec['offset'] + (-1 if t in ('PFA', 'PFV') else 0)
    if spec['dir']:
        return np.array(dem[t, str(at), d])
    return np.max([dem[t, str(at), x] for x in DIRS], axis=0) * MULT.get(t, MULT['ALL'])


def groups(v):
    """[(cmp, loc, dir, uid), quantity in base units, blocks] of every row."""
    _, rows = parts(v)
    seen, out = {}, []
    for r in rows:
        k = (r['cmp'], r['Location'], r['Direction'])
        u = seen.get(k, 0)
        seen[k] = u + 1
        out.append(((*k, str(u)), r['Theta_0'] * (0.3048**2 if r['Units'] == 'ft2' else 1.0), r['Blocks']))
    return out


def start(v, **opts):
    comps, rows = parts(v)
    dem = demand(sizes(v)[0])
    unit = {x[3]: x[1] for x in TYPES}
    a = flow.start({'-'.join(k): [unit[k[0]], x] for k, x in dem.items()}, rows, opts={'NonDirectionalMultipliers': MULT, **opts})
    return a


def expected(v):
    """Damage states of the blocks, quantities and block counts of the groups."""
    comps, _ = parts(v)
    dem = demand(sizes(v)[0])
    st, qty, nb = {}, {}, {}
    for key, q, b in groups(v):
        ls = comps[key[0]]['ls']
        x = dr.states([y['t0'] for y in ls], dr.certain(ls), used(v, dem, comps, *key[:3]))
        qty[key] = np.full(N, q)
        nb[key] = b
        for i in range(1, b + 1):
            st[(*key, str(i))] = x.copy()
    return st, qty, nb
