"""C10: every component is evaluated with the demand it asks for."""

import itertools

import numpy as np

from mc import flow

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = (
    'all combinations of demand type, parameter offset, default offset, directionality, component location/direction, multiplier '
    'options and demand expressions; the demand that reached the damage model is read back through a ladder of deterministic '
    'limit states separating every candidate value, and through an identity loss function; compared with a dictionary lookup model'
)
BOUND = {
    'quick': '4 demand types, 5 locations, 3 directions, offsets -2..2, 3 default-offset settings, 4 multiplier settings, 17 expressions of up to 11 demands; '
             'buildings of 11, 23 and 101 stories with 2 to 4 directions; all 29 names of demands',
    'thorough': 'same, full product of types, offsets and options for both model kinds',
}
ASSUMPTIONS = ['location sums are non-negative; demands are positive']
CHUNK = 4
NAME = {
    'PFA': ('Peak Floor Acceleration', 'mps2'), 'PID': ('Peak Interstory Drift Ratio', 'rad'), 'PGA': ('Peak Ground Acceleration', 'mps2'),
    'SA_0.5': ('Peak Spectral Acceleration|0.5', 'mps2'), 'PFV': ('Peak Floor Velocity', 'mps'),
}
MULT = [None, {'ALL': 1.0}, {'PFA': 1.5, 'ALL': 1.1}, {'PID': 2.0, 'PFA': 1.3, 'PGA': 1.0, 'SA_0.5': 0.8, 'PFV': 1.7}]
OFFS = [None, {'PFA': 0}, {'PFA': -1, 'PID': 1, 'SA': 1}]
N = 3


def table():
    """Distinct values for every (type, loc, dir, row)."""
    out = {}
    x = 0
    for ti, t in enumerate(NAME):
        for loc in range(5):
            for d in (1, 2, 3):
                if loc == 4 and d == 3:
                    continue
                x += 1
                # which direction dominates changes from row to row
                out[t, str(loc), str(d)] = [1.0 + 0.013 * x + 0.37 * ((d * (r + 1) + loc) % 4) + ti for r in range(N)]
    return out


TAB = table()


def tall(st, dirs):
    """Demands of a building whose story and direction numbers contain each other."""
    out = {}
    for ti, t in enumerate(NAME):
        for loc in range(st + 2):
            for i, d in enumerate(dirs):
                out[t, str(loc), d] = [1.0 + 0.011 * loc + 0.37 * ((i * (r + 1) + loc) % 5) + ti for r in range(N)]
    return out


def base_type(t):
    return t.split('_')[0]


def lookup(t, loc, d, offset, directional, opts_off, mult, tab=TAB):
    """Reference: value(s) used for a component at (loc, d)."""
    off = {'PFA': -1, 'PFV': -1, **(opts_off or {})}
    mul = {'ALL': 1.2, **(mult or {})}
    L = int(loc) + offset + off.get(base_type(t), 0)
    if L < 0:
        return 'error'
    cols = {k[2]: v for k, v in tab.items() if k[0] == t and k[1] == str(L)}
    if not cols:
        return 'error'
    if directional:
        if d not in cols:
            return 'error'
        return np.array(cols[d])
    m = mul.get(t, mul.get('ALL'))
    if m is None:
        return 'error'
    return np.max(np.array(list(cols.values())), axis=0) * m


EXPR = [
    ('X1', 1, lambda x: x[0]), ('X1+X2', 2, lambda x: x[0] + x[1]), ('X1*X2', 2, lambda x: x[0] * x[1]), ('X2-X1', 2, lambda x: x[1] - x[0]),
    ('sqrt(X1)', 1, lambda x: np.sqrt(x[0])), ('X1^2', 1, lambda x: x[0] ** 2), ('(X1+X2)/2', 2, lambda x: (x[0] + x[1]) / 2),
    ('X1**2 + X2*X3', 3, lambda x: x[0] ** 2 + x[1] * x[2]),
    # not all terms are used
    ('X2', 2, lambda x: x[1]), ('X1+X3', 3, lambda x: x[0] + x[2]), ('X3*X2-X3', 3, lambda x: x[2] * x[1] - x[2]), ('2*X3', 3, lambda x: 2 * x[2]),
    ('X3*X1', 3, lambda x: x[2] * x[0]), ('(X2-X1)^2+X1', 2, lambda x: (x[1] - x[0]) ** 2 + x[0]), ('3-X1/4', 1, lambda x: 3 - x[0] / 4),
    # more than nine of them
    ('X10*X2+X1', 10, lambda x: x[9] * x[1] + x[0]), ('+'.join(f'{i}*X{i}' for i in range(11, 0, -1)), 11, lambda x: sum((i + 1) * v for i, v in enumerate(x))),
]


# every documented name of a demand and the label of its columns
NAMES = {
    'PID': ['Story Drift Ratio', 'Peak Interstory Drift Ratio'], 'PRD': ['Roof Drift Ratio', 'Peak Roof Drift Ratio'], 'DWD': ['Damageable Wall Drift'],
    'RDR': ['Racking Drift Ratio'], 'PMD': ['Mega Drift Ratio'], 'RID': ['Residual Drift Ratio', 'Residual Interstory Drift Ratio'],
    'EDR': ['Peak Effective Drift Ratio'], 'PFA': ['Peak Floor Acceleration'], 'PFV': ['Peak Floor Velocity'], 'PFD': ['Peak Floor Displacement'],
    'LR': ['Peak Link Rotation Angle'], 'LBR': ['Peak Link Beam Chord Rotation'], 'PWS': ['Peak Gust Wind Speed'], 'PWF': ['Peak Wind Force'],
    'PIF': ['Peak Internal Force'], 'PLF': ['Peak Line Force'], 'PWP': ['Peak Wind Pressure'], 'PIH': ['Peak Inundation Height'],
    'PGA': ['Peak Ground Acceleration'], 'PGV': ['Peak Ground Velocity'], 'SA': ['Spectral Acceleration', 'Peak Spectral Acceleration'],
    'SV': ['Spectral Velocity', 'Peak Spectral Velocity'], 'SD': ['Spectral Displacement', 'Peak Spectral Displacement'],
    'PGD': ['Permanent Ground Deformation'],
}
UNITS = {'mps2': ('PFA', 'PGA', 'SA'), 'mps': ('PFV', 'PGV', 'PWS', 'SV'), 'm': ('PFD', 'PIH', 'SD', 'PGD'), 'N': ('PWF', 'PIF'), 'Npm': ('PLF',), 'Pa': ('PWP',)}


def run_names(sc, obs):
    """Components that ask for a demand by any of its names."""
    codes = []
    for c in NAMES:
        codes += [f'{c}_{p}' for p in ('0.2', '1.0', '1', '11')] if c in ('SA', 'SV', 'SD') and sc['sub'] else [c]
    unit = {c: next((u for u, t in UNITS.items() if base_type(c) in t), 'unitless') for c in codes}
    val = {(c, loc, d): [1.0 + 0.1 * i + 0.31 * ((i + int(loc) + 2 * int(d) + r) % 5) for r in range(N)]
           for i, c in enumerate(codes) for loc in '012' for d in '12'}
    comps, groups, wants = {}, [], []
    for i, c in enumerate(codes):
        for j, nm in enumerate(NAMES[base_type(c)]):
            cid = f'n{i}.{j}'
            comps[cid] = {'type': nm + (f"|{c.split('_')[1]}" if '_' in c else ''), 'unit': unit[c], 'offset': 1 if c in ('PFA', 'PFV') else 0, 'dir': int(sc['dir'])}
            for d in '12':
                groups.append((cid, '1', d))
                w = np.array(val[c, '1', d]) if sc['dir'] else np.max([val[c, '1', '1'], val[c, '1', '2']], axis=0) * 1.2
                wants.append(w)
    observe(sc['kind'], {}, comps, {'-'.join(k): [unit[k[0]], v] for k, v in val.items()}, groups, wants, obs, f"names:{sc['kind']}")


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for t, o, mi, oi, kind in itertools.product(NAME, range(-2, 3), range(len(MULT)), range(len(OFFS)), ('ds', 'lf')):
        if q and (o + 2 * mi + oi + 3 * (kind == 'lf') + len(t)) % 5 > 1:
            continue
        out.append({'k': 'one', 't': t, 'o': o, 'm': mi, 'of': oi, 'kind': kind})
    for (i, e), kind, mix, shift in itertools.product(enumerate(EXPR), ('ds', 'lf'), (False, True), range(3)):
        out.append({'k': 'expr', 'e': i, 'kind': kind, 'mix': mix, 'shift': shift})
    for t in NAME:
        out.append({'k': 'same', 't': t})
    out += [{'k': 'err', 'i': i, 'kind': kind} for i in range(6) for kind in ('ds', 'lf')]
    for st, kind, dirs, mi, oi in itertools.product((11, 23, 101), ('ds', 'lf'), (('1', '2'), ('1', '2', '11'), ('11', '1', '111', '12')), (0, 2), (0, 2)):
        if (mi == 2) == (oi == 2) and (st != 101 or (mi == 2 and len(dirs) == 2)):
            out.append({'k': 'tall', 'st': st, 'kind': kind, 'dirs': dirs, 'm': mi, 'of': oi})
    for kind, sub, dirn in itertools.product(('ds', 'lf'), (0, 1), (0, 1)):
        out.append({'k': 'names', 'kind': kind, 'sub': sub, 'dir': dirn})
    out += [{'k': 'order', 'perm': p} for p in range(6)]
    return out


def options(sc):
    o = {}
    if MULT[sc['m']] is not None:
        o['NonDirectionalMultipliers'] = MULT[sc['m']]
    if OFFS[sc['of']] is not None:
        o['DemandOffset'] = OFFS[sc['of']]
    return o


def dem_cols(types=None, perm=None):
    return {f'{t}-{l}-{d}': [NAME[t][1], v] for (t, l, d), v in TAB.items() if types is None or t in types}


def ladder(extra=()):
    """Capacities that separate all candidate demands of one type."""
    vals = sorted({round(v, 9) for v in extra})
    return [(a + b) / 2 for a, b in zip(vals, vals[1:])]


def candidates(types):
    mults = {1.0, 1.2, 1.5, 1.1, 2.0, 1.3, 0.8, 1.7}
    v = [x * m for k, vs in TAB.items() if k[0] in types for x in vs for m in mults]
    return v


def observe(kind, opts, comps, dem, groups, wants, obs, sig):
    """
    Run and compare.

    comps: {id: demand spec dict}; groups: [(id, loc, dir)];
    wants: list of arrays aligned with groups.
    """
    marg = [{'cmp': c, 'Units': 'EA', 'Location': l, 'Direction': d, 'Theta_0': 1.0} for c, l, d in groups]
    before = flow.demand_df(dem)
    a = flow.start(dem, marg, opts=opts)
    s0 = a.demand.sample.copy()
    if kind == 'lf':
        tab = flow.lf_df([{'id': c, 'dv': 'Cost', 'unit': 'USD', 'q': '1 EA', 'type': s['type'], 'dunit': s['unit'], 'offset': s['offset'],
                           'dir': s['dir'], 'fn': '-1000,1000|-1000,1000'} for c, s in comps.items()])
        for c, s in comps.items():
            if s.get('expr'):
                tab.loc[(c, 'Cost'), ('Demand', 'Expression')] = s['expr']
                for i, tt in enumerate(s['terms'], start=2):
                    for key, fld in (('Type', 'type'), ('Offset', 'offset'), ('Directional', 'dir')):
                        tab.loc[(c, 'Cost'), (f'Demand{i}', key)] = tt[fld]
        flow.loss_setup(a, ['Cost'], {c: c for c in comps}, [tab])
        a.loss.calculate()
        obs.step(5)
        got = flow.cols_dict(a.loss.lf_model.sample)
        for (c, l, d), w in zip(groups, wants):
            obs.close(got['Cost', c, c, l, d, '0'], w, sig, f'{c} {l} {d} {comps[c]}', rtol=1e-5)
    else:
        lad = {}
        for c in comps:
            mine = [w for (cc, l, d), w in zip(groups, wants) if cc == c]
            near = sorted({float(x) * f for w in mine for x in w for f in (1 - 1e-4, 1 + 1e-4)})
            lad[c] = near
        par = {c: {**s, 'ls': [{'t0': x} for x in lad[c]]} for c, s in comps.items()}
        flow.damage(a, par, batch=[2, 1000][len(groups) % 2])
        obs.step(4)
        got = flow.cols_dict(a.damage.ds_model.ds_sample)
        for (c, l, d), w in zip(groups, wants):
            want = [sum(1 for x in lad[c] if v > x) for v in w]
            obs.close(got[c, l, d, '0', '1'], want, sig, f'{c} {l} {d} {comps[c]} want demand {list(map(float, w))}')
    obs.check(s0.equals(a.demand.sample), f'demand-mutated:{kind}', 'the demand sample changed')
    obs.check(before.equals(flow.demand_df(dem)), 'harness')
    obs.state(kind, [c for c in comps.values()], [list(w) for w in wants])


def run(sc, obs):
    k = sc['k']
    if k == 'names':
        run_names(sc, obs)
    elif k == 'one':
        t = sc['t']
        opts = options(sc)
        comps, groups, wants = {}, [], []
        for dirn in (0, 1):
            c = f'c{dirn}'
            comps[c] = {'type': NAME[t][0], 'unit': NAME[t][1], 'offset': sc['o'], 'dir': dirn}
            for l, d in itertools.product(range(5), (1, 2, 3)):
                w = lookup(t, l, str(d), sc['o'], dirn, OFFS[sc['of']], MULT[sc['m']])
                if isinstance(w, str):
                    continue
                groups.append((c, str(l), str(d)))
                wants.append(w)
        comps = {c: s for c, s in comps.items() if any(g[0] == c for g in groups)}
        if not groups:
            obs.step()
            return
        observe(sc['kind'], opts, comps, dem_cols(), groups, wants, obs, f"demand:{sc['kind']}")
    elif k == 'tall':
        tab = tall(sc['st'], sc['dirs'])
        comps, groups, wants = {}, [], []
        for ti, t in enumerate(NAME):
            for dirn in (0, 1):
                off = (ti + dirn) % 2
                for j, (l, d) in enumerate(itertools.product(sorted({1, 2, 3, 10, 11, 12, 21, sc['st'] // 2, sc['st'] - 1, sc['st']}), sc['dirs'])):
                    w = lookup(t, l, d, off, dirn, OFFS[sc['of']], MULT[sc['m']], tab)
                    if not isinstance(w, str):
                        c = f'c{ti}{dirn}.{j % 11}'
                        comps[c] = {'type': NAME[t][0], 'unit': NAME[t][1], 'offset': off, 'dir': dirn}
                        groups.append((c, str(l), d))
                        wants.append(w)
        dem = {f'{t}-{l}-{d}': [NAME[t][1], v] for (t, l, d), v in tab.items()}
        observe(sc['kind'], options(sc), comps, dem, groups, wants, obs, f"tall:{sc['kind']}")
    elif k == 'expr':
        text, m, fn = EXPR[sc['e']]
        types = [['PGA', 'PID', 'SA_0.5'], ['PFA', 'PFV', 'PGA'], ['SA_0.5', 'PGA', 'PFA']][sc['shift']]
        offs = [[0, 0, 1], [1, 1, 0], [0, 1, 2]][sc['shift']]
        dirs = [[1, 1, 1], [1, 0, 1], [0, 1, 0]][sc['shift']]
        types, offs, dirs = (4 * x for x in (types, offs, dirs))
        if m > 3:
            offs = [(o + i // 3) % 2 for i, o in enumerate(offs)]
        terms = [{'type': NAME[t][0], 'unit': NAME[t][1], 'offset': o, 'dir': d} for t, o, d in zip(types, offs, dirs)][:m]
        comps = {'e': {**terms[0], 'expr': text, 'terms': terms[1:]}}
        groups, wants = [], []
        for l, d in itertools.product((1, 2), (1, 2)):
            xs = [lookup(t, l, str(d), o, dd, None, None) for t, o, dd in zip(types, offs, dirs)][:m]
            groups.append(('e', str(l), str(d)))
            wants.append(fn(xs))
        if sc['mix']:
            comps['p'] = {'type': NAME['PID'][0], 'unit': 'rad', 'offset': 0, 'dir': 1}
            groups.append(('p', '1', '2'))
            wants.append(lookup('PID', 1, '2', 0, 1, None, None))
        observe(sc['kind'], {}, comps, dem_cols(), groups, wants, obs, f"expression:{sc['kind']}")
    elif k == 'same':
        # two terms of one expression resolve to the same demand
        t = sc['t']
        term = {'type': NAME[t][0], 'unit': NAME[t][1], 'offset': 1, 'dir': 1}
        comps = {'e': {**term, 'expr': 'X1*X2', 'terms': [term]}}
        w = lookup(t, 1, '1', 1, 1, None, None)
        for kind in ('ds', 'lf'):
            observe(kind, {}, comps, dem_cols(), [('e', '1', '1')], [w * w], obs, f'expression-same:{kind}')
    elif k == 'order':
        # the column order of the demand table must not matter
        keys = list(dem_cols())
        perm = [keys, keys[::-1], keys[1::2] + keys[::2], sorted(keys), sorted(keys, key=lambda s: s.split('-')[2]), sorted(keys, key=lambda s: s[::-1])][sc['perm']]
        d0 = dem_cols()
        dem = {kk: d0[kk] for kk in perm}
        comps = {'x': {'type': NAME['PFA'][0], 'unit': 'mps2', 'offset': 0, 'dir': 0}, 'y': {'type': NAME['SA_0.5'][0], 'unit': 'mps2', 'offset': 0, 'dir': 1},
                 'z': {'type': NAME['PID'][0], 'unit': 'rad', 'offset': 1, 'dir': 1}}
        groups = [('x', '2', '1'), ('y', '3', '2'), ('z', '0', '3'), ('x', '1', '2'), ('z', '3', '1'), ('y', '0', '1')]
        ty = {'x': 'PFA', 'y': 'SA_0.5', 'z': 'PID'}
        wants = [lookup(ty[c], l, d, comps[c]['offset'], comps[c]['dir'], None, None) for c, l, d in groups]
        for kind in ('ds', 'lf'):
            observe(kind, {}, comps, dem, groups, wants, obs, f'column-order:{kind}')
    elif k == 'err':
        cases = [
            ({'type': NAME['PFA'][0], 'unit': 'mps2', 'offset': 0, 'dir': 1}, '0', '1', {}),  # negative location
            ({'type': NAME['PID'][0], 'unit': 'rad', 'offset': 5, 'dir': 1}, '1', '1', {}),  # no such location
            ({'type': NAME['PID'][0], 'unit': 'rad', 'offset': 0, 'dir': 1}, '4', '3', {}),  # no such direction
            ({'type': 'Peak Ground Velocity', 'unit': 'mps', 'offset': 0, 'dir': 0}, '1', '1', {}),  # type not in sample
            ({'type': NAME['PID'][0], 'unit': 'rad', 'offset': 0, 'dir': 0}, '1', '1', {'NonDirectionalMultipliers': {'PFA': 1.2}}),
            ({'type': NAME['PID'][0], 'unit': 'rad', 'offset': 0, 'dir': 1}, '1', '9', {}),
        ]
        s, l, d, opts = cases[sc['i']]
        if sc['i'] == 4:
            opts = {'NonDirectionalMultipliers': {'PFA': 1.2}}
        try:
            observe(sc['kind'], opts, {'c': s}, dem_cols(), [('c', l, d)], [np.ones(N)], obs, 'unused')
        except ValueError as e:
            code = next(x for x, names in NAMES.items() if s['type'] in names)
            obs.check(sc['i'] == 4 or code in str(e), f"missing-demand-unnamed:{sc['kind']}", f'{cases[sc["i"]]}: {e}')
        else:
            obs.violations.clear()
            if sc['i'] == 4:
                # a default for ALL may be merged in
                return
            obs.fail(f"missing-demand-accepted:{sc['kind']}", cases[sc['i']])
