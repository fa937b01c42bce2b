"""Loss map, consequence selection and consequence scaling."""

from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from checks import c16_ds_losses as c16
from checks import c28_outputs as c28
from mc import dlrun, flow, pel

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('one scenario = (loss map, fill policy, consequence tables) or a scaling specification; the full product of map entries is '
        'enumerated; states = distinct (map, loss table)')
BOUND = {
    'quick': '3 asset components, every map of two components to {absent,A,B,X}, 3 policies, 5 table layouts; names with the old DMG flag, maps with the flag and maps from files; 75 user-defined maps in complete runs; all scaling rows over '
             '{dv} x {component,none} x {location,range,none} x {direction,range,none} and ordered pairs of a subset',
    'thorough': 'same plus all table layouts per policy and triples of scaling rows',
}
ASSUMPTIONS = ['components without consequences must appear in the log or the warnings']

# constant consequences, different for every (id, dv)
COST = {'A': 10.0, 'B': 200.0, 'X': 3000.0, 'C': 40000.0, 'excessiveRID': 500000.0, 'D': 7.0}
LAYOUT = {
    # id -> {dv: model}
    'ds': {i: {'Cost': 'ds', 'Time': 'ds'} for i in COST},
    'lfX': {**{i: {'Cost': 'ds', 'Time': 'ds'} for i in COST}, 'X': {'Cost': 'lf', 'Time': 'lf'}},
    'split': {'A': {'Cost': 'ds', 'Time': 'lf'}, 'B': {'Cost': 'lf', 'Time': 'ds'}, 'X': {'Cost': 'ds', 'Time': 'lf'}, 'C': {'Cost': 'lf'},
              'excessiveRID': {'Cost': 'ds', 'Time': 'ds'}},
    'gaps': {'A': {'Cost': 'ds'}, 'B': {'Time': 'ds'}, 'X': {'Cost': 'lf'}, 'C': {}, 'D': {'Cost': 'ds', 'Time': 'ds'}},
    'lf': {i: {'Cost': 'lf', 'Time': 'lf'} for i in COST},
}
ENTRIES = [None, 'A', 'B', 'X']


def scenarios(tier):
    for lay in LAYOUT:
        for a, b in itertools.product(ENTRIES, repeat=2):
            for pol in (None, 'fill', 'fill_all'):
                for extra in (0, 1) if tier == 'thorough' or lay == 'ds' else (0,):
                    yield {'k': 'map', 'lay': lay, 'm': [a, b], 'pol': pol, 'extra': extra}
    for lay in LAYOUT:
        for pol in ('fill', 'fill_all'):
            yield {'k': 'nomap', 'lay': lay, 'pol': pol}
    # component names that contain the old `DMG` flag, maps that still use the flag, and maps read from a file
    for lay in ('ds', 'split', 'lf'):
        for names in ({}, {'A': 'DMG.A'}, {'A': 'X.DMG', 'B': 'DMGB'}, {'A': 'aDMG', 'C': 'C.DMG.1'}, {'C': 'RID.C', 'B': 'excessiveRID2', 'A': 'preexcessiveRID'}):
            for flag in ('none', 'some', 'all', 'col'):
                for file in (0, 1):
                    for pol in (None, 'fill', 'fill_all'):
                        for m in (['A', 'X'], ['X', None], ['B', 'A']):
                            yield {'k': 'names', 'lay': lay, 'names': names, 'flag': flag, 'file': file, 'pol': pol, 'm': m}
    # automatic maps
    for k, (ap, db, own, st, occ, rep) in enumerate(itertools.product(AUTO_AP, AUTO_DB, AUTO_OWN, range(len(AUTO_SETS)), ('RES1', 'COM1', None), (False, True))):
        if tier == 'thorough' or k % 7 == 0 or (own == 'some' and occ == 'RES1' and st == 0):
            yield {'k': 'auto', 'ap': ap, 'db': db, 'own': own, 'set': st, 'occ': occ, 'rep': rep}
    # user-defined maps in complete runs: collapse and irreparable damage lead to replacement unless the map says otherwise
    for col, irr in itertools.product((None, 'replacement', 'B.1', 'D.3'), repeat=2):
        for b in (None, 'B.1', 'D.3'):
            for c in (None, 'C.2') if tier == 'thorough' or (col, irr).count('D.3') == 0 else ('C.2',):
                yield {'k': 'dl', 'map': {x: y for x, y in (('B.1', b), ('C.2', c), ('collapse', col), ('irreparable', irr)) if y}}
    for v in range(4):
        for pol in (None, 'fill', 'fill_all'):
            for rows in (0, 1, 25):
                yield {'k': 'large', 'v': v, 'pol': pol, 'rows': rows}
    yield {'k': 'badpol', 'lay': 'ds'}
    rows = [
        {'Decision Variable': dv, 'Component': c, 'Location': l, 'Direction': d}
        for dv in ('Cost', 'Time') for c in (None, 'A', 'B') for l in (None, '1', '2', '1--2', '2--5') for d in (None, '1', '2', '0--1')
    ]
    for lay in ('ds', 'split', 'lf'):
        for r in rows:
            for f in (2.0, 0.5, 0.0, 1.25) if tier == 'thorough' else (0.5, 3.0):
                yield {'k': 'scale', 'lay': lay, 'rows': [dict(r, f=f)]}
    for dv in ('Cost', 'Time'):
        for l in ('10', '11', '9--11', '2--10', '10--12', '11--11', None):
            for d in (None, '11', '2--11', '9--12'):
                for lay in ('ds', 'split', 'lf'):
                    yield {'k': 'scale', 'lay': lay, 'rows': [{'Decision Variable': dv, 'Component': None, 'Location': l, 'Direction': d, 'f': 3.0}]}
    sub = [rows[i] for i in (0, 1, 7, 21, 26, 47, 60, 66, 83)]
    for r1, r2 in itertools.product(sub, repeat=2):
        yield {'k': 'scale', 'lay': 'split', 'rows': [dict(r1, f=0.5), dict(r2, f=3.0)]}
    if tier == 'thorough':
        for r1, r2, r3 in itertools.product(sub, repeat=3):
            yield {'k': 'scale', 'lay': 'split', 'rows': [dict(r1, f=0.5), dict(r2, f=3.0), dict(r3, f=1.5)]}
    for drop in ('Decision Variable', 'Scale Factor'):
        yield {'k': 'badscale', 'drop': drop}
    for extra in ('Component', 'Location', 'Direction'):
        yield {'k': 'nocol', 'drop': extra}


def tables(lay, names={}):
    ds, lf = [], []
    for i, dvs in LAYOUT[lay].items():
        for dv, m in dvs.items():
            v = COST[i] * (1.0 if dv == 'Cost' else 1e6)
            u = 'USD_2011' if dv == 'Cost' else 'worker_day'
            if m == 'ds':
                ds.append({'id': names.get(i, i), 'dv': dv, 'unit': u, 'ds': [{'t0': v}, {'t0': 2 * v}]})
            else:
                lf.append({'id': names.get(i, i), 'dv': dv, 'unit': u, 'type': 'Peak Floor Acceleration', 'dunit': 'mps2', 'offset': 1, 'fn': f'0,{v * 10}|0,10'})
    out = []
    if ds:
        out.append(flow.cons_df(ds))
    if lf:
        out.append(flow.lf_df(lf))
    return out


# damage: component -> [(loc, dir, ds, quantities)]
DMG = {
    'A': [('1', '1', '1', [1.0, 0.0, 2.0]), ('2', '2', '2', [0.0, 3.0, 1.0])],
    'B': [('1', '2', '1', [1.0, 1.0, 0.0]), ('2', '1', '1', [2.0, 0.0, 1.0])],
    'C': [('1', '1', '1', [0.0, 1.0, 4.0]), ('10', '2', '1', [2.0, 1.0, 0.0]), ('11', '11', '2', [1.0, 1.0, 3.0])],
    'excessiveRID': [('0', '1', '1', [1.0, 0.0, 0.0])],
}
PFA = {('1', '1'): [1.0, 2.0, 0.0], ('1', '2'): [3.0, 0.5, 1.0], ('2', '1'): [0.0, 4.0, 1.5], ('2', '2'): [5.0, 0.0, 2.5], ('0', '1'): [1.0, 1.0, 1.0],
       ('10', '2'): [2.0, 1.0, 0.5], ('11', '11'): [1.0, 3.0, 2.0]}
QTY = {'A': 2.0, 'B': 3.0, 'C': 5.0, 'excessiveRID': 1.0}


def build(lay, lmap, pol, names={}, file=0, col='Repair'):
    lg = pel.Logged()
    a = lg.a
    a.demand.load_sample(flow.demand_df({f'PFA-{l}-{d}': ['mps2', v] for (l, d), v in PFA.items()}))
    a.asset.load_cmp_model({'marginals': flow.marg_df([
        {'cmp': names.get(c, c), 'Units': 'EA', 'Location': l, 'Direction': d, 'Theta_0': QTY[c], 'Blocks': 1} for c, g in DMG.items() for l, d, _, _ in g])})
    a.asset.generate_cmp_sample(3)
    cols = {(names.get(c, c), l, d, '0', s): v for c, g in DMG.items() for l, d, s, v in g}
    a.damage.load_sample(c16.dmg_table(cols, dict.fromkeys((names.get(c, c) for c in DMG), 'EA')))
    a.loss.decision_variables = ('Cost', 'Time')
    df = None if not lmap else pd.DataFrame({col: list(lmap.values())}, index=list(lmap), dtype=object)
    if file and df is not None:
        d = pel.scratch('map')
        df.to_csv(d / 'map.csv')
        df = str(d / 'map.csv')
    a.loss.add_loss_map(df, pol)
    a.loss.load_model_parameters(tables(lay, names))
    a.loss.calculate()
    return lg, a


def reference(lay, full):
    out = {}
    for c, cid in full.items():
        if c not in DMG:
            continue
        for dv in ('Cost', 'Time'):
            m = LAYOUT[lay].get(cid, {}).get(dv)
            if m is None:
                continue
            v = COST[cid] * (1.0 if dv == 'Cost' else 1e6)
            for l, d, s, q in DMG[c]:
                if m == 'ds':
                    out[dv, cid, c, l, d, s] = np.array(q) * v * int(s)
                else:
                    out[dv, cid, c, l, d, 'N/A'] = np.array(PFA[l, d]) * v * QTY[c]
    return out


def observed(a):
    out = {}
    for s in (a.loss.ds_model.sample, a.loss.lf_model.sample):
        if s is None:
            continue
        names = list(s.columns.names)
        for j, c in enumerate(s.columns):
            r = dict(zip(names, map(str, c)))
            key = (r['dv'], r['loss'], r['dmg'], r['loc'], r['dir'], r.get('ds', 'N/A'))
            out[key] = out.get(key, 0.0) + s.iloc[:, j].to_numpy(dtype=float)
    return out


def compare(obs, got, want, sig, msg):
    for k, v in want.items():
        if k in got:
            obs.close(got[k], v, f'{sig}:value', f'{msg} {k}')
        else:
            obs.check(np.all(v == 0), f'{sig}:missing', f'{msg} {k} missing from {sorted(got)}')
    for k, v in got.items():
        if k not in want:
            obs.check(np.all(v == 0), f'{sig}:extra', f'{msg} unexpected {k}: {v}')
    obs.state(sig, sorted(got), [np.round(v, 6) for _, v in sorted(got.items())])


def run_dl(sc, obs):
    c = dlrun.p58_config(DL__Losses__Repair__MapApproach='User Defined', DL__Losses__Repair__MapFilePath='CustomDLDataFolder/map.csv')
    files = {'response.csv': dlrun.demands(n=9), 'CMP.csv': dlrun.CMP,
             'model/map.csv': ',Repair\n' + ''.join(f'{a},{b}\n' for a, b in sc['map'].items())}
    res, raw = dlrun.in_child(c28._run, {'config': c, 'files': files, 'losses': True, 'kw': {'custom_model_dir': 'model'}})
    if not obs.check(res['end'] == 'ok', 'dl:end', res['end']):
        return
    full = {'collapse': 'replacement', 'irreparable': 'replacement', **sc['map']}
    dn, ln = raw['damage_names'], raw['loss_names']
    model = {'replacement': {'1'}, 'B.1': {'1', '2'}, 'C.2': {'1', '2'}, 'D.3': {'1'}}
    want = set()
    for col, v in raw['damage'][0].items():
        r = dict(zip(dn, col))
        if r['cmp'] in full and r['ds'] in model[full[r['cmp']]] and any(x > 0 for x in v):
            want |= {(dv, full[r['cmp']], r['cmp'], r['ds']) for dv in ('Cost', 'Time')}
    got = set()
    for col, v in raw['loss'][0].items():
        r = dict(zip(ln, col))
        if any(x > 0 for x in v):
            got.add((r['dv'], r['loss'], r['dmg'], r['ds']))
    obs.check(got == want, 'dl:pairs', f"{sc['map']}: missing {sorted(want - got)} unexpected {sorted(got - want)}")
    obs.state('dl', sorted(got))


AUTO_SETS = [{'STR.W1.L': 'PGA', 'NSA.L': 'PGV', 'B.1': 'PGV'}, {'LF.W1': 'PGA', 'C.2': 'PGV'}, {'STR.C1.L': 'PGA', 'D.3': 'PGV', 'excess.STR': 'PGA'},
             {'LF.C1': 'PGV', 'STR.W1.L': 'PGA', 'RID': 'PGV'}]
AUTO_DB = ['None', 'FEMA P-58', 'Hazus Earthquake - Buildings', 'FEMA P-58, Hazus Earthquake - Buildings', 'Hazus Earthquake - Buildings,FEMA P-58']
AUTO_OWN = {
    None: {},
    'some': {('STR.RES1', 'Cost'): [7.0, 8.0, 9.0, 10.0, 11.0], ('STR.RES1', 'Time'): [0.5, 0.6, 0.7, 0.8, 33.0], ('B.1', 'Cost'): [13.0, None, 17.0]},
    'all': {(c, dv): [round(1.7 * (i + 2) + (dv == 'Time') + 3 * k, 3) for k in range(5)] for i, c in enumerate(
        ('STR.RES1', 'NSA.RES1', 'LF.RES1', 'STR.COM1', 'NSA.COM1', 'LF.COM1', 'STR', 'NSA', 'LF', 'STR.W1.L', 'NSA.L', 'LF.W1', 'LF.C1', 'B.1', 'C.2',
         'D.3', 'excess', 'excess.RES1', 'RID', 'RID.COM1')) for dv in ('Cost', 'Time')},
}
AUTO_AP = ['FEMA P-58', 'Hazus Earthquake - Buildings', 'Hazus Earthquake - Lifeline Facilities', 'Hazus Hurricane', 'None', 'User Defined']
AUTO_FULL = {'PGA': ('Peak Ground Acceleration', 'mps2'), 'PGV': ('Peak Ground Velocity', 'mps')}


def _library():
    """{database: {(id, dv): [median of each damage state or None, or 'random']}}"""
    import io

    out = {}
    for db in ('FEMA P-58', 'Hazus Earthquake - Buildings'):
        t = pd.read_csv(io.StringIO(dlrun.LIBRARY[db]['consequence_repair.csv']))
        out[db] = {}
        for r in t.to_dict('records'):
            cid, dv = r['ID'].rsplit('-', 1)
            v = []
            for k in range(1, 6):
                m = r.get(f'DS{k}-Theta_0')
                f = r.get(f'DS{k}-Family')
                v.append(None if m is None or pd.isna(m) else 'random' if isinstance(f, str) else float(m))
            out[db][cid, dv] = v
    return out


def run_auto(sc, obs):
    """Losses of an assessment set up from a configuration, with automatic loss maps and default replacement."""
    from pelicun.assessment import DLCalculationAssessment

    ap, occ, own = sc['ap'], sc['occ'], AUTO_OWN[sc['own']]
    comps = AUTO_SETS[sc['set']]
    rows = list(itertools.product(range(5), range(5), (0, 1)))
    n = len(rows)
    lev = [0.5, 1.5, 2.5, 3.5, 4.5]
    w = pel.scratch('auto')
    flow.demand_df({
        'PGA-0-1': ['mps2', [lev[r[0]] for r in rows]], 'PGV-0-1': ['mps', [lev[r[1]] for r in rows]],
        'RID-1-1': ['unitless', [[0.001, 0.03][r[2]] for r in rows]],
    }).to_csv(w / 'dem.csv')
    pd.DataFrame({'Units': 'ea', 'Location': '0', 'Direction': '1', 'Theta_0': [2.0 + i for i in range(len(comps))]}, index=list(comps)).to_csv(w / 'CMP.csv')

    def table(df, name):
        df = df.copy()
        df.columns = ['-'.join(x for x in c if x) for c in df.columns]
        df.index = ['-'.join(x) if isinstance(x, tuple) else x for x in df.index]
        df.index.name = 'ID'
        df.to_csv(w / name)

    table(flow.dmg_df({c: {'type': AUTO_FULL[d][0], 'unit': AUTO_FULL[d][1], 'ls': [{'t0': 1.0}, {'t0': 2.0}, {'t0': 3.0}, {'t0': 4.0, 'w': '0|1'}]}
                       for c, d in comps.items()}), 'frag.csv')
    if own:
        table(flow.cons_df([{'id': i, 'dv': dv, 'unit': {'Cost': 'loss_ratio', 'Time': 'day'}[dv], 'ds': [None if x is None else {'t0': x} for x in v]}
                            for (i, dv), v in own.items()]), 'cons.csv')
    # the own file comes first, then the databases from the last one listed
    lib = _library()
    known = dict(own)
    day = {k: 86400.0 for k in own if k[1] == 'Time'}
    for db in reversed([x.strip() for x in sc['db'].split(',')]):
        for k, v in lib.get(db, {}).items():
            if k not in known:
                known[k] = v
                day[k] = 86400.0 if k[1] == 'Time' and db != 'FEMA P-58' else 1.0
    if not known:
        return
    rep = {}
    for dv in ('Cost', 'Time'):
        if sc['rep']:
            rep[dv] = {'Cost': 123.0, 'Time': 45.0}[dv]
        elif ap == 'FEMA P-58':
            rep[dv] = 0.0
        elif dv == 'Time' and ap.startswith('Hazus Earthquake'):
            v = known.get((f"{'STR' if ap.endswith('Buildings') else 'LF'}.{occ}", 'Time'))
            if v is None:
                return
            rep[dv] = v[4]
        else:
            rep[dv] = 1.0
    a = DLCalculationAssessment({'PrintLog': False, 'Seed': 1})
    a.calculate_demand(w / 'dem.csv', None, 'm', None, n, None, None, coupled_demands=True)
    a.calculate_asset(2, w / 'CMP.csv', None, None, add_irreparable_damage_columns=True)
    (w / 'process.json').write_text('{"1_excessiveRID": {"DS1": "irreparable_DS1"}, "2_irreparable": {"DS1": "ALL_NA"}}')
    a.calculate_damage('m', 'None', str(w / 'frag.csv'), irreparable_damage={'DriftCapacityMedian': 0.01, 'DriftCapacityLogStd': 1e-7},
                       damage_process_approach=ap, damage_process_file_path=str(w / 'process.json'))
    par = {f'replacement_{dv.lower()}_parameters': {'Unit': {'Cost': 'loss_ratio', 'Time': 'day'}[dv], 'Median': rep[dv]} for dv in rep} if sc['rep'] else {}
    agg, _ = a.calculate_loss('Automatic', occ, sc['db'], 'CustomDLDataFolder/cons.csv' if own else None, str(w), ap,
                              decision_variables=('Cost', 'Time'), **par)
    obs.step(8)
    # the consequence model of each component
    model = {c: (f"{c.split('.')[0]}.{occ}" if occ else c.split('.')[0]) if ap.startswith('Hazus Earthquake') else c for c in [*comps, 'excessiveRID']}
    known.update({('replacement', dv): [v] for dv, v in rep.items()})
    model.update({'collapse': 'replacement', 'irreparable': 'replacement'})
    day['replacement', 'Time'] = 86400.0 if sc['rep'] or ap.startswith('Hazus Earthquake') else 1.0
    want, some = {}, set()
    names = a.damage.ds_model.sample.columns.names
    for col, v in flow.cols_dict(a.damage.ds_model.sample).items():
        r = dict(zip(names, col))
        v = np.nan_to_num(v)
        if r['ds'] == '0':
            continue
        for dv in ('Cost', 'Time'):
            t = known.get((model[r['cmp']], dv))
            t = t[int(r['ds']) - 1] if t and len(t) >= int(r['ds']) else None
            key = (dv, model[r['cmp']], r['cmp'], r['ds'], r['loc'], r['dir'], r['uid'])
            if t == 'random':
                some.add(key)
                want[key] = v
            elif t is not None:
                want[key] = t * v * day.get((model[r['cmp']], dv), 1.0)
    smp = a.loss.sample
    got = {} if smp is None else {tuple(dict(zip(smp.columns.names, c))[k] for k in ('dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid')): smp[c].to_numpy(float)
                                  for c in smp.columns}
    for key, v in want.items():
        g = got.pop(key, np.zeros(n))
        if key in some:
            obs.check(np.array_equal(g > 0, v > 0), 'auto:charged', f'{key} {sc}')
        else:
            obs.close(g, v, f'auto:loss:{key[1] == "replacement"}', f'{key} {sc}')
    obs.check(all(np.all(v == 0) for v in got.values()), 'auto:extra', lambda: f'{[k for k, v in got.items() if np.any(v != 0)]} {sc}')
    if not some:
        gone = np.zeros(n, dtype=bool)
        for k, v in want.items():
            if k[1] == 'replacement':
                gone |= v > 0
        for dv, cols in (('Cost', ['repair_cost']), ('Time', ['repair_time-sequential', 'repair_time-parallel'])):
            full = np.zeros(n)
            for k, v in want.items():
                if k[0] == dv:
                    full += np.where(gone & (k[1] != 'replacement'), 0.0, v)
            flat = {'-'.join(x for x in (c if isinstance(c, tuple) else (c,)) if x): agg[c].to_numpy(float) for c in agg.columns}
            for c in cols:
                g = flat.get(c, np.zeros(n))
                # totals of times come in the unit of the first consequence model: days or worker-days
                f = 86400.0 if dv == 'Time' and full.max() > 1.5 * g.max() > 0 else 1.0
                obs.close(g, full / f, f'auto:total:{c}', f'{sc}')
    obs.state(sc, sorted(want), sorted(some))


# components, consequence models, locations, directions, damage states, realizations
LARGE = [(40, 9, 3, 2, 2, 6), (5, 14, 24, 2, 2, 6), (4, 5, 2, 12, 12, 6), (3, 3, 2, 2, 2, 800)]


def run_large(sc, obs):
    """Many components, models, locations, directions, damage states or realizations."""
    nc, nm, nl, nd, ns, n = LARGE[sc['v']]
    cmps = [f'C.{i + 1}' for i in range(nc)]
    # models named like components that are mapped to others, too
    models = [f'C.{i + 1}' if i % 2 else f'M{i + 1}' for i in range(nm)]
    lmap = {c: models[(5 * i + 1) % nm] for i, c in enumerate(cmps) if i % 6 != 3}
    full = dict(lmap)
    if sc['pol']:
        full.update({c: c for c in cmps if c not in lmap})
    kind = {(m, dv): ('ds', 'lf', 'ds', None, 'lf')[(i + 2 * j) % 5] for i, m in enumerate(models) for j, dv in enumerate(('Cost', 'Time'))}
    cost = {(m, dv): 3.0 + 11 * i + (0.5 if dv == 'Time' else 0.0) for i, m in enumerate(models) for dv in ('Cost', 'Time')}
    unit = {'Cost': 'USD_2011', 'Time': 'worker_day'}
    ds, lf = [], []
    for (m, dv), t in kind.items():
        if t == 'ds':
            ds.append({'id': m, 'dv': dv, 'unit': unit[dv], 'ds': [{'t0': cost[m, dv] * (s + 1)} for s in range(ns)]})
        elif t:
            lf.append({'id': m, 'dv': dv, 'unit': unit[dv], 'type': 'Peak Floor Acceleration', 'dunit': 'mps2', 'offset': 1, 'fn': f'0,{cost[m, dv] * 16}|0,16'})
    grp = [(c, str(lo), str(d)) for i, c in enumerate(cmps) for lo in range(1, nl + 1) for d in range(1, nd + 1) if (i + lo + d) % 5 != 4]
    dem = {(lo, d): [float((5 * i + 3 * int(lo) + int(d)) % 16) for i in range(n)] for lo in map(str, range(nl + 1)) for d in map(str, range(1, nd + 1))}
    dmg = {(c, lo, d, '0', str(s)): [float((7 * i + int(lo) + 2 * int(d) + s + len(c)) % 4) for i in range(n)]
           for c, lo, d in grp for s in range(1, ns + 1) if (s + int(lo) + int(d)) % 3}
    lg = pel.Logged()
    a = lg.a
    a.demand.load_sample(flow.demand_df({f'PFA-{lo}-{d}': ['mps2', v] for (lo, d), v in dem.items()}))
    a.asset.load_cmp_model({'marginals': flow.marg_df([
        {'cmp': c, 'Units': 'EA', 'Location': lo, 'Direction': d, 'Theta_0': 1.0 + int(lo) % 3, 'Blocks': 1} for c, lo, d in grp])})
    a.asset.generate_cmp_sample(n)
    a.damage.load_sample(c16.dmg_table(dmg, dict.fromkeys(cmps, 'EA')))
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss.add_loss_map(pd.DataFrame({'Repair': list(lmap.values())}, index=list(lmap), dtype=object), sc['pol'])
    a.loss.load_model_parameters([flow.cons_df(ds), flow.lf_df(lf)])
    a.loss.calculate()
    want = {}
    for c, lo, d in grp:
        for dv in unit:
            t = kind.get((full.get(c), dv))
            if t == 'lf':
                want[dv, full[c], c, lo, d, 'N/A'] = np.array(dem[lo, d]) * cost[full[c], dv] * (1.0 + int(lo) % 3)
            elif t == 'ds':
                for s in range(1, ns + 1):
                    if (c, lo, d, '0', str(s)) in dmg:
                        want[dv, full[c], c, lo, d, str(s)] = np.array(dmg[c, lo, d, '0', str(s)]) * cost[full[c], dv] * s
    if sc['rows']:
        rows = [{'Decision Variable': ('Cost', 'Time')[j % 2], 'Component': None if j % 4 == 3 else cmps[(7 * j) % nc], 'Location': [None, '2', f'1--{nl}', f'{nl}'][j % 4 if j % 3 else 0],
                 'Direction': [None, '1', f'2--{nd}'][j % 3], 'Scale Factor': [2.0, 0.5, 1.25, 3.0, 0.75][j % 5]} for j in range(sc['rows'])]
        d0 = pel.scratch('scale')
        pd.DataFrame(rows).to_csv(d0 / 's.csv', index=False)
        for r in rows:
            for key in want:
                if key[0] == r['Decision Variable'] and r['Component'] in (None, key[2]) and inside(key[3], r['Location']) and inside(key[4], r['Direction']):
                    want[key] = want[key] * r['Scale Factor']
        a.loss.consequence_scaling(str(d0 / 's.csv'))
    compare(obs, observed(a), want, 'large', str(sc))
    rep = lg.reported()
    for c in full:
        for dv in unit:
            obs.eq(f"('{full[c]}','{dv}')" in rep, kind.get((full[c], dv)) is None, 'large:report', lambda c=c, dv=dv: f'{sc}: missing consequence {full[c]},{dv}')
    lg.close()


def inside(v, spec):
    if spec is None:
        return True
    if '--' in spec:
        lo, hi = map(int, spec.split('--'))
        return lo <= int(v) <= hi
    return v == spec


def run(sc, obs):
    k = sc['k']
    obs.step(6)
    if k == 'large':
        return run_large(sc, obs)
    if k in ('map', 'nomap'):
        if k == 'map':
            lmap = {c: e for c, e in zip('AB', sc['m']) if e is not None}
            if sc['extra']:
                lmap['D'] = 'X'
            if not lmap and sc['pol'] is None:
                lmap = {'C': 'B'}
        else:
            lmap = None
        full = dict(lmap or {})
        if sc['pol']:
            for c in DMG:
                if c not in full and not (sc['pol'] == 'fill' and c == 'excessiveRID'):
                    full[c] = c
        lg, a = build(sc['lay'], lmap, sc['pol'])
        try:
            compare(obs, observed(a), reference(sc['lay'], full), k, str(sc))
            rep = lg.reported()
            for c, cid in full.items():
                for dv in ('Cost', 'Time'):
                    miss = LAYOUT[sc['lay']].get(cid, {}).get(dv) is None
                    named = f"('{cid}','{dv}')" in rep
                    obs.eq(named, miss, 'report', f'{sc}: missing consequence {cid},{dv} reported')
        finally:
            lg.close()
        return
    if k == 'auto':
        return run_auto(sc, obs)
    if k == 'dl':
        run_dl(sc, obs)
        return
    if k == 'names':
        nm = {c: sc['names'].get(c, c) for c in COST}
        old = {v: c for c, v in nm.items()}
        lmap = {c: e for c, e in zip('AB', sc['m']) if e is not None}
        full = dict(lmap)
        if sc['pol']:
            for c in DMG:
                if c not in full and not (sc['pol'] == 'fill' and c == 'excessiveRID'):
                    full[c] = c
        flagged = {'none': [], 'col': [], 'some': ['B' if 'B' in lmap else 'A'], 'all': list(lmap)}[sc['flag']]
        given = {('DMG-' if c in flagged else '') + nm[c]: nm[e] for c, e in lmap.items()}
        lg, a = build(sc['lay'], given, sc['pol'], nm, sc['file'], 'BldgRepair' if sc['flag'] == 'col' else 'Repair')
        got = {(k0[0], old.get(k0[1], k0[1]), old.get(k0[2], k0[2]), *k0[3:]): v for k0, v in observed(a).items()}
        compare(obs, got, reference(sc['lay'], full), k, str(sc))
        lg.close()
        return
    if k == 'badpol':
        try:
            lg, a = build('ds', {'A': 'A'}, 'everything')
        except ValueError:
            obs.check(True, 'badpol')
        else:
            obs.fail('badpol', 'unknown fill policy accepted')
        try:
            lg, a = build('ds', None, None)
        except ValueError:
            obs.check(True, 'badpol')
        else:
            obs.fail('badpol', 'no map and no policy accepted')
        obs.state(k)
        return
    lmap = {'A': 'A', 'B': 'B', 'C': 'C'}
    d = pel.scratch('scale')
    if k == 'badscale':
        lg, a = build('ds', lmap, None)
        before = observed(a)
        df = pd.DataFrame({'Decision Variable': ['Cost'], 'Component': ['A'], 'Scale Factor': [2.0]}).drop(columns=sc['drop'])
        df.to_csv(d / 's.csv', index=False)
        df2 = pd.DataFrame({'Decision Variable': ['Cost', 'Cost'], 'Component': ['A', 'B'], 'Scale Factor': [2.0, 3.0]}).astype(object)
        df2.loc[1, sc['drop']] = np.nan
        df2.to_csv(d / 's2.csv', index=False)
        for f in ('s.csv', 's2.csv'):
            try:
                a.loss.consequence_scaling(str(d / f))
            except ValueError:
                obs.check(True, 'badscale')
            else:
                obs.fail('badscale', f'{sc} {f} accepted')
        compare(obs, observed(a), before, k, str(sc))
        return
    if k == 'nocol':
        sc = dict(sc, lay='split', rows=[{'Decision Variable': 'Cost', 'Component': 'A', 'Location': '1', 'Direction': '1', 'f': 3.0}])
        sc['rows'][0][sc['drop']] = None
    lg, a = build(sc['lay'], lmap, None)
    want = observed(a)
    df = pd.DataFrame([{**{x: v for x, v in r.items() if x != 'f'}, 'Scale Factor': r['f']} for r in sc['rows']])
    if k == 'nocol':
        df = df.drop(columns=sc['drop'])
    df.to_csv(d / 's.csv', index=False)

    for r in sc['rows']:
        for key in want:
            if key[0] == r['Decision Variable'] and r['Component'] in (None, key[2]) and inside(key[3], r['Location']) and inside(key[4], r['Direction']):
                want[key] = want[key] * r['f']
    a.loss.consequence_scaling(str(d / 's.csv'))
    compare(obs, observed(a), want, 'scale', str(sc))
    # aggregated results follow
    agg = a.loss.aggregate_losses(future=True)[0]
    for dv, col in (('Cost', 'repair_cost'), ('Time', ('repair_time', 'sequential'))):
        tot = sum((v for kk, v in want.items() if kk[0] == dv), np.zeros(3))
        g = {(' '.join(c) if isinstance(c, tuple) else str(c)).strip(): agg.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(agg.columns)}
        name = col if isinstance(col, str) else ' '.join(col)
        if name in g:
            obs.close(g[name], tot, 'scale:aggregate', f'{sc} {name}')
    lg.close()
