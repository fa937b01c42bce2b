"""C12: damage processes change exactly the prescribed states, in task order."""

import copy
import itertools
import json

import numpy as np

from checks.c11_damage_state import check_probs
from mc import dmgref as dr
from mc import flow, large

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = (
    'every damage-process program over the task alphabet is executed on a table whose rows enumerate every joint damage state '
    'of source and targets; result is compared cell by cell with a loop model; a state is a distinct resulting table'
)
BOUND = {
    'quick': 'all programs of 1 task and all ordered programs of 2 tasks over a reduced alphabet, on all 3^5 joint states; names that start or end alike'
             '; the four built-in processes, user files and unknown names for 5 sets of components, 6 collapse criteria and residual drift limits'
             '; 24 complete runs of networks (water or not, two databases, 8 processes)'
             '; six large buildings (22 stories, 40 components, 12 limit states, 13 blocks, 12 equal rows)',
    'thorough': 'all programs of 1 and 2 tasks over the full alphabet and of 3 tasks over a small alphabet, on all 3^5 joint states',
}
ASSUMPTIONS = ['task keys start with a number followed by an underscore and name one component']
CHUNK = 8

SRC = ['A', 'A-LOC', 'B', 'B-LOC', 'C', 'C-LOC']
EV = [
    {'DS1': 'B_DS1'}, {'DS2': 'B_DS2'}, {'DS1': 'B_NA'}, {'DS2': 'C_NA'}, {'DS2': 'ALL_NA'}, {'DS1': 'ALL_DS1'}, {'DS0': 'B_DS2'},
    {'DS1': ['B_DS2', 'C_NA']}, {'DS1': 'B_DS1', 'DS2': 'B_DS2'}, {'DS2': ['C_DS3']}, {'DS1': 'X_DS1'}, {'DS1': ['X_NA', 'C_DS1']},
    {'DS2': 'A_DS1'}, {'DS1': 'A_NA'}, {'DS1': 'B_DS0', 'DS2': 'C_DS0'},
]


def ok(src, ev):
    s = src.split('-')[0]
    for t in ev.values():
        for x in t if isinstance(t, list) else [t]:
            if x.split('_')[0] == s:
                return False
    return True


def tasks(srcs=SRC, evs=EV):
    return [(s, e) for s in srcs for e in evs if ok(s, e)]


def scenarios(tier):
    full = tasks()
    out = [{'k': 'prog', 'tasks': [['1', *t]]} for t in full]
    out += [{'k': 'prog', 'tasks': [['1', 'X', {'DS1': 'B_DS1'}], ['2', 'A', {'DS1': 'B_DS1'}]]}]
    if tier == 'quick':
        small = tasks(['A', 'A-LOC', 'B'], [EV[i] for i in (0, 2, 4, 5, 7, 8, 12)])
        out += [{'k': 'prog', 'tasks': [['1', *x], ['2', *y]]} for x, y in itertools.product(small, repeat=2)]
    else:
        out += [{'k': 'prog', 'tasks': [['1', *x], ['2', *y]]} for x, y in itertools.product(full, repeat=2)]
        small = tasks(['A', 'A-LOC', 'B'], [EV[i] for i in (0, 4, 5, 12)])
        out += [{'k': 'prog', 'tasks': [['1', *x], ['2', *y], ['3', *z]]} for x, y, z in itertools.product(small, repeat=3)]
    # numbering decides the order, not the position in the dictionary
    a, b, c = ('A', {'DS1': 'B_DS2'}), ('B', {'DS2': 'C_NA'}), ('A', {'DS1': 'B_DS1'})
    for nums in (['2', '1'], ['10', '9'], ['9', '10'], ['1', '2'], ['100', '20'], ['1.1', '1'][:0]):
        if nums:
            out.append({'k': 'prog', 'tasks': [[nums[0], *a], [nums[1], *b]]})
            out.append({'k': 'prog', 'tasks': [[nums[0], *a], [nums[1], *c]]})
    many = [[str(i), 'A', {'DS1': f'B_DS{i % 3}'}] for i in range(1, 13)]
    out.append({'k': 'prog', 'tasks': many})
    out.append({'k': 'prog', 'tasks': many[::-1]})
    out.append({'k': 'prog', 'tasks': []})
    for t in out:
        t['all_ds'] = len(out) % 2 == 0
    # names that start or end alike
    names = ({'A': 'B.1', 'B': 'B', 'C': 'B.10'}, {'A': 'A', 'B': 'AA', 'C': 'AAA'}, {'A': 'AAA', 'B': 'AA', 'C': 'A'}, {'A': 'x.B', 'B': 'B', 'C': 'ALLB'},
             {'A': 'LOC', 'B': 'DS1', 'C': 'NA'})
    for t in full if tier != 'quick' else tasks(['A', 'A-LOC', 'B', 'C'], [EV[i] for i in (0, 3, 4, 7, 12)]):
        for nm in names:
            out.append({'k': 'prog', 'tasks': [['1', *t]], 'names': nm})
    for bad in ({'1_A': {'LS1': 'B_DS1'}}, {'1_A': {'DS1': 'B_XX'}}):
        out.append({'k': 'bad', 'p': bad})
    out += [{'k': 'layout', 'i': i} for i in range(6)]
    out += [{'k': 'large', 'v': v, 'p': p} for v in range(6) for p in range(7)]
    # the processes that come with pelicun
    for ap, co, irr, cs in itertools.product([*DEFAULT, 'User Defined', 'None', None, 'Unheard of'], COLLAPSE, (False, True), range(len(SETS))):
        if tier != 'quick' or ap in DEFAULT or (co in (None, 'PID') and cs == 0):
            out.append({'k': 'default', 'ap': ap, 'coll': co, 'irr': irr, 'set': cs})
    for irr, cs, ap in itertools.product((False, True), range(len(SETS)), ('User Defined', 'None')):
        out.append({'k': 'default', 'ap': ap, 'coll': None, 'irr': irr, 'set': cs, 'water': 1})
    out += [{'k': 'network', 'v': v, 'db': db} for v in range(8) for db in NETWORK]
    return out


NETWORK = ['Hazus Earthquake - Potable Water', 'Hazus Earthquake - Transportation', 'Hazus Earthquake - Potable Water, Hazus Earthquake - Transportation']


def network(sc, obs):
    """Complete runs of a network: in a water network the pipes can set the state of their aggregate."""
    from checks import c28_outputs as c28
    from mc import dlrun

    db, water = sc['db'], 'Water' in sc['db']
    src = {}
    for k, name in ((2, NETWORK[0]), (1, NETWORK[1])):
        if name in db:
            src.update(dlrun.src_dmg(k))
    lev = [0.5, 1.5, 2.5, 3.5, 1.0, 3.0, 0.1]
    n = len(lev)
    c = sorted(src)
    v = sc['v']
    agg = 'aggregate' if water else c[1]
    proc = [{}, {f'1_{c[0]}': {'DS1': f'{agg}_DS1'}}, {f'1_{c[-1]}': {'DS1': f'{agg}_DS2'}}, {f'2_{c[0]}': {'DS1': f'{agg}_DS1'}, f'1_{c[-1]}': {'DS1': f'{agg}_DS2'}},
            {f'1_{c[0]}': {'DS1': f'{agg}_DS2'}, f'2_{agg}': {'DS2': f'{c[-1]}_NA'}}, {f'1_{c[0]}': {'DS1': [f'{agg}_DS1', f'{c[-1]}_DS0']}},
            {f'1_{c[0]}-LOC': {'DS1': f'{agg}_DS1'}}, {f'1_{agg}': {'DS1': f'{c[0]}_DS0'}}][v]
    comps = [*c, *(['aggregate'] if water else [])]
    qty = {k: 1.0 + i for i, k in enumerate(comps)}
    cfg = {'GeneralInformation': {'AssetName': 'net', 'AssetType': 'WaterDistributionNetwork', 'units': {'length': 'm'}}, 'DL': {
        'Demands': {'DemandFilePath': 'response.csv', 'CoupledDemands': True, 'SampleSize': str(n)},
        'Asset': {'ComponentAssignmentFile': 'CMP.csv', 'ComponentDatabase': db},
        'Damage': {'DamageProcess': 'User Defined', 'DamageProcessFilePath': 'process.json'}, 'Options': {'Seed': 3, 'PrintLog': False, 'DemandOffset': {'PGA': 0}}}}
    files = {'response.csv': dlrun.demand_csv({'PGA-0-1': lev, 'PGV-0-1': [0.1] * n}), 'process.json': json.dumps(proc),
             'CMP.csv': 'ID,Units,Location,Direction,Theta_0,Blocks,Family\n' + ''.join(f'{k},ea,0,1,{q},1,\n' for k, q in qty.items())}
    res, raw = dlrun.in_child(c28._run, {'config': cfg, 'files': files, 'losses': False, 'kw': {'realizations': n}})
    obs.step(4)
    if not obs.check(res['end'] == 'ok', 'network:end', f"{sc}: {res['end']}"):
        return
    st = {(k, '0', '1', '0', '1'): np.array([float(x > t) for x in lev]) for k, t in src.items()}
    st['aggregate' if water else 'collapse', '0', '1', '0', '1'] = np.zeros(n)
    dr.run_process(st, proc)
    got = {k: {} for k in comps}
    for col, x in raw['damage'][0].items():
        r = dict(zip(raw['damage_names'], col))
        if r['cmp'] in got:
            got[r['cmp']][r['ds']] = np.array(x, dtype=float)
    for k in comps:
        s = st[k, '0', '1', '0', '1']
        off = np.isnan(s) | (s < 0)
        for ds in {*got[k], *(str(int(x)) for x in s[~off])}:
            want = np.where(s == float(ds), qty[k], 0.0)
            g = got[k].get(ds, np.zeros(n))
            obs.close(g[~off], want[~off], 'network:quantity', f'{sc} {k} DS{ds}')
            obs.check(not np.nan_to_num(g[off]).any(), 'network:na', f'{sc} {k} DS{ds}')
    obs.state(sc, {k: v.tolist() for k, v in st.items()})


PGS = [('A', '1', '1'), ('A', '2', '1'), ('B', '1', '1'), ('B', '2', '1'), ('C', '1', '1')]
NBL = {'A': 1, 'B': 2, 'C': 1}
QTY = {'A': 2.0, 'B': 3.0, 'C': 5.0}
EDP = {'A': ('PGA', 'Peak Ground Acceleration', 'mps2'), 'B': ('PGV', 'Peak Ground Velocity', 'mps'), 'C': ('PIH', 'Peak Inundation Height', 'm')}


def model():
    joint = list(itertools.product((0, 1, 2), repeat=5))
    dem = {}
    for i, (c, l, d) in enumerate(PGS):
        dem[f'{EDP[c][0]}-{l}-{d}'] = [EDP[c][2], [0.5 + j[i] for j in joint]]
    marg = [{'cmp': c, 'Units': 'EA', 'Location': l, 'Direction': d, 'Theta_0': QTY[c], 'Blocks': NBL[c]} for c, l, d in PGS]
    par = {c: {'type': EDP[c][1], 'unit': EDP[c][2], 'ls': [{'t0': 1.0}, {'t0': 2.0}]} for c in EDP}
    st = {}
    for i, (c, l, d) in enumerate(PGS):
        for b in range(1, NBL[c] + 1):
            st[c, l, d, '0', str(b)] = np.array([float(j[i]) for j in joint])
    return dem, marg, par, st


def run_large(sc, obs):
    v = sc['v']
    comps, _ = large.parts(v)
    c = list(comps)
    proc = [
        {f'1_{c[0]}-LOC': {'DS1': f'{c[1]}_NA', 'DS2': f'{c[-1]}_DS1'}},
        {f'1_{c[0]}': {f'DS{i}': f'{c[1]}_DS{i + 1}' for i in range(14)}},
        {f'1_{c[1]}-LOC': {'DS0': 'ALL_NA'}},
        {f'1_{c[-1]}': {'DS1': [f'{x}_DS{i % 5}' for i, x in enumerate(c[:-1])]}},
        {f'{i + 1}_{x}-LOC': {'DS1': f'{c[i - 1]}_DS{1 + i % 12}'} for i, x in enumerate(c)},
        {f'{i + 1}_{x}': {'DS2': 'ALL_DS11', 'DS11': f'{c[i - 1]}_DS10', 'DS10': f'{c[i - 1]}_NA'} for i, x in enumerate(c[:3])},
        {f'{12 - i}_{c[i % len(c)]}-LOC': {f'DS{i}': f'{c[(i + 1) % len(c)]}_DS{11 - i}'} for i in range(12)},
    ][sc['p']]
    a = large.start(v)
    flow.damage(a, comps, process=proc)
    obs.step(4 + len(proc))
    st, qty, nb = large.expected(v)
    dr.run_process(st, proc)
    got = flow.cols_dict(a.damage.ds_model.ds_sample)
    obs.eq(sorted(got), sorted(st), 'large:columns', sc)
    for k, w in st.items():
        if k in got:
            obs.close(got[k], w, 'large:state', f'{k} {proc}')
    compare_qty(a, st, qty, nb, obs)
    obs.state(sc, got)


# what the manual says the processes do; STR and LF stand for the component of that kind
DEFAULT = {
    'FEMA P-58': [('excessive.coll.DEM', 'DS1', 'collapse_DS1'), ('collapse', 'DS1', 'ALL_NA'), ('excessiveRID', 'DS1', 'irreparable_DS1'),
                  ('irreparable', 'DS1', 'ALL_NA'), ('irreparable', 'DS1', 'collapse_DS0')],
    'Hazus Earthquake - Buildings': [
        ('STR', 'DS5', 'collapse_DS1'), ('excessive.coll.DEM', 'DS1', 'collapse_DS1'), ('collapse', 'DS1', 'ALL_NA'),
        ('excessiveRID', 'DS1', 'irreparable_DS1'), ('irreparable', 'DS1', 'ALL_NA'), ('irreparable', 'DS1', 'collapse_DS0')],
    'Hazus Earthquake - Lifeline Facilities': [('LF', 'DS5', 'collapse_DS1'), ('collapse', 'DS1', 'ALL_NA')],
    'Hazus Hurricane': [],
}
COLLAPSE = {None: None, 'PID': 0.05, 'PGV': 3.0, 'SA_1.0': 12.0, 'PIH': 2.0, 'PFA': 5.0}
SETS = [{'STR.W1.L': 'PGA', 'NSA.L': 'PGV', 'B.1': 'PGV'}, {'LF.W1': 'PGA', 'B.1': 'PGV'}, {'B.1': 'PGA', 'C.2': 'PGV'},
        {'STR.C1': 'PGA', 'LF.C1': 'PGV', 'NSA.L': 'PGA'}, {'A.STRX': 'PGA', 'STR.W1': 'PGV', 'ZLF': 'PGA'}]
FULL = {'PGA': ('Peak Ground Acceleration', 'mps2'), 'PGV': ('Peak Ground Velocity', 'mps')}


def default(sc, obs):
    """Damage of an assessment set up from a configuration, with the processes it offers."""
    import pandas as pd

    from mc import pel
    from pelicun.assessment import DLCalculationAssessment

    level = [0.5, 1.5, 2.5, 3.5, 4.5]
    state = {'PGA': [0, 1, 2, 3, 5], 'PGV': [0, 1, 2, 3, 5]}
    rows = list(itertools.product((0, 1), (0, 1), (0, 1), (0, 1), range(5), range(5)))
    n = len(rows)
    col = lambda f: [f(r) for r in rows]  # noqa: E731
    dem = {
        'PID-1-1': ['unitless', col(lambda r: [0.01, 0.06][r[0]])], 'PID-1-2': ['unitless', [0.02] * n],
        'PID-2-1': ['unitless', [0.03] * n], 'PID-2-2': ['unitless', col(lambda r: [0.04, 0.07][r[1]])],
        'RID-1-1': ['unitless', col(lambda r: [0.001, 0.03][r[2]])], 'RID-2-1': ['unitless', col(lambda r: [0.002, 0.02][r[3]])],
        'PGA-0-1': ['mps2', col(lambda r: level[r[4]])], 'PGV-0-1': ['mps', col(lambda r: level[r[5]])],
        'SA_1.0-0-1': ['mps2', col(lambda r: [11.0, 13.0][r[1]])],
        'PIH-10-1': ['m', col(lambda r: [1.0, 3.0][r[0]])], 'PIH-2-1': ['m', [1.5] * n],
        'PFA-0-1': ['mps2', [1.0] * n], 'PFA-1-1': ['mps2', col(lambda r: [2.0, 6.0][r[0]])], 'PFA-2-1': ['mps2', col(lambda r: [3.0, 7.0][r[1]])],
    }
    comps = SETS[sc['set']]
    # pipes of a water network set the state of their aggregate
    water = sc.get('water')
    extra = ['aggregate'] if water else []
    w = pel.scratch('default')
    df = flow.demand_df(dem)
    df.to_csv(w / 'dem.csv')
    pd.DataFrame({'Units': 'ea', 'Location': '0', 'Direction': '1', 'Theta_0': [2.0 + i for i in range(len(comps) + len(extra))]}, index=[*comps, *extra]).to_csv(w / 'CMP.csv')
    frag = flow.dmg_df({c: {'type': FULL[d][0], 'unit': FULL[d][1], 'ls': [{'t0': 1.0}, {'t0': 2.0}, {'t0': 3.0}, {'t0': 4.0, 'w': '0|1'}]}
                        for c, d in comps.items()})
    frag.columns = ['-'.join(x for x in c if x) for c in frag.columns]
    frag.index.name = 'ID'
    frag.to_csv(w / 'frag.csv')
    user = {'2_B.1': {'DS2': 'ALL_NA'}, '1_NSA.L': {'DS5': ['B.1_DS2', 'collapse_DS1']}}
    if water:
        c = list(comps)
        user = {'1_' + c[0]: {'DS1': 'aggregate_DS1'}, '2_' + c[-1]: {'DS5': 'aggregate_DS2'}, '3_aggregate': {'DS2': c[0] + '_NA'}}
    (w / 'process.json').write_text(json.dumps(user))
    coll = sc['coll']
    cf = None if coll is None else {'DemandType': coll, 'CapacityDistribution': 'lognormal', 'CapacityMedian': COLLAPSE[coll], 'Theta_1': 1e-7}
    ir = {'DriftCapacityMedian': 0.01, 'DriftCapacityLogStd': 1e-7} if sc['irr'] else None
    a = DLCalculationAssessment({'PrintLog': False, 'Seed': 1})
    a.calculate_demand(w / 'dem.csv', None, 'm', None, n, None, None, coupled_demands=True)
    a.calculate_asset(2, w / 'CMP.csv', coll, None, add_irreparable_damage_columns=sc['irr'])
    a.calculate_damage('m', 'None', str(w / 'frag.csv'), collapse_fragility=cf, irreparable_damage=ir, damage_process_approach=sc['ap'],
                       damage_process_file_path=str(w / 'process.json') if sc['ap'] == 'User Defined' else None,
                       is_for_water_network_assessment=bool(water))
    obs.step(6)
    st = {(c, '0', '1', '0', '1'): np.array([float(state[d][r[4 if d == 'PGA' else 5]]) for r in rows]) for c, d in comps.items()}
    st['aggregate' if water else 'collapse', '0', '1', '0', '1'] = np.zeros(n)

    def exceed(prefix, cap):
        return {tuple(k.split('-')[1:]): (np.array(v[1]) > cap).astype(float) for k, v in dem.items() if k.split('-')[0] == prefix}

    if coll == 'SA_1.0':
        st['collapse', '0', '1', '0', '1'] = exceed('SA_1.0', COLLAPSE[coll])['0', '1']
    elif coll:
        st.update({('excessive.coll.DEM', *k, '0', '1'): v for k, v in exceed(coll, COLLAPSE[coll]).items()})
    if ir:
        st.update({('excessiveRID', *k, '0', '1'): v for k, v in exceed('RID', 0.01).items()})
        st['irreparable', '0', '1', '0', '1'] = np.zeros(n)
    proc = {}
    if sc['ap'] in DEFAULT:
        for i, (src, ds, tg) in enumerate(DEFAULT[sc['ap']]):
            if src in ('STR', 'LF'):
                src = next((c for c in comps if c.startswith(src + '.')), src)
            proc[f'{i + 1}_{src}'] = {ds: tg}
    elif sc['ap'] == 'User Defined':
        proc = user
    qty = {k[:4]: np.full(n, 1.0) for k in st}
    for i, c in enumerate([*comps, *extra]):
        qty[c, '0', '1', '0'] = np.full(n, 2.0 + i)
    dr.run_process(st, proc)
    got = flow.cols_dict(a.damage.ds_model.ds_sample)
    obs.eq(sorted(got), sorted(st), 'default:columns', sc)
    for k, v in st.items():
        if k in got:
            obs.close(got[k], v, f'default:{sc["ap"]}', lambda k=k: f'{k} {sc}')
    compare_qty(a, st, qty, dict.fromkeys(qty, 1), obs)
    obs.state(sc, got)


def run(sc, obs):
    if sc['k'] == 'default':
        return default(sc, obs)
    if sc['k'] == 'network':
        return network(sc, obs)
    if sc['k'] == 'large':
        return run_large(sc, obs)
    if sc['k'] == 'layout':
        return layout(sc['i'], obs)
    dem, marg, par, st = model()
    nm = sc.get('names') or {c: c for c in 'ABC'}
    for r in marg:
        r['cmp'] = nm[r['cmp']]
    par = {nm[c]: v for c, v in par.items()}
    st = {(nm[k[0]], *k[1:]): v for k, v in st.items()}
    a = flow.start(dem, marg)
    if sc['k'] == 'bad':
        try:
            flow.damage(a, par, process=sc['p'])
        except ValueError:
            obs.check(True, 'bad')
        else:
            obs.fail('bad-accepted', sc['p'])
        return None
    def word(x):
        c, *r = x.split('_')
        return '_'.join([nm.get(c, c), *r])

    def source(x):
        c, *r = x.split('-')
        return '-'.join([nm.get(c, c), *r])

    proc = {f'{n}_{source(s)}': {k: [word(x) for x in v] if isinstance(v, list) else word(v) for k, v in e.items()} for n, s, e in sc['tasks']}
    given = copy.deepcopy(proc)
    flow.damage(a, par, process=proc)
    obs.step(4 + len(proc))
    obs.eq(list(map(str, proc.items())), list(map(str, given.items())), 'process-mutated')
    dr.run_process(st, given)
    got = flow.cols_dict(a.damage.ds_model.ds_sample)
    obs.eq(sorted(got), sorted(st), 'columns')
    for k, w in st.items():
        obs.close(got[k], w, f'state:{k[0]}', f'{k} {given}')
    compare_qty(a, st, {(nm[c], l, d, '0'): np.full(243, QTY[c]) for c, l, d in PGS}, {(nm[c], l, d, '0'): NBL[c] for c, l, d in PGS}, obs)
    obs.state(got)
    return None


def compare_qty(a, st, qty, nb, obs):
    check_probs(a, obs, 'probabilities')
    want = dr.quantities(st, qty, nb)
    smp = flow.cols_dict(a.damage.ds_model.sample)
    obs.eq(sorted(smp), sorted(want), 'quantity-columns')
    for k, w in want.items():
        if k in smp:
            obs.close(smp[k], w, 'quantity', f'{k}')


def layout(i, obs):
    """Source and target groups spread over locations, directions, groups."""
    lay = [
        [('A', '1', '1'), ('A', '1', '2'), ('B', '1', '1'), ('B', '2', '1')],
        [('A', '1', '1'), ('A', '2', '2'), ('B', '1', '2'), ('B', '3', '1')],
        [('A', '0', '1'), ('A', '10', '1'), ('B', '1', '1'), ('B', '10', '1'), ('B', '0', '2')],
        [('A', '1', '1'), ('B', '2', '1'), ('B', '3', '1')],
        [('A', '1', '1'), ('A', '1', '1'), ('B', '1', '1'), ('B', '2', '1')],
        [('A', '2', '1'), ('A', '1', '1'), ('A', '3', '1'), ('B', '3', '1'), ('B', '2', '1')],
    ][i]
    locs = sorted({(c, l, d) for c, l, d in lay})
    joint = list(itertools.product((0, 1, 2), repeat=len(locs)))
    dem = {f'{EDP[c][0]}-{l}-{d}': [EDP[c][2], [0.5 + j[x] for j in joint]] for x, (c, l, d) in enumerate(locs)}
    marg = [{'cmp': c, 'Units': 'EA', 'Location': l, 'Direction': d, 'Theta_0': 1.0, 'Blocks': 1 + x % 2} for x, (c, l, d) in enumerate(lay)]
    par = {c: {'type': EDP[c][1], 'unit': EDP[c][2], 'ls': [{'t0': 1.0}, {'t0': 2.0}]} for c in ('A', 'B')}
    for proc in (
        {'1_A': {'DS2': 'B_NA'}}, {'1_A-LOC': {'DS2': 'B_NA'}}, {'1_A-LOC': {'DS1': 'ALL_DS2'}}, {'1_A': {'DS1': 'ALL_DS2', 'DS0': 'B_DS1'}},
        {'1_B-LOC': {'DS1': 'A_NA'}, '2_A': {'DS2': 'B_DS1'}}, {'1_A-LOC': {'DS0': 'B_DS0'}},
    ):
        a = flow.start(dem, marg)
        flow.damage(a, par, process=proc)
        obs.step(4)
        st, qty, nb, seen = {}, {}, {}, {}
        for x, (c, l, d) in enumerate(lay):
            u = str(seen.get((c, l, d), 0))
            seen[c, l, d] = int(u) + 1
            y = locs.index((c, l, d))
            qty[c, l, d, u] = np.ones(len(joint))
            nb[c, l, d, u] = 1 + x % 2
            for b in range(1, 2 + x % 2):
                st[c, l, d, u, str(b)] = np.array([float(j[y]) for j in joint])
        dr.run_process(st, proc)
        got = flow.cols_dict(a.damage.ds_model.ds_sample)
        obs.eq(sorted(got), sorted(st), 'layout-columns')
        for k, w in st.items():
            if k in got:
                obs.close(got[k], w, 'layout-state', f'{k} {proc} {lay}')
        compare_qty(a, st, qty, nb, obs)
        obs.state(got)
