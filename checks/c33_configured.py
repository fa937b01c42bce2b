"""A configured run gives the results of the same analysis set up with the interface."""

from __future__ import annotations

import itertools
import json
import os
import pathlib
import shutil

import numpy as np

from checks import c28_outputs as c28
from mc import dlrun as d
from mc import pel

PROPERTY = 'C33'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of configurations; every complete run of the real code is compared with the same steps called one '
             'by one through the interface')
RULE = ('one scenario = (base configuration, one or two entries set, changed or removed, order of the entries); the demand, asset, damage, '
        'loss and aggregated samples of the run from the configuration file are compared, number by number, with those of an assessment '
        'whose steps are called with the values read from the configuration; states = distinct samples')
BOUND = {
    'quick': 'component-based, Hazus earthquake, wind/flood and network configurations; 71 variations of entries alone, in reversed entry order, '
             'through auto-population, and pairs of variations of different entries (a fifth of them); all ordered selections of three methods of auto-population',
    'thorough': 'all pairs of variations of different entries',
}
ASSUMPTIONS = ['the steps of the interface themselves are judged by the other checks (C08-C21, C31)',
               'configured runs list all damage states unless the configuration says otherwise']
CHUNK = 2

FRAG = """ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional,LS1-Family,LS1-Theta_0,LS1-Theta_1,LS2-Family,LS2-Theta_0,LS2-Theta_1
B.1,0,Peak Interstory Drift Ratio,unitless,0,1,lognormal,0.014,0.3,lognormal,0.017,0.4
STR.W1.L,0,Peak Interstory Drift Ratio,unitless,0,0,lognormal,0.006,0.3,lognormal,0.014,0.4
W.1,0,Peak Ground Acceleration,mps2,0,1,lognormal,3.0,0.3,lognormal,7.0,0.4
F.1,0,Peak Ground Velocity,mps,0,1,lognormal,4.0,0.5,,,
"""
CONS = """ID,Incomplete,Quantity-Unit,DV-Unit,DS1-Family,DS1-Theta_0,DS1-Theta_1,DS2-Family,DS2-Theta_0,DS2-Theta_1
B.1-Cost,0,1 EA,USD_2011,,41,,normal,77,0.2
B.1-Time,0,1 EA,worker_day,lognormal,1.3,0.4,,8,
"""
CONS_HZ = """ID,Incomplete,Quantity-Unit,DV-Unit,DS1-Family,DS1-Theta_0,DS1-Theta_1,DS2-Family,DS2-Theta_0,DS2-Theta_1
STR.RES1-Cost,0,1 EA,loss_ratio,,0.03,,,0.4,
W.1-Cost,0,1 EA,loss_ratio,,0.2,,,0.7,
F.1-Cost,0,1 EA,loss_ratio,lognormal,0.3,0.2,,,
"""
MAP = ',Repair\nB.1,C.2\nC.2,B.1\nD.3,D.3\n'
PROC = {'1_B.1': {'DS2': 'C.2_NA'}, '2_D.3': {'DS1': 'collapse_DS1'}, '3_collapse': {'DS1': 'ALL_NA'}}
UNITS = '{"my_length": 2.0}'
SAMPLE = (',' + ','.join(['B.1-1-1-0', 'B.1-2-2-0', 'C.2-1-0-0', 'D.3-2-1-0', 'collapse-0-1-0', 'excessiveRID-1-1-0', 'excessiveRID-1-2-0', 'excessiveRID-2-1-0',
          'excessiveRID-2-2-0', 'irreparable-0-1-0', *(f'excessive.coll.DEM-{a}-{b}-0' for a in (1, 2) for b in (1, 2))]) + '\nUnits,' + ','.join(['ea'] * 14) + '\n'
          + ''.join(f'{i},' + ','.join(str(x) for x in [3.0 + i % 4, 2.0, 1.5 + i % 3, 4.0, *([1.0] * 10)]) + '\n' for i in range(20)))
FILES = {
    'response.csv': d.demands(n=13, extra=('1-SA_1.0-0-1', '1-PGA-0-1', '1-PGV-0-1')), 'CMP.csv': d.CMP,
    'own/frag.csv': FRAG, 'own/cons.csv': CONS, 'own/ratio.csv': CONS_HZ, 'model/frag.csv': FRAG, 'model/cons.csv': CONS, 'model/map.csv': MAP, 'process.json': json.dumps(PROC),
    'sample.csv': SAMPLE, 'units.json': UNITS,
    'HZ.csv': d.cmp_csv([('STR.W1.L', 'ea', '1', '1,2', 1, '', ''), ('NSA.L', 'ea', '1', '1', 1, '', ''), ('LF.W1', 'ea', '0', '1', 1, '', '')]),
    'NET.csv': d.cmp_csv([('Q.2', 'ea', '0', '1', 1, '', ''), ('Q.3', 'ea', '0', '1', 2, '', ''), ('aggregate', 'ea', '0', '1', 3, '', '')]),
    'net1.json': json.dumps({'1_Q.3': {'DS1': 'aggregate_DS1'}}), 'net2.json': json.dumps({'1_Q.2': {'DS1': ['aggregate_DS2']}, '2_aggregate': {'DS2': 'Q.3_NA'}}),
    'WF.csv': d.cmp_csv([('W.1', 'ea', '0', '1', 1, '', ''), ('F.1', 'ea', '0', '1', 1, '', '')]),
}
Q = 'DL/Losses/Repair/'
A = 'DL/Damage/'
# variations of one entry: [(path, value)]; None removes the entry
VARY = {
    'p58': [
        [('DL/Demands/SampleSize', '31')], [('DL/Demands/SampleSize', '7')], [('DL/Demands/CoupledDemands', True)], [('DL/Demands/Calibration', None)],
        [('DL/Demands/CoupledDemands', True), ('DL/Demands/Calibration', None)], [('DL/Demands/CoupledDemands', True), ('DL/Demands/Calibration', {'ALL': {'DistributionFamily': 'empirical'}, 'PID': {'DistributionFamily': 'lognormal'}})],
        [('DL/Demands/Calibration', {'ALL': {'DistributionFamily': 'normal'}})], [('DL/Demands/Calibration', {'ALL': {'DistributionFamily': 'empirical'}, 'PFA': {'DistributionFamily': 'lognormal', 'AddUncertainty': 0.2}})],
        [('DL/Demands/CollapseLimits', {'PID': 0.028})], [('DL/Demands/CollapseLimits', {'PFA': 8.6, 'PID': '0.029'})],
        [('DL/Demands/InferResidualDrift', None), (A + 'IrreparableDamage', None)], [('DL/Demands/InferResidualDrift', {'method': 'FEMA P-58', '1': 0.002, '2': 0.009})],
        [('DL/Demands/DemandCloning', {'PGA-0-1': ['PGA-0-1', 'PGA-1-1', 'PGA-2-1']})],
        [('DL/Asset/NumberOfStories', '1')], [('DL/Asset/NumberOfStories', 2)],
        [('DL/Asset/ComponentAssignmentFile', None), ('DL/Asset/ComponentSampleFile', 'sample.csv')],
        [('DL/Asset/ComponentDatabasePath', 'own/frag.csv')], [('DL/Asset/ComponentDatabasePath', 'CustomDLDataFolder/frag.csv')],
        [('DL/Asset/ComponentDatabase', 'FEMA P-58, Hazus Earthquake - Buildings')], [('DL/Asset/OccupancyType', 'COM1')],
        [(A + 'DamageProcess', 'None')], [(A + 'DamageProcess', 'User Defined'), (A + 'DamageProcessFilePath', 'process.json')],
        [(A + 'CollapseFragility', None)], [(A + 'CollapseFragility/DemandType', 'SA_1.0'), (A + 'CollapseFragility/CapacityMedian', 9.0)],
        [(A + 'CollapseFragility/CapacityMedian', 0.02)], [(A + 'CollapseFragility/CapacityDistribution', 'normal'), (A + 'CollapseFragility/CapacityMedian', 0.02)],
        [(A + 'CollapseFragility/Theta_1', 0.9)], [(A + 'CollapseFragility/DemandType', 'PFA'), (A + 'CollapseFragility/CapacityMedian', 7.0)],
        [(A + 'IrreparableDamage', None)], [(A + 'IrreparableDamage/DriftCapacityMedian', 0.004)], [(A + 'IrreparableDamage/DriftCapacityLogStd', 0.9), (A + 'IrreparableDamage/DriftCapacityMedian', 0.006)],
        [(A + 'ScalingSpecification', {'B.1-1-1': {'LS1': '*1.4'}, 'C.2-1-0': {'ALL': '/1.5'}})], [(A + 'ScalingSpecification', {'D.3-2-1': {'ALL': '-0.004'}})],
        [(Q + 'ConsequenceDatabasePath', 'own/cons.csv')], [(Q + 'ConsequenceDatabasePath', 'CustomDLDataFolder/cons.csv')],
        [(Q + 'ConsequenceDatabase', 'FEMA P-58,Hazus Earthquake - Buildings')], [(Q + 'MapApproach', 'User Defined'), (Q + 'MapFilePath', 'CustomDLDataFolder/map.csv')],
        [(Q + 'MapApproach', 'User Defined'), (Q + 'MapFilePath', 'model/map.csv')],
        [(Q + 'DecisionVariables', {'Cost': True, 'Time': False})], [(Q + 'DecisionVariables', {'Time': True})], [(Q + 'DecisionVariables', None)],
        [(Q + 'ReplacementCost', None)], [(Q + 'ReplacementCost', {'Unit': 'USD_2011', 'Median': 800})], [(Q + 'ReplacementTime', None)],
        [(Q + 'ReplacementTime', {'Unit': 'hour', 'Median': 70, 'Distribution': 'normal', 'Theta_1': 0.2})],
        [(Q + 'DecisionVariables', {'Cost': True, 'Carbon': True, 'Energy': True}), (Q + 'ReplacementCarbon', {'Unit': 'kg', 'Median': 70, 'Distribution': 'normal', 'Theta_1': 0.2}),
         (Q + 'ReplacementEnergy', {'Unit': 'MJ', 'Median': 30, 'Distribution': 'lognormal', 'Theta_1': 0.7})],
        [('DL/Losses', None)], [('DL/Options/Seed', 12)], [('DL/Options/Sampling', {'SamplingMethod': 'MonteCarlo'})], [('DL/Options/Sampling', {'SampleSize': 9, 'SamplingMethod': 'LHS_midpoint'})],
        [('DL/Options/ListAllDamageStates', False)], [('DL/Options/DemandOffset', {'PFA': 0}), ('DL/Asset/NumberOfStories', '1')], [('DL/Options/NonDirectionalMultipliers', {'ALL': 1.0, 'PFA': 2.0})],
        [('DL/Options/EconomiesOfScale', {'AcrossFloors': False, 'AcrossDamageStates': True})], [('DL/Options/RepairCostAndTimeCorrelation', 0.8)],
        [('GeneralInformation/units/length', 'ft')],
    ],
    'hz': [
        [], [('DL/Asset/OccupancyType', 'COM1')], [('DL/Asset/ComponentDatabasePath', 'own/frag.csv')], [(Q + 'ConsequenceDatabasePath', 'own/ratio.csv')],
        [(A + 'ScalingSpecification', {'STR.W1.L-1-2': {'LS2': '*0.4'}})], [(A + 'DamageProcess', 'None')],
    ],
    'net': [[], [('DL/Damage/DamageProcessFilePath', 'net2.json')], [('DL/Asset/ComponentDatabase', 'Hazus Earthquake - Transportation, Hazus Earthquake - Potable Water')],
            [('DL/Asset/ComponentDatabase', 'Hazus Earthquake - Transportation')]],
    'wf': [[], [(Q + 'CombinationMethod', None)], [('DL/Demands/SampleSize', '8')]],
}


# methods of auto-population: components they define (capacity, loss)
METHODS = {
    'Hazus Hurricane Wind - Buildings - Coupled': {'W.1': (3.0, 0.2), 'V.1': (2.0, 0.05)},
    'Hazus Hurricane Storm Surge - Buildings': {'F.1': (4.0, 0.4), 'W.1': (2.5, 0.1)},
    'Hazus Earthquake - Electric Power': {'W.1': (1.5, 0.4), 'F.1': (2.0, 0.3), 'V.1': (2.5, 0.15)},
}
# the configuration the method gives for the building
SCRIPT = """
import json
import pandas as pd

def auto_populate(aim):
    dl, comp = json.load(open('methods.json'))[%r]
    return dict(aim['GeneralInformation']), dl, pd.DataFrame(comp[0], index=comp[1])
"""


def prepare(tier):  # noqa: ARG001
    import pelicun

    res = pathlib.Path(pelicun.__file__).parent / 'resources'
    paths = json.loads((res / 'dlml_resource_paths.json').read_text())
    for m, cmps in METHODS.items():
        where = res / 'DamageAndLossModelLibrary' / paths[m]
        where.mkdir(parents=True, exist_ok=True)
        (where / 'pelicun_config.py').write_text(SCRIPT % m)
        (where / 'fragility.csv').write_text(FRAG.splitlines()[0] + '\n' + ''.join(
            f'{c},0,Peak Ground Acceleration,mps2,0,1,lognormal,{th},0.3,,,\n' for c, (th, _) in cmps.items()))
        (where / 'consequence_repair.csv').write_text(CONS_HZ.splitlines()[0] + '\n' + ''.join(
            f'{c}-Cost,0,1 EA,loss_ratio,lognormal,{v},0.2,,,\n' for c, (_, v) in cmps.items()))


def methods_case(sc):
    """(configuration given, files, equivalent configuration)"""
    names = list(METHODS)
    chosen = [names[i] for i in sc['methods']]
    told, comp = {}, []
    for i in sc['methods']:
        dl = base('wf')['DL']
        for k in ('Demands', 'Outputs'):
            dl.pop(k, None)
        dl['Asset'] = {'ComponentDatabase': names[i], 'NumberOfStories': '1', 'OccupancyType': ('RES1', 'COM1', 'IND1')[i]}
        dl['Losses']['Repair'] = {'ConsequenceDatabase': names[i], 'MapApproach': 'Automatic', 'DecisionVariables': {'Cost': True}}
        dl['Options'] = {'Seed': 3 + i, 'PrintLog': False, 'Sampling': {'SamplingMethod': ('LHS', 'MonteCarlo', 'LHS_midpoint')[i]}}
        own = [list(METHODS[names[i]])[0]] if sc['split'] and len(chosen) > 1 else list(METHODS[names[i]])
        own = [c for c in own if c not in [r[0] for r in comp]]
        rows = [(c, 'ea', '0', '1', 0.5 + i / 4) for c in own]
        comp += rows
        told[names[i]] = (dl, ({k: [r[j] for r in rows] for j, k in enumerate(('Units', 'Location', 'Direction', 'Theta_0'), 1)}, own))
    cfg = json.loads(json.dumps({'GeneralInformation': base('wf')['GeneralInformation'], 'DL': told[chosen[0]][0]}))
    D = cfg['DL']
    D['Asset'].update(ComponentDatabase=','.join(chosen), ComponentAssignmentFile='ALL.csv')
    D['Losses']['Repair']['ConsequenceDatabase'] = ','.join(chosen)
    if len(chosen) > 1:
        D['Losses']['Repair']['CombinationMethod'] = 'Hazus Hurricane'
    D['Demands'] = {'DemandFilePath': 'response.csv', 'SampleSize': '20', 'CoupledDemands': sc['coupled']}
    files = dict(FILES)
    files['methods.json'] = json.dumps(told)
    files['ALL.csv'] = ',Units,Location,Direction,Theta_0\n' + ''.join(','.join(map(str, r)) + '\n' for r in comp)
    given = d.auto_config()
    given['GeneralInformation'] = cfg['GeneralInformation']
    given['Applications']['DL']['ApplicationData'] = {'DL_Method': (',', ', ', ' , ')[len(chosen) % 3].join(chosen)}
    return given, files, cfg


def base(name):
    if name == 'wf':
        c = d.p58_config()
        D = c['DL']
        D['Demands'].pop('InferResidualDrift')
        D['Asset'] = {'ComponentAssignmentFile': 'WF.csv', 'ComponentDatabase': 'None', 'ComponentDatabasePath': 'own/frag.csv', 'NumberOfStories': '1'}
        D['Damage'] = {'DamageProcess': 'None'}
        D['Losses']['Repair'] = {'ConsequenceDatabase': 'None', 'ConsequenceDatabasePath': 'own/ratio.csv', 'MapApproach': 'Automatic',
                                 'CombinationMethod': 'Hazus Hurricane', 'DecisionVariables': {'Cost': True}}
        return c
    if name == 'net':
        return {'GeneralInformation': {'AssetName': 'net', 'AssetType': 'WaterDistributionNetwork', 'units': {'length': 'm'}}, 'DL': {
            'Demands': {'DemandFilePath': 'response.csv', 'SampleSize': '20', 'CoupledDemands': True},
            'Asset': {'ComponentAssignmentFile': 'NET.csv', 'ComponentDatabase': 'Hazus Earthquake - Potable Water, Hazus Earthquake - Transportation'},
            'Damage': {'DamageProcess': 'User Defined', 'DamageProcessFilePath': 'net1.json'}, 'Options': {'Seed': 3, 'PrintLog': False, 'DemandOffset': {'PGA': 0}}}}
    if name == 'hz':
        c = d.hz_config()
        c['DL']['Asset']['ComponentAssignmentFile'] = 'HZ.csv'
        c['DL']['Options']['DemandOffset'] = {'PGA': 0}
        return c
    return d.p58_config()


def scenarios(tier):
    for n in (1, 2, 3):
        for ms in itertools.permutations(range(3), n):
            for coupled in (False, True):
                for split in (False, True)[:1 if n == 1 else 2]:
                    yield {'methods': list(ms), 'coupled': coupled, 'split': split}
    for b, vs in VARY.items():
        for i in range(-1, len(vs)):
            for how in ('file', 'reversed', 'auto'):
                yield {'base': b, 'set': [i] if i >= 0 else [], 'how': how}
    vs = VARY['p58']
    for i, j in itertools.combinations(range(len(vs)), 2):
        pi, pj = ([p for p, _ in vs[k]] for k in (i, j))
        if any(x == y or x.startswith(y + '/') or y.startswith(x + '/') for x in pi for y in pj):
            continue
        # an existing sample has its own size and components
        if any('DL/Asset/ComponentSampleFile' in x and any('Sampl' in p or A in p for p in y) for x, y in ((pi, pj), (pj, pi))):
            continue
        if tier != 'quick' or (3 * i + j) % 5 == 0:
            yield {'base': 'p58', 'set': [i, j], 'how': 'file' if (i + j) % 2 else 'reversed'}


def reverse(x):
    return {k: reverse(v) for k, v in reversed(x.items())} if isinstance(x, dict) else x


def samples(a, losses):
    s, u = a.demand.save_sample(save_units=True)
    raw = {'demand': (c28._frame(s), c28._units(u)), 'n': len(s), 'damage': None, 'loss': None, 'agg': None}
    s, u = a.asset.save_cmp_sample(save_units=True)
    raw['asset'] = c28._frame(s), c28._units(u)
    s, u = a.damage.save_sample(save_units=True)
    raw['damage'] = c28._frame(s), c28._units(u)
    if losses:
        s, u = a.loss.save_sample(save_units=True)
        raw['loss'] = c28._frame(s), c28._units(u)
        g = a.loss.aggregate_losses(future=True)
        raw['agg'] = c28._frame(g[0] if isinstance(g, tuple) else g)
    return raw


def at(c, path):
    for k in path.split('/'):
        if not isinstance(c, dict) or k not in c:
            return None
        c = c[k]
    return c


def interface(arg):
    """The steps called one by one."""
    from pelicun.assessment import DLCalculationAssessment

    cfg, auto, files = arg
    w = pel.scratch('c33i')
    cwd = os.getcwd()
    try:
        d.prepare_dir(w, {'files': files, 'config': {}})
        os.chdir(w)
        with pel.quiet():
            D = cfg['DL']
            a = DLCalculationAssessment({'ListAllDamageStates': True, **D['Options']})
            size = (D['Options'].get('Sampling') or {}).get('SampleSize') or D['Demands']['SampleSize']
            dem, ass, dam = D['Demands'], D['Asset'], D.get('Damage') or {}
            a.calculate_demand(w / 'response.csv', dem.get('CollapseLimits'), cfg['GeneralInformation']['units']['length'],
                               {'ALL': {'DistributionFamily': 'lognormal'}} if auto else dem.get('Calibration'), int(size),
                               dem.get('DemandCloning'), dem.get('InferResidualDrift'), coupled_demands=bool(dem.get('CoupledDemands')))
            a.calculate_asset(None if ass.get('NumberOfStories') is None else int(ass['NumberOfStories']), ass.get('ComponentAssignmentFile'), at(dam, 'CollapseFragility/DemandType'), ass.get('ComponentSampleFile'),
                              add_irreparable_damage_columns=bool(dam.get('IrreparableDamage')))
            a.calculate_damage(cfg['GeneralInformation']['units']['length'], ass['ComponentDatabase'], ass.get('ComponentDatabasePath'), dam.get('CollapseFragility'),
                               dam.get('IrreparableDamage'), dam.get('DamageProcess'), dam.get('DamageProcessFilePath'), 'model', dam.get('ScalingSpecification'), is_for_water_network_assessment='Water' in (ass['ComponentDatabase'] or ''))
            rep = at(D, 'Losses/Repair')
            if rep:
                dv = rep.get('DecisionVariables')
                dv = ('Cost', 'Time') if dv is None else tuple(k for k, v in dv.items() if v)
                a.calculate_loss(rep['MapApproach'], ass.get('OccupancyType'), rep['ConsequenceDatabase'], rep.get('ConsequenceDatabasePath'), 'model',
                                 dam.get('DamageProcess') or 'User Defined', *(rep.get(f'Replacement{x}') for x in ('Cost', 'Time', 'Carbon', 'Energy')),
                                 rep.get('MapFilePath'), dv, None, rep.get('CombinationMethod'))
            return samples(a, bool(rep))
    finally:
        os.chdir(cwd)
        shutil.rmtree(w, ignore_errors=True)


def equal(obs, got, want, part, msg):
    if got is None or want is None:
        obs.check(got is None and want is None, f'{part}:presence', msg)
        return
    if part != 'agg':
        obs.eq(got[1], want[1], f'{part}:units', msg)
        got, want = got[0], want[0]
    obs.eq(sorted(map(str, got)), sorted(map(str, want)), f'{part}:columns', msg)
    w = {str(k): v for k, v in want.items()}
    for k, v in got.items():
        if str(k) in w:
            x, y = np.array(v, dtype=float), np.array(w[str(k)], dtype=float)
            obs.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True), f'{part}:values', lambda k=k, x=x, y=y: f'{msg} {k}: {x[:5]} want {y[:5]}')


def run(sc, obs):
    if 'methods' in sc:
        given, files, cfg = methods_case(sc)
        compare(sc, obs, str(sc), given, files, cfg, {'coupled_edp': sc['coupled']}, 20, not sc['coupled'])
        return
    cfg = base(sc['base'])
    for i in sc['set']:
        for p, v in VARY[sc['base']][i]:
            d.put(cfg, p, v)
    msg = f"{sc['base']} {sc['how']} {[VARY[sc['base']][i] for i in sc['set']]}"
    files = dict(FILES)
    kw = {'custom_model_dir': 'model'}
    given = json.loads(json.dumps(cfg))
    n = int(at(cfg, 'DL/Options/Sampling/SampleSize') or cfg['DL']['Demands']['SampleSize'])
    auto = sc['how'] == 'auto'
    if auto:
        if any(p.startswith(('DL/Demands', 'DL/Asset/ComponentSample')) for i in sc['set'] for p, _ in VARY[sc['base']][i]):
            return
        table = {'p58': 'CMP.csv', 'hz': 'HZ.csv', 'wf': 'WF.csv', 'net': 'NET.csv'}[sc['base']]
        import csv

        rows = list(csv.reader(files[table].splitlines()))[1:]
        rows = [[r[0], *(float(x) if j in (4, 5) and x else x for j, x in enumerate(r[1:], 1))] for r in rows]
        dl = json.loads(json.dumps(cfg['DL']))
        for k in ('Demands', 'Outputs'):
            dl.pop(k, None)
        dl['Asset'].pop('ComponentAssignmentFile')
        if 'InferResidualDrift' in cfg['DL']['Demands']:
            dl['Demands'] = {'InferResidualDrift': cfg['DL']['Demands']['InferResidualDrift']}
        cols = ('Units', 'Location', 'Direction', 'Theta_0', 'Theta_1', 'Family')
        files['model/pelicun_config.py'] = d.AUTO % (dl, {c: [r[1 + i] if r[1 + i] != '' else None for r in rows] for i, c in enumerate(cols)}, [r[0] for r in rows])
        given = d.auto_config()
        given['GeneralInformation'] = cfg['GeneralInformation']
        given['Applications']['DL']['ApplicationData'].pop('custom_model_dir')
        kw['realizations'] = n
    elif sc['how'] == 'reversed':
        given = reverse(given)
        # (random numbers are drawn in the order of these entries)
        for p in ('DL/Demands/InferResidualDrift', Q + 'DecisionVariables'):
            if at(cfg, p):
                d.put(given, p, at(cfg, p))
    compare(sc, obs, msg, given, files, cfg, kw, n, auto)


def compare(sc, obs, msg, given, files, cfg, kw, n, auto):
    losses = bool(at(cfg, 'DL/Losses/Repair'))
    res, raw = d.in_child(c28._run, {'config': given, 'files': files, 'losses': losses, 'kw': kw})
    obs.step(5)
    if not obs.check(res['end'] == 'ok', 'end:' + res['end'][:60], f"{msg}: {res['end']}"):
        return
    want = d.in_child(interface, (cfg, auto, files))
    obs.step(4)
    obs.eq(raw['n'], n, 'size', msg)
    for part in ('demand', 'asset', 'damage', 'loss', 'agg'):
        equal(obs, raw[part], want[part], part, msg)
    obs.state(msg if len(sc.get('set', ())) < 2 else '', raw['n'], [sorted(map(str, raw[p][0])) for p in ('demand', 'asset', 'damage')], str(raw['agg'])[:400])
