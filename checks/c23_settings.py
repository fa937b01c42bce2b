"""C23: user settings override defaults and nothing else changes."""

from __future__ import annotations

import copy
import itertools
import json
import shutil

from mc import dlrun as d
from mc import pel

PROPERTY = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of settings, of combinations and conflicts of settings, and of histories of assessments; '
             'the options of the real assessment are compared with a reference merge after every step')
RULE = ('every setting value alone, every pair of them, in both key orders; every conflicting value of every setting, nested '
        'ones included, alone and next to every other setting; every sequence of three assessments (valid, failing, with '
        'their settings modified afterwards); every setting in complete runs from configuration files; every violation of '
        'the input schema and of the consistency rules; a state is the merged options')
BOUND = {'quick': 'pairs of 38 setting values, 11 plain values of every setting, 3 assessments', 'thorough': 'triples of setting values, 4 assessments'}
ASSUMPTIONS = ['settings that pelicun does not know are ignored (documented nowhere, not checked)']
CHUNK = 10

DEFAULTS = {
    'Verbose': False, 'Seed': None, 'LogShowMS': False, 'LogFile': None, 'UnitsFile': None, 'PrintLog': False,
    'ShowWarnings': False, 'DemandOffset': {'PFA': -1, 'PFV': -1}, 'ListAllDamageStates': False,
    'NonDirectionalMultipliers': {'ALL': 1.2},
    'EconomiesOfScale': {'AcrossFloors': True, 'AcrossDamageStates': False},
    'Sampling': {'SamplingMethod': 'LHS', 'SampleSize': 1000, 'PreserveRawOrder': False},
    'RepairCostAndTimeCorrelation': 0.0,
    'ErrorSetup': {'Loss': {'ReplacementThreshold': {'RaiseOnUnknownKeys': True}}},
}
VALUES = [
    ('Verbose', True), ('Verbose', False), ('Seed', 0), ('Seed', 7), ('Seed', None), ('LogShowMS', True),
    ('LogFile', 'log.txt'), ('UnitsFile', 'units.json'), ('PrintLog', False), ('PrintLog', True), ('ShowWarnings', True),
    ('DemandOffset', {}), ('DemandOffset', {'PFA': 0}), ('DemandOffset', {'PFV': 2, 'XX': 3}),
    ('DemandOffset', {'XX': 0}), ('DemandOffset', {'PFV': -1, 'PFA': -1}),
    ('ListAllDamageStates', True), ('ListAllDamageStates', False),
    ('NonDirectionalMultipliers', {}), ('NonDirectionalMultipliers', {'ALL': 1.0}), ('NonDirectionalMultipliers', {'PFA': 2.0}),
    ('NonDirectionalMultipliers', {'ALL': 0.0, 'PFA': 1.1}),
    ('EconomiesOfScale', {}), ('EconomiesOfScale', {'AcrossFloors': False}), ('EconomiesOfScale', {'AcrossDamageStates': True}),
    ('EconomiesOfScale', {'AcrossDamageStates': True, 'AcrossFloors': False}),
    ('Sampling', {}), ('Sampling', {'SamplingMethod': 'MonteCarlo'}), ('Sampling', {'SampleSize': 5, 'SamplingMethod': 'LHS_midpoint'}),
    ('Sampling', {'PreserveRawOrder': True}),
    ('RepairCostAndTimeCorrelation', 0.0), ('RepairCostAndTimeCorrelation', 0.7), ('RepairCostAndTimeCorrelation', 1),
    ('ErrorSetup', {}), ('ErrorSetup', {'Loss': {}}), ('ErrorSetup', {'Loss': {'ReplacementThreshold': {}}}),
    ('ErrorSetup', {'Loss': {'ReplacementThreshold': {'RaiseOnUnknownKeys': False}}}),
    ('ErrorSetup', {'Loss': {'Other': 1}, 'Demand': {'Other': [1]}}),
]
SCALARS = (5, 'x', None, [1, 2], True)


def conflicts():
    """(path, value) for every value that contradicts the structure of the settings."""
    out = []

    def walk(dflt, path):
        for k, v in dflt.items():
            if isinstance(v, dict):
                out.extend([(path + [k], x) for x in SCALARS])
                walk(v, path + [k])
            else:
                out.extend([(path + [k], {'a': 1}), (path + [k], {})])

    walk(DEFAULTS, [])
    return out


def leaves():
    out = []

    def walk(dflt, path):
        for k, v in dflt.items():
            if isinstance(v, dict):
                walk(v, path + [k])
            else:
                out.append(path + [k])

    walk(DEFAULTS, [])
    return out


PLAIN = (None, False, True, 0, 1, 0.0, -1, '', 'x', [], [1])


def nest(path, val):
    for k in reversed(path):
        val = {k: val}
    return val


def merge(user, dflt):
    """Reference: user settings completed with the defaults."""
    out = copy.deepcopy(user)
    for k, v in dflt.items():
        if k not in out:
            out[k] = copy.deepcopy(v)
        elif isinstance(v, dict):
            out[k] = merge(out[k], v)
    return out


HCFG = [
    {}, None, {'NonDirectionalMultipliers': {'PFA': 2.0}, 'DemandOffset': {'PFA': 0}, 'Seed': 3},
    {'ErrorSetup': {'Loss': {'ReplacementThreshold': {'RaiseOnUnknownKeys': False}}}, 'EconomiesOfScale': {'AcrossFloors': False}},
    {'DemandOffset': {'PFV': 4}, 'Sampling': 'LHS'},
    {'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'NonDirectionalMultipliers': {'ALL': 1.0}, 'ListAllDamageStates': True},
]
ACTS = ('none', 'edit-options', 'edit-user')

# settings of complete runs
RUN_VALUES = [v for v in VALUES if v[0] not in ('UnitsFile', 'PrintLog') and v not in (
    ('Seed', None), ('DemandOffset', {'PFA': 0}), ('DemandOffset', {'PFV': 2, 'XX': 3}))] + [
    ('DemandOffset', {'PFV': 0, 'XX': 3}), ('Other', 1)]

SCHEMA = [
    ('GeneralInformation', 5), ('GeneralInformation', None), ('GeneralInformation/units', 'm'), ('GeneralInformation/units', None),
    ('GeneralInformation/units/length', 5), ('GeneralInformation/units/length', None), ('GeneralInformation/AssetName', 5),
    ('GeneralInformation/AssetType', 5), ('assetType', 5),
    ('DL', []), ('DL/Demands', 'x'), ('DL/Demands/DemandFilePath', 5), ('DL/Demands/CoupledDemands', 'x'),
    ('DL/Demands/Calibration', 'x'), ('DL/Demands/CollapseLimits', 'x'), ('DL/Demands/InferResidualDrift', 'x'),
    ('DL/Demands/InferResidualDrift/method', 5), ('DL/Demands/InferResidualDrift/method', None),
    ('DL/Asset', 'x'), ('DL/Asset/ComponentAssignmentFile', 5), ('DL/Asset/ComponentAssignmentFile', None),
    ('DL/Asset/ComponentSampleFile', 5), ('DL/Asset/ComponentDatabase', 5), ('DL/Asset/ComponentDatabasePath', 5),
    ('DL/Damage', 'x'), ('DL/Damage/DamageProcess', 5), ('DL/Damage/DamageProcess', None), ('DL/Damage/CollapseFragility', 'x'),
    ('DL/Damage/CollapseFragility/DemandType', None), ('DL/Damage/CollapseFragility/DemandType', 5),
    ('DL/Damage/CollapseFragility/CapacityDistribution', 5), ('DL/Damage/CollapseFragility/CapacityMedian', None),
    ('DL/Damage/IrreparableDamage', 'x'), ('DL/Damage/IrreparableDamage/DriftCapacityMedian', None),
    ('DL/Damage/IrreparableDamage/DriftCapacityLogStd', None),
    ('DL/Losses', 'x'), ('DL/Losses/Repair', 'x'), ('DL/Losses/Repair/ConsequenceDatabase', 5), ('DL/Losses/Repair/MapApproach', 5),
    ('DL/Losses/Repair/MapFilePath', 5), ('DL/Losses/Repair/DecisionVariables', 'x'),
    ('DL/Losses/Repair/DecisionVariables/Cost', 'x'), ('DL/Losses/Repair/DecisionVariables/Time', 'x'),
    ('DL/Losses/Repair/DecisionVariables/Carbon', 'x'), ('DL/Losses/Repair/DecisionVariables/Energy', 'x'),
    ('DL/Losses/Repair/ConsequenceDatabasePath', 5),
    *[(f'DL/Losses/Repair/Replacement{r}', x) for r in ('Cost', 'Time', 'Carbon', 'Energy')
      for x in ('x', {'Unit': 'a'}, {'Median': 1}, {'Unit': 5, 'Median': 1}, {'Unit': 'a', 'Median': 1, 'Distribution': 5})],
    ('DL/Outputs', 'x'), ('DL/Outputs/Demand', 'x'), ('DL/Outputs/Demand/Sample', 'x'), ('DL/Outputs/Demand/Statistics', 'x'),
    ('DL/Outputs/Asset', 'x'), ('DL/Outputs/Asset/Sample', 'x'), ('DL/Outputs/Damage', 'x'), ('DL/Outputs/Damage/Sample', 'x'),
    ('DL/Outputs/Damage/GroupedSample', 'x'), ('DL/Outputs/Loss', 'x'), ('DL/Outputs/Loss/Repair', 'x'),
    ('DL/Outputs/Loss/Repair/AggregateSample', 'x'), ('DL/Outputs/Format', 'x'), ('DL/Outputs/Format/CSV', 'x'),
    ('DL/Outputs/Format/JSON', 'x'), ('DL/Outputs/Settings', 'x'), ('DL/Outputs/Settings/CondenseDS', 'x'),
    ('DL/Outputs/Settings/SimpleIndexInJSON', 'x'), ('DL/Outputs/Settings/AggregateColocatedComponentResults', 'x'),
    ('DL/Options', 'x'), ('DL/Options/Seed', 'x'), ('DL/Options/LogShowMS', 'x'), ('DL/Options/LogFile', 5),
    ('DL/Options/UnitsFile', 5), ('DL/Options/PrintLog', 'x'), ('DL/Options/ShowWarnings', 'x'), ('DL/Options/DemandOffset', 'x'),
    ('DL/Options/ListAllDamageStates', 'x'), ('DL/Options/NonDirectionalMultipliers', 'x'), ('DL/Options/EconomiesOfScale', 'x'),
    ('DL/Options/EconomiesOfScale/AcrossDamageStates', 'x'), ('DL/Options/Sampling', 'x'),
    ('DL/Options/Sampling/SamplingMethod', 5), ('DL/Options/Sampling/SampleSize', 'x'), ('DL/Options/Sampling/PreserveRawOrder', 'x'),
]
# consistency of a configuration: list of changes
RULES = {
    'no sample size': [('DL/Demands/SampleSize', None)],
    'no asset': [('DL/Asset', None)],
    'no demands': [('DL/Demands', None)],
    'residual drift without method': [('DL/Demands/InferResidualDrift', {'1': 0.01})],
    'collapse capacity without dispersion': [('DL/Damage/CollapseFragility/Theta_1', None)],
    'collapse capacity without median': [('DL/Damage/CollapseFragility/CapacityMedian', None)],
    'irreparable without median': [('DL/Damage/IrreparableDamage', {'DriftCapacityLogStd': 0.3})],
    'irreparable without dispersion': [('DL/Damage/IrreparableDamage', {'DriftCapacityMedian': 0.01})],
    'user damage process without file': [('DL/Damage/DamageProcess', 'User Defined')],
    'damage outputs without damage': [('DL/Damage', None), ('DL/Outputs', {'Damage': {'Sample': True}})],
    'loss outputs without losses': [('DL/Losses', None), ('DL/Outputs', {'Loss': {'Repair': {'Sample': True}}})],
    'assignment and sample': [('DL/Asset/ComponentSampleFile', 'sample.csv')],
    'no data at all': [('DL', None)],
}


def scenarios(tier):
    out = [{'k': 'merge', 'set': []}]
    ids = range(len(VALUES))
    for i in ids:
        out.append({'k': 'merge', 'set': [i]})
    combos = [itertools.combinations(ids, 2)] + ([itertools.combinations(ids, 3)] if tier != 'quick' else [])
    for combo in combos:
        for c in combo:
            if len({VALUES[i][0] for i in c}) == len(c):
                out.append({'k': 'merge', 'set': list(c)})
                out.append({'k': 'merge', 'set': list(c)[::-1]})
    # all settings at once
    first = {}
    last = {}
    for i in ids:
        first.setdefault(VALUES[i][0], i)
        last[VALUES[i][0]] = i
    for s in (first, last):
        out.append({'k': 'merge', 'set': list(s.values())})
        out.append({'k': 'merge', 'set': list(s.values())[::-1]})
    for i in range(len(leaves())):
        out.append({'k': 'plain', 'leaf': i})
    cf = conflicts()
    for i in range(len(cf)):
        out.append({'k': 'conflict', 'c': i, 'with': None})
        for j in ids:
            if VALUES[j][0] != cf[i][0][0]:
                out.append({'k': 'conflict', 'c': i, 'with': j})
    n = 3 if tier == 'quick' else 4
    steps = list(itertools.product(range(len(HCFG)), ACTS))
    if n == 3:
        for h in itertools.product(steps, repeat=2):
            for last in range(len(HCFG)):
                out.append({'k': 'history', 'h': [list(x) for x in h] + [[last, 'none']]})
    else:
        for h in itertools.product(steps, repeat=3):
            out.append({'k': 'history', 'h': [list(x) for x in h] + [[0, 'none']]})
    for i in range(-1, len(RUN_VALUES)):
        out.append({'k': 'run', 'v': i, 'rev': False})
    for i in range(-1, len(RUN_VALUES), 4):
        out.append({'k': 'run', 'v': i, 'rev': True})
    for v in ({}, {'Seed': 9}, {'Seed': 9, 'NonDirectionalMultipliers': {'PFA': 1.5}},
              {'DemandOffset': {'XX': 3}, 'Sampling': {'SampleSize': 13}}):
        for own in ('none', 'empty', 'other'):
            out.append({'k': 'auto', 'options': v, 'own': own})
    for p, x in SCHEMA:
        out.append({'k': 'schema', 'path': p, 'value': x})
    for r in RULES:
        out.append({'k': 'rule', 'rule': r})
    return out


_DIR = None


def _val(v):
    """File settings refer to real files."""
    global _DIR
    if _DIR is None:
        _DIR = pel.scratch('c23')
        (_DIR / 'units.json').write_text(json.dumps({'length': {'m': 2.0}}))
    if v == 'log.txt':
        return str(_DIR / 'log.txt')
    if v == 'units.json':
        return str(_DIR / 'units.json')
    return copy.deepcopy(v)


def check_options(obs, a, want, sig):
    """Options of a real assessment against the reference merge."""
    o = a.options
    obs.eq(o.seed, want['Seed'], f'{sig}:Seed')
    obs.eq(o.sampling_method, want['Sampling']['SamplingMethod'], f'{sig}:Sampling')
    obs.eq(o.list_all_ds, want['ListAllDamageStates'], f'{sig}:ListAllDamageStates')
    obs.eq(o.units_file, want['UnitsFile'], f'{sig}:UnitsFile')
    obs.eq(o.demand_offset, want['DemandOffset'], f'{sig}:DemandOffset')
    obs.eq(o.nondir_multi_dict, want['NonDirectionalMultipliers'], f'{sig}:NonDirectionalMultipliers')
    obs.eq(o.rho_cost_time, want['RepairCostAndTimeCorrelation'], f'{sig}:RepairCostAndTimeCorrelation')
    obs.eq(o.eco_scale, want['EconomiesOfScale'], f'{sig}:EconomiesOfScale')
    obs.eq(o.error_setup, want['ErrorSetup'], f'{sig}:ErrorSetup')
    obs.eq(o.log.verbose, want['Verbose'], f'{sig}:Verbose')
    obs.eq(o.log.log_show_ms, want['LogShowMS'], f'{sig}:LogShowMS')
    obs.eq(o.log.print_log, want['PrintLog'], f'{sig}:PrintLog')
    lf = o.log.log_file
    obs.check((lf is None) == (want['LogFile'] is None), f'{sig}:LogFile', f"{lf} for {want['LogFile']}")
    obs.state(want)
    if want['UnitsFile']:
        obs.eq(a.unit_conversion_factors.get('m'), 2.0, f'{sig}:units')


def make(cfg):
    """Build an assessment; (assessment or None, error)."""
    from pelicun.assessment import Assessment

    with pel.quiet():
        try:
            return Assessment(cfg), None
        except Exception as e:  # noqa: BLE001
            return None, e


def _pristine(obs, sig):
    """An assessment without settings still has the defaults."""
    from pelicun import base

    obs.eq(base.load_default_options(), DEFAULTS, f'{sig}:defaults')
    a, e = make({})
    obs.step()
    if obs.check(a is not None, f'{sig}:defaults', repr(e)):
        check_options(obs, a, DEFAULTS, f'{sig}:later')


def _reverse(x):
    if isinstance(x, dict):
        return {k: _reverse(v) for k, v in reversed(list(x.items()))}
    return [_reverse(v) for v in x] if isinstance(x, list) else x


def _capture(spec):
    from pelicun import assessment as am

    made = []
    init = am.AssessmentBase.__init__

    def record(self, *a, **k):
        init(self, *a, **k)
        made.append(self)

    am.AssessmentBase.__init__ = record
    w = pel.scratch('c23r')
    try:
        res = d.execute(w / 'r', spec)
        o = None
        if made:
            op = made[-1].options
            o = {'Seed': op.seed, 'Sampling': op.sampling_method, 'ListAllDamageStates': op.list_all_ds,
                 'DemandOffset': op.demand_offset, 'NonDirectionalMultipliers': op.nondir_multi_dict,
                 'RepairCostAndTimeCorrelation': op.rho_cost_time, 'EconomiesOfScale': op.eco_scale,
                 'ErrorSetup': op.error_setup, 'Verbose': op.log.verbose, 'LogShowMS': op.log.log_show_ms,
                 'n': None if res['end'] != 'ok' else len(made[-1].demand.sample)}
        res['logs'] = sorted(p.name for p in (w / 'r').glob('*.txt') if 'warn' not in p.name)
        res['options'] = o
        return res
    finally:
        am.AssessmentBase.__init__ = init
        shutil.rmtree(w, ignore_errors=True)


def _check_run(obs, res, user, n, sig):
    if not obs.check(res['end'] == 'ok', f'{sig}:end', res['end']):
        return
    o = res['options']
    want = merge(merge(user, {'Verbose': True, 'LogFile': 'pelicun_log.txt', 'ListAllDamageStates': True}), DEFAULTS)
    for k, v in o.items():
        if k == 'n':
            obs.eq(v, n, f'{sig}:SampleSize')
        else:
            obs.eq(v, want[k]['SamplingMethod'] if k == 'Sampling' else want[k], f'{sig}:{k}')
    obs.state(want)
    obs.check(want['LogFile'] in res['logs'], f'{sig}:LogFile', str(res['logs']))


def run(sc, obs):
    k = sc['k']
    if k == 'merge':
        user = {VALUES[i][0]: _val(VALUES[i][1]) for i in sc['set']}
        keep = copy.deepcopy(user)
        from pelicun import base

        # (the function itself completes the dictionary it is given)
        obs.eq(base.merge_default_config(copy.deepcopy(user)), merge(keep, DEFAULTS), 'merge')
        a, e = make(user)
        obs.step(2)
        if not obs.check(a is not None, 'rejected', repr(e)):
            return
        check_options(obs, a, merge(keep, DEFAULTS), 'merged')
        obs.check(user == keep, 'user-settings-modified', f'{user} was {keep}')
        _pristine(obs, 'merge')
    elif k == 'plain':
        from pelicun import base

        path = leaves()[sc['leaf']]
        for val in PLAIN:
            user = nest(path, val)
            obs.step()
            got = base.merge_default_config(copy.deepcopy(user))
            want = merge(user, DEFAULTS)
            obs.eq(repr(sorted(got.items(), key=str)) if got != want else '', '', f'plain:{path[0]}', f'{user}: {got}')
            x = got
            for p in path:
                x = x[p]
            obs.check(type(x) is type(val), f'plain:type:{path[0]}', f'{user}: {x!r}')
            obs.state(path, repr(val))
        # next to other settings
        for other in ({'Seed': 3}, {'Sampling': {'SampleSize': 7}}, {'ErrorSetup': {'Loss': {'Other': 1}}}):
            for val in PLAIN:
                user = merge(nest(path, val), other)
                obs.step()
                obs.eq(base.merge_default_config(copy.deepcopy(user)), merge(user, DEFAULTS), f'plain:with:{path[0]}', str(user))
    elif k == 'conflict':
        path, val = conflicts()[sc['c']]
        for rev in (False, True):
            user = nest(path, _val(val))
            if sc['with'] is not None:
                kk, vv = VALUES[sc['with']]
                user[kk] = _val(vv)
            if rev:
                user = _reverse(user)
            keep = copy.deepcopy(user)
            a, e = make(user)
            obs.step()
            obs.check(isinstance(e, ValueError), 'conflict-accepted', f'{user}: {e!r}')
            obs.check(user == keep, 'user-settings-modified', f'{user} was {keep}')
        if sc['with'] is None:
            _pristine(obs, 'conflict')
        obs.state(path, val)
    elif k == 'history':
        alive = []
        for ci, act in sc['h']:
            user = copy.deepcopy(HCFG[ci])
            keep = copy.deepcopy(user)
            a, e = make(user)
            obs.step()
            obs.check(user == keep, 'user-settings-modified', f'{user} was {keep}')
            if isinstance((keep or {}).get('Sampling'), str):
                obs.check(isinstance(e, ValueError), 'conflict-accepted', repr(e))
                continue
            if not obs.check(a is not None, 'rejected', repr(e)):
                continue
            want = merge(keep or {}, DEFAULTS)
            check_options(obs, a, want, 'history')
            if act == 'edit-options':
                o = a.options
                for dct in (o.demand_offset, o.nondir_multi_dict, o.eco_scale, o.error_setup['Loss']['ReplacementThreshold']):
                    dct['PFA'] = 99
                    dct.update({x: 'edited' for x in list(dct)})
            else:
                alive.append((a, want))
            if act == 'edit-user' and user:
                for v in user.values():
                    if isinstance(v, dict):
                        v['PFA'] = 77
                        v.pop('ALL', None)
        for a, want in alive:
            check_options(obs, a, want, 'history-end')
    elif k == 'run':
        user = {} if sc['v'] < 0 else {RUN_VALUES[sc['v']][0]: copy.deepcopy(RUN_VALUES[sc['v']][1])}
        c = d.p58_config()
        c['DL']['Demands']['SampleSize'] = '12'
        c['DL']['Losses'] = None
        c['DL'].pop('Losses')
        c['DL']['Outputs'] = {'Damage': {'GroupedStatistics': True}}
        c['DL']['Options'] = copy.deepcopy(user)
        n = user.get('Sampling', {}).get('SampleSize', 12)
        if n != 12:
            c['DL']['Demands']['Calibration'] = {'ALL': {'DistributionFamily': 'empirical'}}
        if sc['rev']:
            c = _reverse(c)
        res = d.in_child(_capture, {'config': c, 'files': {'response.csv': d.demands(n=9), 'CMP.csv': d.CMP}})
        obs.step()
        _check_run(obs, res, user, n, 'run')
        if sc['rev']:
            for cc in (c, _reverse(c)):
                cc['DL']['Options'].setdefault('Seed', 5)
            if sc['v'] >= 0 and user.get('Seed', 1) is None:
                return
            f = {'response.csv': d.demands(n=9), 'CMP.csv': d.CMP}
            r1 = d.in_child(_capture, {'config': c, 'files': f})
            r2 = d.in_child(_capture, {'config': _reverse(c), 'files': f})
            obs.step(2)
            obs.check(r1['files'] == r2['files'], 'key-order', 'results depend on the order of keys')
    elif k == 'auto':
        base = d.p58_config()
        base['DL']['Damage'] = {'DamageProcess': 'FEMA P-58'}
        base['DL'].pop('Losses')
        own = {'none': None, 'empty': {}, 'other': {'EconomiesOfScale': {'AcrossDamageStates': True}, 'RepairCostAndTimeCorrelation': 0.5}}[sc['own']]
        if own is None:
            base['DL'].pop('Options')
        else:
            base['DL']['Options'] = own
        c = d.auto_config()
        if sc['options']:
            c['Applications']['DL']['ApplicationData']['Options'] = copy.deepcopy(sc['options'])
        f = {'response.csv': d.demands(n=9), 'model/pelicun_config.py': d.auto_script(
            base, [('B.1', 'ea', '1,2', '1', 3, ''), ('C.2', 'ea', '1', '0', 2, '')])}
        n = sc['options'].get('Sampling', {}).get('SampleSize', 11)
        res = d.in_child(_capture, {'config': c, 'files': f, 'kw': {'realizations': 11}})
        obs.step()
        _check_run(obs, res, {**(own or {}), **sc['options']}, n, f"auto:{sc['own']}")
    else:
        c = d.p58_config()
        changes = [(sc['path'], sc['value'])] if k == 'schema' else RULES[sc['rule']]
        for p, v in changes:
            _set(c, p, v)
        files = {'response.csv': d.demands(n=9), 'CMP.csv': d.CMP, 'sample.csv': 'x', 'out/DL_summary.csv': 'earlier'}
        res = d.in_child(_capture, {'config': c, 'files': files})
        obs.step()
        what = sc.get('path') or sc['rule']
        obs.state(what, sc.get('value'))
        obs.check(res['end'].startswith('PelicunInvalidConfigError'), f'invalid-accepted:{what}', f"{sc}: {res['end']}")
        obs.check(res['options'] is None, f'invalid-started:{what}', 'an assessment was started')


def _set(c, path, v):
    keys = path.split('/')
    for q in keys[:-1]:
        if not isinstance(c.get(q), dict):
            c[q] = {}
        c = c[q]
    if v is None:
        c.pop(keys[-1], None)
    else:
        c[keys[-1]] = copy.deepcopy(v)
