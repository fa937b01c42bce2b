"""C27: consecutive loss assessment runs do not influence one another."""

from __future__ import annotations

import copy
import itertools
import json
import shutil

from mc import dlrun as d
from mc import pel

PROPERTY = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of run histories: every ordered sequence of runs (up to the depth) is executed '
             'on the real DL_calculation in one process and every run compared with the same run alone in a fresh process')
RULE = ('every ordered pair of the run kinds (explicit, default, format-overridden and auto-populated outputs, regional and '
        'detailed, with and without losses, built-in damage processes for several building types, options, failing runs of '
        'every stage), every triple of those that share mutable module state, in folders of their own or in the same place; a state is the module-level state of '
        'pelicun after a run')
BOUND = {'quick': 'all pairs of 24 run kinds, all triples of 5', 'thorough': 'all pairs of 24 run kinds, all triples of 12'}
ASSUMPTIONS = ['built-in models replaced with a small library', 'one process, one thread']
CHUNK = 1
HORIZON = 200

N = 8
P58M = d.cmp_csv([
    ('B.1', 'ea', '1', '1,2', 3, 0.2, 'normal'),
    ('C.2', 'ea', '1,roof', 0, 2, '', ''),
    ('D.3', 'ea', 1, '1', 4, '', ''),
])
NOROOF = P58M.replace('1,roof', '1')
HZ1 = [('STR.W1.L', 'ea', 1, '1', 1, ''), ('NSA.L', 'ea', 1, '0', 1, '')]
HZ2 = [('STR.C1.L', 'ea', 1, '2', 1, ''), ('NSA.L', 'ea', 1, '0', 2, '')]
PCM = [('B.1', 'ea', '1', '1,2', 3, ''), ('C.2', 'ea', '1', '0', 2, '')]


def _csv(rows):
    return d.cmp_csv([(*r[:5], '', '') for r in rows])


def _lifeline(cid):
    return d.cmp_csv([(cid, 'ea', 1, '1', 1, '', '')])


def kinds() -> dict:
    """All run kinds."""
    dem = d.demands(n=7, stories=1)
    dem2 = d.demands(n=6, stories=1)
    out: dict = {}

    def add(name, config, cmp=None, extra=None, **kw):
        files = {'response.csv': dem2 if len(out) % 2 else dem}
        if cmp:
            files['CMP.csv'] = cmp
        files.update(extra or {})
        out[name] = {'config': config, 'files': files, 'kw': kw}

    def p58(**o):
        c = d.p58_config()
        c['DL']['Demands']['SampleSize'] = str(N)
        c['DL']['Asset']['NumberOfStories'] = '1'
        for k, v in o.items():
            d.put(c, 'DL/' + k.replace('__', '/'), v)
        return c

    full = {
        'Demand': {'Sample': True, 'Statistics': True}, 'Asset': {'Sample': True, 'Statistics': False},
        'Damage': {'Sample': True, 'Statistics': False, 'GroupedSample': True, 'GroupedStatistics': False},
        'Loss': {'Repair': {'Sample': True, 'AggregateStatistics': True}},
    }
    pc = P58M
    # explicit outputs, multi-level JSON; settings left to the defaults
    add('explicit', p58(Outputs={**full, 'Format': {'CSV': False, 'JSON': True}}), pc)
    add('settings', p58(Outputs={**full, 'Format': {'CSV': True, 'JSON': True}, 'Settings': {
        'CondenseDS': True, 'SimpleIndexInJSON': True, 'AggregateColocatedComponentResults': False}}), pc)
    # no output section
    add('default', p58(), pc)
    add('default-csv', p58(), pc, output_format=['csv'])
    add('default-json', p58(), pc, output_format=['json'])
    # options
    add('options', p58(Options={
        'Seed': 5, 'PrintLog': False, 'ListAllDamageStates': False, 'NonDirectionalMultipliers': {'PFA': 1.5, 'PID': 1.1},
        'DemandOffset': {'PFA': 0}, 'EconomiesOfScale': {'AcrossFloors': False, 'AcrossDamageStates': True},
        'RepairCostAndTimeCorrelation': 0.7, 'Sampling': {'SamplingMethod': 'MonteCarlo', 'SampleSize': N + 2}},
        Demands__CoupledDemands=True, Demands__Calibration=None), NOROOF)
    add('units', {**p58(Options={'Seed': 5, 'PrintLog': False, 'UnitsFile': 'units.json'}),
                  'GeneralInformation': {'units': {'length': 'm'}}}, pc,
        {'units.json': json.dumps({'acceleration': {'g': 4.0, 'mps2': 1.0}, 'quantity': {'ea': 1.0, 'unitless': 1.0, '1 EA': 1.0, 'EA': 1.0},
                                   'length': {'m': 1.0}, 'cost': {'USD_2011': 1.0}, 'time': {'worker_day': 1.0, 'day': 1.0},
                                   'mass': {'kg': 1.0}, 'energy': {'MJ': 1.0}})})
    # own models, maps and processes: the same names of files, other content
    for k, (th, v, proc) in {'own1': (0.006, 17.0, {'1_B.1': {'DS1': 'C.2_DS1'}}), 'own2': (0.013, 29.0, {'1_C.2': {'DS1': 'B.1_NA'}})}.items():
        add(k, p58(Asset__ComponentDatabasePath='own/frag.csv', Damage__DamageProcess='User Defined', Damage__DamageProcessFilePath='own/process.json',
                   Losses__Repair__ConsequenceDatabasePath='own/cons.csv', Losses__Repair__MapApproach='User Defined', Losses__Repair__MapFilePath='own/map.csv'), pc, {
            'own/frag.csv': 'ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional,LS1-Family,LS1-Theta_0,LS1-Theta_1\n'
                            f'B.1,0,Peak Interstory Drift Ratio,unitless,0,1,lognormal,{th},0.4\n',
            'own/cons.csv': f'ID,Incomplete,Quantity-Unit,DV-Unit,DS1-Family,DS1-Theta_0,DS1-Theta_1\nB.1-Cost,0,1 EA,USD_2011,normal,{v},0.2\nB.1-Time,0,1 EA,worker_day,,{v / 8},\n',
            'own/map.csv': ',Repair\n' + ('B.1,B.1\nC.2,C.2\n' if k == 'own1' else 'B.1,B.1\nD.3,B.1\n'), 'own/process.json': json.dumps(proc)}, custom_model_dir='own')
    # built-in processes
    add('hz-w1', _n(d.hz_config('RES1')), _csv(HZ1))
    add('hz-c1', _n(d.hz_config('COM1')), _csv(HZ2))
    pga = d.demands(n=7, stories=1, extra=('1-PGA-1-1',))
    for k, cid, occ in (('lf-w1', 'LF.W1', 'RES1'), ('lf-c1', 'LF.C1', 'COM1')):
        add(k, _n(d.hz_config(occ, 'Hazus Earthquake - Lifeline Facilities')), _lifeline(cid), {'response.csv': pga})
    # auto-population
    base = d.p58_config()
    noloss = copy.deepcopy(base)
    noloss['DL'].pop('Losses')
    base['DL']['Options']['Seed'] = noloss['DL']['Options']['Seed'] = 3
    base['DL']['Damage'] = noloss['DL']['Damage'] = {'DamageProcess': 'FEMA P-58'}
    arows = [(*r,) for r in PCM]
    for name, b, det in (('auto-regional', base, False), ('auto-detailed', base, True),
                         ('auto-noloss', noloss, False), ('auto-noloss-detailed', noloss, True)):
        add(name, d.auto_config(), None, {'model/pelicun_config.py': d.auto_script(b, arows)},
            realizations=N, detailed_results=det)
    # an auto-population script with a helper module of its own
    for name, q in (('auto-helper1', 2), ('auto-helper2', 5)):
        add(name, d.auto_config(), None, {
            'model/pelicun_config.py': 'import rules\n' + d.auto_script(base, arows).replace(
                "    return gi", "    comp.loc['B.1', 'Theta_0'] = rules.QNT\n    return gi"),
            'model/rules.py': f'QNT = {q}\n'}, realizations=N, detailed_results=False, coupled_edp=True)
    c = d.auto_config()
    c['outputs'] = {'IM': False, 'EDP': False, 'DM': False, 'DV': True, 'AIM': False, 'every_realization': False}
    add('auto-flags', c, None, {'model/pelicun_config.py': d.auto_script(base, arows)},
        realizations=N, detailed_results=False, output_format=['csv', 'json'])
    # failing runs
    add('fail-schema', {**p58(), 'GeneralInformation': {}}, pc)
    add('fail-demand', p58(Demands__DemandFilePath='nothing.csv'), pc)
    add('fail-damage', p58(Demands__InferResidualDrift={'method': 'other'}), pc)
    add('fail-loss', p58(Losses__Repair__ConsequenceDatabase='FEMA P-58', Losses__Repair__MapApproach='None'), pc,
        output_format=['csv'])
    return out


def _n(c):
    c['DL']['Demands']['SampleSize'] = str(N)
    return c


KINDS: dict = {}
BASE: dict = {}
TRIPLE_Q = ('default', 'default-csv', 'auto-noloss', 'hz-w1', 'fail-loss')
TRIPLE_T = (*TRIPLE_Q, 'default-json', 'auto-regional', 'auto-noloss-detailed', 'auto-helper1', 'hz-c1', 'lf-w1', 'options')


def prepare(tier):
    KINDS.update(kinds())
    BASE.update(zip(KINDS, d.parallel(_alone, list(KINDS))))


def _alone(k):
    w = pel.scratch('base')
    try:
        return _clean(d.execute(w / k, KINDS[k]), w / k)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def _clean(res, where):
    """Paths of the run's own directory do not matter."""
    s = json.dumps(res, sort_keys=True).replace(str(where), '<dir>')
    return json.loads(s)


def scenarios(tier):
    ks = list(kinds())
    for i, j in itertools.product(range(len(ks)), repeat=2):
        yield {'runs': [ks[i], ks[j]], 'same': (i + j) % 2 == 1}
    for p in itertools.product(TRIPLE_Q if tier == 'quick' else TRIPLE_T, repeat=3):
        yield {'runs': list(p)}


def _history(runs, same):
    from pelicun import assessment
    from pelicun.tools import DL_calculation as dl

    from mc.core import digest

    w = pel.scratch('hist')
    out = []
    try:
        for i, k in enumerate(runs):
            # (in new folders, or every run in the same place with other files)
            where = w / 'run' if same else w / f'{i}' / k
            shutil.rmtree(where, ignore_errors=True)
            r = _clean(d.execute(where, KINDS[k]), where)
            mods = [{n: v for n, v in vars(m).items() if isinstance(v, (dict, list)) and not n.startswith('__')}
                    for m in (dl, assessment)]
            out.append((r, digest(mods)))
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


def diff(got, want):
    out = []
    if got['end'] != want['end']:
        out.append(f"ended with {got['end'][:300]} instead of {want['end'][:300]}")
    a, b = set(got['files']), set(want['files'])
    if a != b:
        out.append(f'files missing {sorted(b - a)}, additional {sorted(a - b)}')
    out += [f'content of {f}' for f in sorted(a & b) if got['files'][f] != want['files'][f]][:4]
    if got['ap'] != want['ap']:
        out.append('extended configuration')
    return out


def run(sc, obs):
    if not KINDS:
        prepare('quick')
    runs = sc['runs']
    for i, ((got, st), k) in enumerate(zip(d.in_child(_history, runs, sc.get('same', False)), runs)):
        obs.step()
        obs.state(tuple(runs[:i + 1]) if i else k, st)
        want = BASE[k]
        if i == 0:
            obs.check(k.startswith('fail') == (want['end'] != 'ok'), f'alone:{k}', want['end'])
            obs.check(k.startswith('fail') or bool(want['files']), f'empty:{k}', 'no outputs')
        df = diff(got, want)
        obs.check(not df, f"influence:{k}{':first' if i == 0 else ''}",
                  f'run {i + 1} ({k}) of {runs} differs from the same run alone: {df}')
