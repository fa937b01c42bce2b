"""C22: read-only operations are pure, recalculation starts over, inputs are left alone."""

from __future__ import annotations

import itertools
import shutil

import numpy as np
import pandas as pd

from mc import flow, full, pel
from mc.state import Caller, deep, diff, fp, observable

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = (
    'explicit exploration of operation histories of a complete assessment: after every stage every ordered pair of read-only operations, '
    'every repetition of every calculation, every sequence of input changes with recalculation; state compared before and after, the '
    'results with those of a fresh assessment with the final inputs, and every object of the caller with its copy at the time of the call'
)
BOUND = {
    'quick': '11 stages x all ordered pairs of up to 19 read-only operations x 2 option sets; 25 changes, all sequences of 2 whose first is one of 12, two recalculation policies; 45 API calls',
    'thorough': 'the same with 8 option sets, all sequences of 2 and 1/4 of those of 3 changes',
}
ASSUMPTIONS = [
    'loading parameters again keeps those already loaded (C14), so changed parameter tables are only loaded into fresh assessments',
    'state: everything reachable through public attributes, and the state of the random generator',
]
CHUNK = 4
HORIZON = 400

STAGES = ['init', *full.STEPS]


# ---------------------------------------------------------------------------
# configurations of the complete assessment
VARS = {
    'D': 3, 'C': 3, 'N': 2, 'G': 3, 'M': 5, 'P': 3, 'V': 4, 'L': 3, 'E': 3, 'R': 2, 'X': 2, 'S': 3, 'Q': 2,
}
FIRST = {
    'D': 'demand', 'C': 'demand', 'N': 'generate', 'G': 'generate', 'M': 'asset', 'P': 'dmg', 'V': 'map', 'L': 'map', 'E': 'loss', 'R': 'loss',
    'X': 'dmg', 'S': 'demand', 'Q': 'dmg',
}
# steps that depend on the change, when only those are repeated
NEED = {
    'D': ['demand', 'calibrate', 'generate', 'cmp', 'dmg', 'loss'], 'C': ['demand', 'calibrate', 'generate', 'cmp', 'dmg', 'loss'],
    'N': ['generate', 'cmp', 'dmg', 'loss'], 'G': ['generate', 'cmp', 'dmg', 'loss'],
    'M': ['asset', 'cmp', 'dmgpar', 'dmg', 'map', 'losspar', 'loss'], 'P': ['dmg', 'loss'], 'V': ['map', 'losspar', 'loss'],
    'L': ['map', 'losspar', 'loss'], 'E': ['loss'], 'R': ['loss'], 'X': ['dmg', 'loss'], 'S': ['generate', 'cmp', 'dmg', 'loss'], 'Q': ['dmg', 'loss'],
}
CHANGES = [(k, v) for k, n in VARS.items() for v in range(n)]


def inputs(cfg):
    """Tables and dictionaries of a configuration."""
    g = cfg.get
    raw = full.raw_demands({'PFA': 'g', 'PID': 'unitless'} if g('D') == 2 else None, n=7 if g('D') == 2 else full.NRAW)
    if g('D') == 1:
        raw = {k: (u, [1.4 * x for x in v]) for k, (u, v) in raw.items()}
        raw['PFA-3-2'] = raw['PFA-1-1']
    cal = full.calibration()
    if g('C') == 1:
        cal = {'ALL': {'DistributionFamily': 'empirical'}}
    elif g('C') == 2:
        cal = {'ALL': {'DistributionFamily': 'lognormal'}}
    gen = {'SampleSize': 25 if g('N') else 40}
    if g('G') == 1:
        gen['PreserveRawOrder'] = True
    elif g('G') == 2:
        gen['DemandCloning'] = {'PFV-1-1': ['PFV-1-1', 'PFV-3-1']}
    m = full.marginals()
    if g('M') == 1:
        m = m.loc[[x not in 'LM' for x in m.index]]
    elif g('M') == 2:
        m = m.loc[[x in ('L', 'M', 'collapse') for x in m.index]]
    elif g('M') == 3:
        m['Theta_0'] = [v * 1.5 if f != 'uniform' else v for v, f in zip(m['Theta_0'], m['Family'])]
        m['Blocks'] = m['Blocks'] + 1
    elif g('M') == 4:
        m = m.loc[[x == 'B' for x in m.index]]
    proc = [full.PROCESS, None, {'1_A': {'DS1': ['B_DS2', 'C_NA']}}][g('P') or 0]
    dvs = [full.DVS, ('Cost',), ('Time', 'Carbon'), ('Carbon', 'Cost', 'Time')][g('V') or 0]
    lmap, pol = [(full.loss_map(), 'fill'), (pd.DataFrame({'Repair': ['B', 'replacement']}, index=['B', 'collapse']), None),
                 (pd.DataFrame({'Repair': ['B', 'B', 'C']}, index=['A', 'B', 'C']), 'fill_all')][g('L') or 0]
    return {
        'demand': flow.demand_df(raw), 'cal': cal, 'gen': gen, 'marg': {'marginals': m}, 'dmgpar': [full.damage_params()],
        'cmps': {'A', 'B', 'C', 'collapse'} & set(m.index), 'proc': deep(proc), 'dvs': dvs, 'map': lmap, 'pol': pol, 'losspar': [full.consequences(), full.functions()],
        'scal': {'A-1-1': {'LS1': '*1.2'}} if g('Q') else None,
    }


def options(a, cfg):
    g = cfg.get
    a.options.eco_scale = [{'AcrossFloors': True, 'AcrossDamageStates': False}, {'AcrossFloors': False, 'AcrossDamageStates': True},
                           {'AcrossFloors': True, 'AcrossDamageStates': True}][g('E') or 0]
    a.options.rho_cost_time = 0.7 if g('R') else 0.0
    a.options.list_all_ds = bool(g('X'))
    a.options.sampling_method = ['LHS', 'MonteCarlo', 'LHS_midpoint'][g('S') or 0]


def do(a, step, inp, seed=None):
    if seed is not None:
        a.options.seed = seed + 17 * full.STEPS.index(step)
    if step == 'demand':
        a.demand.load_sample(inp['demand'])
    elif step == 'calibrate':
        a.demand.calibrate_model(inp['cal'])
    elif step == 'generate':
        a.demand.generate_sample(inp['gen'])
    elif step == 'asset':
        a.stories = 10
        a.asset.load_cmp_model(inp['marg'])
    elif step == 'cmp':
        a.asset.generate_cmp_sample()
    elif step == 'dmgpar':
        a.damage.load_model_parameters(inp['dmgpar'], inp['cmps'])
    elif step == 'dmg':
        a.damage.calculate(dmg_process=inp['proc'], scaling_specification=inp['scal'])
    elif step == 'map':
        a.loss.decision_variables = inp['dvs']
        a.loss.add_loss_map(inp['map'], inp['pol'])
    elif step == 'losspar':
        a.loss.load_model_parameters(inp['losspar'])
    elif step == 'loss':
        a.loss.calculate()


def outputs(a):
    """Results a user gets to see."""
    out = {}
    for k, v in full.results(a).items():
        out[k] = fp(v)
    out['loss'] = fp(a.loss.sample)
    agg, ex = full.aggregate(a)
    out['agg'] = fp(agg)
    out['ex'] = fp(ex)
    return out


_FRESH: dict = {}


def fresh(cfg):
    key = repr(sorted((k, v) for k, v in cfg.items() if v))
    if key not in _FRESH:
        if len(_FRESH) > 300:
            _FRESH.clear()
        a = pel.asmt(Seed=1)
        options(a, cfg)
        inp = inputs(cfg)
        for s in full.STEPS:
            do(a, s, inp, 5)
        _FRESH[key] = outputs(a)
    return _FRESH[key]


# ---------------------------------------------------------------------------
# read-only operations: name -> (first stage, function of (assessment, scratch folder))
def _agg(**kw):
    return lambda a, d: a.loss.aggregate_losses(**kw)


def _thresholds(a, d):
    from pelicun import uq

    reg = uq.RandomVariableRegistry(np.random.default_rng(1))
    for dv, v in (('Cost', 3e5), ('Time', 1e7), ('Carbon', 5e3)):
        if dv in a.loss.decision_variables:
            reg.add_RV(uq.rv_class_map('deterministic')(name=dv, theta=np.array([v])))
    return a.loss.aggregate_losses((reg, {k: 0.01 for k in reg.RV}), future=True)


def _combo(a, d):
    n = 1e4
    x = np.zeros((3, 3))
    x += n * np.array([[0.0, 0.5, 1.0], [0.5, 0.6, 1.0], [1.0, 1.0, 1.0]])
    x[0, :] = x[:, 0] = [0.0, n / 2, n]
    return a.loss.aggregate_losses(loss_combination={'Cost': {('L', 'M'): x}} if 'Cost' in a.loss.decision_variables else {}, future=True)


READ = {
    'scale': ('init', lambda a, d: (a.scale_factor('ft'), a.calc_unit_scale_factor('2 inps2'), a.scale_factor(None))),
    'log': ('init', lambda a, d: (a.log.msg('text'), a.log.div(), a.log.print_system_info())),
    'options': ('init', lambda a, d: (a.options.seed, a.options.sampling_method, a.options.demand_offset, a.options.nondir_multi_dict)),
    'demand': ('demand', lambda a, d: a.demand.save_sample()),
    'demand units': ('demand', lambda a, d: a.demand.save_sample(save_units=True)),
    'demand file': ('demand', lambda a, d: a.demand.save_sample(f'{d}/demand.csv')),
    'demand model': ('calibrate', lambda a, d: a.demand.save_model(f'{d}/m')),
    'cmp': ('cmp', lambda a, d: a.asset.save_cmp_sample()),
    'cmp units': ('cmp', lambda a, d: a.asset.save_cmp_sample(save_units=True)),
    'cmp file': ('cmp', lambda a, d: a.asset.save_cmp_sample(f'{d}/cmp.csv')),
    'list': ('cmp', lambda a, d: a.asset.list_unique_component_ids()),
    'dmg': ('dmg', lambda a, d: a.damage.save_sample()),
    'dmg units': ('dmg', lambda a, d: a.damage.save_sample(save_units=True)),
    'dmg file': ('dmg', lambda a, d: a.damage.save_sample(f'{d}/dmg.csv')),
    'dmg prob': ('dmg', lambda a, d: a.damage.ds_model.probabilities()),
    'loss': ('loss', lambda a, d: a.loss.save_sample()),
    'loss units': ('loss', lambda a, d: a.loss.save_sample(save_units=True)),
    'loss file': ('loss', lambda a, d: a.loss.save_sample(f'{d}/loss.csv')),
    'ds file': ('loss', lambda a, d: a.loss.ds_model.save_sample(f'{d}/ds.csv')),
    'ds units': ('loss', lambda a, d: a.loss.ds_model.save_sample(save_units=True)),
    'sample': ('loss', lambda a, d: a.loss.sample),
    'agg': ('loss', _agg(future=True)),
    'agg old': ('loss', _agg()),
    'thresholds': ('loss', _thresholds),
    'combination': ('loss', _combo),
    'params': ('losspar', lambda a, d: (a.loss.loss_params, a.damage.ds_model.damage_params)),
}
ROPTS = [
    {}, {'EconomiesOfScale': {'AcrossFloors': False, 'AcrossDamageStates': True}}, {'ListAllDamageStates': True, 'Sampling': {'SamplingMethod': 'LHS_midpoint'}},
    {'RepairCostAndTimeCorrelation': 0.5}, {'Verbose': True}, {'NonDirectionalMultipliers': {'ALL': 2.0}}, {'DemandOffset': {'PFA': -1, 'PFV': -1}},
    {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
]


def scenarios(tier):
    th = tier != 'quick'
    for o in range(8 if th else 2):
        for s in STAGES:
            for op, (first, _) in READ.items():
                if STAGES.index(first) <= STAGES.index(s):
                    yield {'k': 'read', 'o': o, 's': s, 'op': op}
    for s in full.STEPS:
        for c in CHANGES:
            yield {'k': 'repeat', 's': s, 'c': c}
    for pol in ('need', 'all'):
        for n in (1, 2, 3):
            for i, h in enumerate(itertools.product(CHANGES, repeat=n)):
                # a change of something, or back to the first value
                if any(v == 0 and c not in {x for x, _ in h[:k]} for k, (c, v) in enumerate(h)) or any(a == b for a, b in zip(h, h[1:])):
                    continue
                if not th and n == 2 and h[0][1] > 1:
                    continue
                if n < 2 or (n == 2 and (th or pol == 'need')) or (th and i % 5 == 0):
                    yield {'k': 'change', 'p': pol, 'h': h}
    for c in CHANGES:
        for o in range(8 if th else 1):
            yield {'k': 'own', 'c': c, 'o': o}
    for name in API:
        for v in range(4):
            yield {'k': 'api', 'n': name, 'v': v}


# ---------------------------------------------------------------------------
def run_read(sc, obs):
    d = pel.scratch('ro')
    opts = ROPTS[sc['o']]
    a = pel.asmt(Seed=3, **deep(opts))
    inp = inputs({})
    i = STAGES.index(sc['s'])
    for s in STAGES[1 : i + 1]:
        do(a, s, inp)
    ref = observable(a)
    avail = [op for op, (first, _) in READ.items() if STAGES.index(first) <= i]
    first = {}
    kept = []

    def call(op):
        obs.step()
        out = READ[op][1](a, str(d))
        df = diff(ref, observable(a))
        obs.check(not df, f'read:{op}', lambda: f'{op} after {sc["s"]} changes {df}')
        f = fp(out)
        if op in first:
            obs.check(first[op] == f, f'read:again:{op}', lambda: f'{op} returns something else the next time')
        first[op] = f
        kept.append((op, out, f))

    for x in avail:
        call(sc['op'])
        call(x)
    for op, out, f in kept:
        obs.check(fp(out) == f, f'read:result:{op}', lambda: f'the result of {op} changed after it was returned')
    # changing a copy that was returned does not change the state
    for op, out, f in kept:
        if op.endswith('file') or op in ('sample', 'params', 'list', 'options'):
            continue
        for t in out if isinstance(out, tuple) else (out,):
            if isinstance(t, pd.DataFrame) and t.size:
                t.iloc[:, 0] = -77.0
                t.drop(columns=t.columns[-1:], inplace=True)
    df = diff(ref, observable(a))
    obs.check(not df, 'read:alias', lambda: f'the returned tables are those of the state: {df}')
    for s in STAGES[i + 1 :]:
        do(a, s, inp)
        obs.step()
    got = outputs(a)
    b = undisturbed(sc['o'])
    df = diff(got, b)
    obs.check(not df, f'read:continue:{sc["op"]}', lambda: f'continuing after {sc["op"]} at {sc["s"]} gives other {df}')
    obs.state(sc['s'], sc['op'], sc['o'], ref)
    shutil.rmtree(d, ignore_errors=True)


_UND: dict = {}


def undisturbed(o):
    if o not in _UND:
        a = pel.asmt(Seed=3, **deep(ROPTS[o]))
        inp = inputs({})
        for s in full.STEPS:
            do(a, s, inp)
        _UND[o] = outputs(a)
    return _UND[o]


def run_repeat(sc, obs):
    """The same calculation again, with the same generator."""
    cfg = dict([sc['c']])
    a = pel.asmt(Seed=1)
    options(a, cfg)
    inp = inputs(cfg)
    i = full.STEPS.index(sc['s'])
    for s in full.STEPS[: i + 1]:
        do(a, s, inp, 5)
    one = observable(a)
    do(a, sc['s'], inp, 5)
    two = observable(a)
    df = diff(one, two)
    # calibration starts from the sample it replaces only when generated
    obs.check(not df, f'repeat:{sc["s"]}', lambda: f'repeating {sc["s"]} changes {df} ({cfg})')
    for s in full.STEPS[i + 1 :]:
        do(a, s, inp, 5)
    obs.step(11)
    df = diff(outputs(a), fresh(cfg))
    obs.check(not df, f'repeat:continue:{sc["s"]}', lambda: f'after repeating {sc["s"]} other {df} ({cfg})')
    obs.state(sc, two)


def run_change(sc, obs):
    """Change inputs one after the other and recalculate."""
    cfg: dict = {}
    a = pel.asmt(Seed=1)
    todo = list(full.STEPS)
    for k, (c, v) in enumerate([('D', 0), *map(tuple, sc['h'])]):
        cfg[c] = v
        inp = inputs(cfg)
        options(a, cfg)
        if k:
            todo = full.STEPS[full.STEPS.index(FIRST[c]):] if sc['p'] == 'all' else NEED[c]
        for s in todo:
            do(a, s, inp, 5)
            obs.step()
        if k < len(sc['h']):
            # (compared in the scenario of the shorter sequence)
            continue
        got, want = outputs(a), fresh(cfg)
        df = [x for x in diff(got, want) if x != 'marginals']
        obs.check(not df, f'change:{c}', lambda: f'{cfg} after {sc["h"][:k]} ({sc["p"]}) gives other {df}')
        obs.state(sorted(cfg.items()), got)


def run_own(sc, obs):
    """Objects of the caller through a whole analysis with recalculation."""
    cfg = dict([sc['c']])
    own = Caller()
    opts = own({'PrintLog': False, 'Verbose': False, 'Seed': 2, **deep(ROPTS[sc['o']])}, 'configuration')
    from pelicun.assessment import Assessment

    a = Assessment(opts)
    inp = inputs(cfg)
    for k, v in inp.items():
        own(v, k)
    d = pel.scratch('own')
    for s in [*full.STEPS, *full.STEPS]:
        do(a, s, inp)
        obs.step()
        bad = own.changed()
        obs.check(not bad, f'own:{s}', lambda: f'{s} changes {bad} of the caller ({cfg})')
        if bad:
            return
    for op in READ:
        READ[op][1](a, str(d))
        bad = own.changed()
        obs.check(not bad, f'own:{op}', lambda: f'{op} changes {bad} of the caller')
    shutil.rmtree(d, ignore_errors=True)
    obs.state(sc, [f for _, _, f in own.objs])


# ---------------------------------------------------------------------------
# single calls with objects of the caller: f(variant, own) performs the calls
def _demand_table(v):
    df = flow.demand_df(full.raw_demands({'PFA': 'g'}))
    if v == 1:
        df.columns = [f'1-{c}' for c in df.columns]
    elif v == 2:
        df['ERROR-0-0'] = ['unitless', *[float(i == 3) for i in range(full.NRAW)]]
    elif v == 3:
        df.columns = pd.MultiIndex.from_tuples([tuple(c.split('-')) for c in df.columns])
    return df


def _start(upto=None, **o):
    a = pel.asmt(Seed=1, **o)
    inp = inputs({})
    for s in full.STEPS[: full.STEPS.index(upto) + 1] if upto else []:
        do(a, s, inp)
    return a


def api_load_sample(v, own):
    _start().demand.load_sample(own(_demand_table(v), 'sample'))


def api_calibrate(v, own):
    a = _start('demand')
    cfg = [
        {'ALL': {'DistributionFamily': 'lognormal', 'TruncateAt': [0.001, 1000]}},
        {'ALL': {'DistributionFamily': 'empirical'}, 'PFA': {'DistributionFamily': 'normal', 'TruncateLower': 0.01, 'TruncateUpper': 5, 'Unit': 'g'}},
        {'ALL': {'DistributionFamily': 'lognormal', 'CensorUpper': 100, 'Unit': 'mps2', 'AddUncertainty': 0.2}},
        {'ALL': {'DistributionFamily': 'normal', 'AddUncertainty': 0.2}, 'PID': {'DistributionFamily': 'lognormal', 'CensorAt': [None, 0.3]}},
    ][v]
    cfg = {k: {a_: b for a_, b in s.items() if a_ not in ('TruncateAt', 'CensorAt')} for k, s in cfg.items()}
    a.demand.calibrate_model(own(cfg, 'calibration'))
    a.demand.generate_sample(own({'SampleSize': 10}, 'config'))


def api_generate(v, own):
    a = _start('calibrate')
    cfg = [{'SampleSize': 10}, {'SampleSize': 10, 'PreserveRawOrder': True}, {'SampleSize': 10, 'DemandCloning': {'PFV-1-1': ['PFV-1-1', 'PFV-4-1']}},
           {'SampleSize': 10, 'DemandCloning': False}][v]
    a.demand.generate_sample(own(cfg, 'config'))


def api_clone(v, own):
    a = _start('generate')
    a.demand.clone_demands(own([{'PFV-1-1': ['PFV-1-1', 'PFV-4-1']}, {'PFA-1-1': ['PFA-1-1', 'PFA-1-3'], 'PFA-1-2': ['PFA-1-2']}, {'PFV-1-1': ['PFV-8-1']}, {}][v], 'cloning'))


def api_load_model(v, own):
    a = _start('calibrate')
    d = {'marginals': pd.DataFrame([['g', 'lognormal', 0.4, 0.3], ['mps2', 'normal', 3.0, 0.1]], index=pd.MultiIndex.from_tuples([('PFA', '1', '1'), ('PFA', '2', '1')]),
                                   columns=['Units', 'Family', 'Theta_0', 'Theta_1'])}
    if v in (1, 2):
        d['correlation'] = pd.DataFrame([[1.0, 0.5], [0.5, 1.0]], index=d['marginals'].index, columns=d['marginals'].index)
    if v == 2:
        d['marginals']['TruncateUpper'] = [0.8, np.nan]
        d['marginals']['TruncateLower'] = [np.nan, 0.8]
    if v == 3:
        d['marginals'].index = ['PFA-1-1', 'PFA-2-1']
    b = _start()
    b.demand.load_model(own(d, 'model'))
    b.demand.generate_sample({'SampleSize': 20})
    del a


def api_expand(v, own):
    a = _start('generate')
    a.demand.expand_sample('Z', own(np.arange(40.0) + 1, 'values'), 'g' if v % 2 else 'mps2', '0', '1')
    a.demand.save_sample()


def api_rid(v, own):
    a = _start('generate')
    dirs = {'yield_drift': own({'1': 0.01, '2': 0.02}, 'drifts') if v % 2 else 0.01}
    if v < 2:
        pid = own(a.demand.save_sample()['PID'].copy(), 'pid')
        a.demand.estimate_RID(pid, own({'yield_drift': 0.01}, 'params'))
    else:
        a.demand.estimate_RID_and_adjust_sample(own({'yield_drift': 0.01}, 'params'))
    del dirs


def api_load_cmp(v, own):
    a = _start('demand')
    m = full.marginals()
    if v == 1:
        m = m.drop(columns=['TruncateLower', 'TruncateUpper'])
    elif v == 2:
        m.index.name = 'ID'
        m['Comment'] = 'text'
    elif v == 3:
        m['Blocks'] = m['Blocks'].astype(object)
    a.stories = 10
    a.asset.load_cmp_model(own({'marginals': m}, 'model'))
    a.asset.generate_cmp_sample(5)


def api_load_cmp_sample(v, own):
    b = _start('cmp')
    s, u = b.asset.save_cmp_sample(save_units=True)
    t = pd.concat([s, u.to_frame('Units').T])
    if v == 1:
        t = t.iloc[[-1, *range(len(s))]]
    if v == 2:
        t.columns = ['-'.join(map(str, c)) for c in t.columns]
    if v == 3:
        t = t.loc[:, [c for c in t.columns if c[3] == '0']]
        t.columns = t.columns.droplevel(3)
    a = _start('demand')
    a.asset.load_cmp_sample(own(t, 'sample'))
    a.asset.save_cmp_sample()


def api_dmgpar(v, own):
    a = _start('cmp')
    t = full.damage_params()
    tabs = [[t], [t.loc[['A']], t], [t.loc[['A', 'B']], t.loc[['C', 'collapse']]], [t, t]][v]
    a.damage.load_model_parameters(own(tabs, 'tables'), own({'A', 'B', 'C', 'collapse', 'L', 'M'} if v else {'A', 'B', 'C', 'collapse'}, 'set'), warn_missing=False)
    a.damage.calculate()


def api_dmgmodel(v, own):
    a = _start('cmp')
    a.damage.load_damage_model(own([full.damage_params()], 'tables'))


def api_dmg(v, own):
    a = _start('dmgpar')
    p = [{'1_A': {'DS1': 'ALL_NA'}}, {'1_A': {'DS1': ['B_DS1', 'C_NA'], 'DS2': 'B_NA'}}, {'1_A-LOC': {'DS1': 'B_DS1'}}, {'1_A': {'DS1': ['B_DS1']}, '2_B': {'DS1': ['C_NA']}}][v]
    s = [None, {'A-1-1': {'ALL': '*1.2'}}, {'A': {'LS1': '/2'}}, {'A-1-1': {'LS1': ['*1.2'] * 40}}][v]
    try:
        a.damage.calculate(own(p, 'process'), scaling_specification=own(s, 'scaling') if s else None)
    except ValueError:
        if v != 3:
            raise


def api_dmg_sample(v, own):
    b = _start('dmg')
    s, u = b.damage.save_sample(save_units=True)
    t = pd.concat([s, u.to_frame('Units').T])
    if v == 1:
        t.columns = ['-'.join(map(str, c)) for c in t.columns]
    a = _start('cmp')
    a.damage.load_sample(own(t, 'sample'))
    inp = inputs({})
    for st in ('map', 'losspar', 'loss'):
        do(a, st, inp)


def api_map(v, own):
    a = _start('dmg')
    m = [full.loss_map(), full.loss_map(), pd.DataFrame({'Repair': ['B', 'replacement']}, index=['B', 'collapse']),
         pd.DataFrame({'Repair': ['repA', 'replacement']}, index=['DMG-A', 'DMG-collapse'])][v]
    pol = ['fill', 'fill_all', None, 'fill'][v]
    a.loss.decision_variables = own(('Cost', 'Time'), 'dvs')
    a.loss.add_loss_map(own(m, 'map'), pol)
    if v != 3:
        a.loss.load_model_parameters(own([full.consequences(), full.functions()], 'tables'))
        a.loss.calculate()


def api_losspar(v, own):
    a = _start('map')
    c, f = full.consequences(), full.functions()
    if v == 1:
        c.index.names = [None, None]
        f.index.names = ['x', 'y']
    tabs = [[c, f], [f, c], [c, c, f], [c.iloc[:3], c.iloc[3:], f]][v]
    a.loss.load_model_parameters(own(tabs, 'tables'))
    a.loss.calculate()


def api_lossmodel(v, own):
    a = _start('dmg')
    a.loss.decision_variables = full.DVS
    m = pd.DataFrame({'Repair': ['repA', 'B', 'C', 'replacement']}, index=['A', 'B', 'C', 'collapse'])
    a.loss.load_model(own([full.consequences()], 'tables'), own(m, 'map'), own(('Cost', 'Time'), 'dvs') if v % 2 else None)


def api_loss_sample(v, own):
    b = _start('loss')
    r = b.loss.ds_model.save_sample(save_units=True)
    s, u = r
    t = pd.concat([s, u.to_frame('Units').T])
    if v % 2:
        t.columns = ['-'.join(map(str, c)) for c in t.columns]
    a = _start('cmp')
    if v < 2:
        a.loss.ds_model.load_sample(own(t, 'sample'))
    else:
        a.loss.load_sample(own(t, 'sample'))


def api_aggregate(v, own):
    from pelicun import uq

    a = _start('loss')
    reg = uq.RandomVariableRegistry(np.random.default_rng(1))
    for dv, x in (('Cost', 3e5), ('Time', 1e7), ('Carbon', 5e3)):
        reg.add_RV(uq.rv_class_map('deterministic')(name=dv, theta=np.array([x])))
    conf = (own(reg, 'registry'), own({'Cost': 0.3, 'Time': 0.2, 'Carbon': 0.5}, 'ratios'))
    comb = own({'Cost': {('L', 'M'): np.array([[0.0, 5e4], [5e4, 9e4]])}}, 'combination')
    a.loss.aggregate_losses(*([(None, None), (conf, None), (None, comb), (conf, comb)][v]), future=True)
    if own.objs[0][0] == 'registry':
        # (the registry is sampled for every evaluation)
        own.objs.pop(0)


def api_assessment(v, own):
    from pelicun.assessment import Assessment, AssessmentBase, DLCalculationAssessment

    cfg = own([{}, {'NonDirectionalMultipliers': {'PFA': 1.3}, 'PrintLog': False}, {'EconomiesOfScale': {'AcrossFloors': False}, 'DemandOffset': {'PFA': 0}, 'Seed': 2},
               {'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'ErrorSetup': {'Loss': {'ReplacementThreshold': {'RaiseOnUnknownKeys': False}}}, 'RepairCostAndTimeCorrelation': 0.5}][v], 'config')
    for cls in (Assessment, AssessmentBase, DLCalculationAssessment):
        cls(cfg)


def api_wrapper(v, own):
    a = pel.asmt(Seed=1)
    d = {'marginals': pd.DataFrame([['mps2', 'lognormal', 4.0, 0.3], ['unitless', 'lognormal', 0.01, 0.3], ['mps', 'normal', 1.0, 0.1], ['mps2', 'normal', 4.0, 0.1]],
                                   index=pd.MultiIndex.from_tuples([('PFA', '1', '1'), ('PID', '1', '1'), ('PFV', '10', '1'), ('SA_1.0', '0', '1')]),
                                   columns=['Units', 'Family', 'Theta_0', 'Theta_1'])}
    m = full.marginals().loc[['B', 'M', 'collapse']]
    m = m.loc[[not (x == 'B' and l == '10') for x, l in zip(m.index, m['Location'])]]
    kw = {}
    if v in (1, 3):
        kw['residual_drift_configuration'] = own({'parameters': {'yield_drift': 0.01}, 'method': 'FEMA P58'}, 'rid')
    if v in (2, 3):
        kw['collapse_fragility_configuration'] = own({'label': 'SA_2.0', 'value': 5.0, 'unit': 'g'}, 'collapse')
    if v == 3:
        kw['scaling_specification'] = own({'A-1-1': {'LS1': '*1.2'}}, 'scaling')
    a.calculate_damage(10, own({'SampleSize': 20, 'PreserveRawOrder': False}, 'demand config'), own(d, 'demand'), own({'marginals': m}, 'components'),
                       own([full.damage_params()], 'tables'), own({'1_collapse': {'DS1': 'ALL_NA'}}, 'process'), **kw)
    a.calculate_loss(('Cost', 'Time'), own([full.consequences(), full.functions()], 'loss tables'), own(full.loss_map(), 'map'), 'fill')
    a.aggregate_loss()


def api_file_io(v, own):
    from pelicun import file_io

    df = own(pd.DataFrame({('a', '1'): [1.0, 2.0], ('b', '2'): [3.0, 4.0]}, index=[0, 1]), 'data')
    units = own(pd.Series(['ft', 'm'], index=df.columns), 'units')
    fac = own({'ft': 0.3048, 'm': 1.0}, 'factors')
    d = pel.scratch('io')
    if v == 0:
        file_io.save_to_csv(df, d / 'x.csv', units=units, unit_conversion_factors=fac)
    elif v == 1:
        file_io.save_to_csv(df, None, units=units, unit_conversion_factors=fac, use_simpleindex=False)
    elif v == 2:
        file_io.load_data(own(pd.DataFrame([['ft', 'm'], [1, 2]], index=['Units', 0], columns=['a-1', 'b-2']), 'table'), fac, return_units=True)
    else:
        file_io.load_data(own(pd.DataFrame([['ft', 1.0], ['m', 2.0]], index=['a-1', 'b-2'], columns=['Units', 'x']), 'table'), fac, orientation=1, return_units=True)
    shutil.rmtree(d)


def api_base(v, own):
    from pelicun import base

    df = own(pd.DataFrame({'a-1': ['1', '2'], 'b-2': ['x', 'NA']}, index=['r-1', 'r-2']), 'table')
    for axis in (0, 1):
        m = own(base.convert_to_MultiIndex(df, axis=axis), 'multi')
        base.convert_to_SimpleIndex(m, axis=axis)
    base.with_parsed_str_na_values(df)
    num = own(pd.DataFrame({('a', '1'): [1.0, 2.0], ('b', '2'): [3, 4]}), 'numbers')
    base.describe(num)
    base.describe(own(np.arange(6.0), 'array'))
    base.convert_dtypes(num)
    dup = own(pd.DataFrame([[1, 2], [3, 4]], index=pd.MultiIndex.from_tuples([('a', 'b'), ('a', 'b')], names=['x', 'y'])), 'duplicates')
    base.dedupe_index(dup)
    conv = own(pd.Series([2.0], index=pd.MultiIndex.from_tuples([('a',)])) if v % 2 else pd.Series({'a': 2.0}), 'factors')
    if v % 2 == 0:
        m = own(pd.DataFrame([[1.0, 2.0]], columns=pd.MultiIndex.from_tuples([('a', '1'), ('b', '1')], names=['k', 'l'])), 'scaled')
        base.multiply_factor_multiple_levels(base_copy(m), {'k': 'a'}, 2.0, axis=1)
    del conv
    base.convert_units(own([1.0, 2.0], 'values'), 'ft', 'm')
    base.convert_units(own(np.array([1.0, 2.0]), 'values'), 'ft', 'm')
    base.invert_mapping(own({'a': 'b', 'c': 'd'}, 'mapping'))
    base.get(own({'a': {'b': 1}}, 'nested'), 'a/b')
    base.is_unspecified(own({'a': {'b': {}}}, 'nested'), 'a/b')
    base.stringterpolation('1,2|0,1')


def api_merge(v, own):
    from pelicun import base

    base.merge_default_config(own([{}, {'Verbose': True}, {'EconomiesOfScale': {'AcrossFloors': False}}, {'Sampling': {}}][v], 'config'))


def base_copy(x):
    return x.copy()


API = {k[4:]: f for k, f in list(globals().items()) if k.startswith('api_')}


def run_api(sc, obs):
    own = Caller()
    obs.step(2)
    API[sc['n']](sc['v'], own)
    bad = own.changed()
    obs.check(not bad, f'api:{sc["n"]}', lambda: f'{sc["n"]} (variant {sc["v"]}) changes {bad} of the caller')
    obs.state(sc, [f for _, _, f in own.objs])


def run(sc, obs):
    globals()['run_' + sc['k']](sc, obs)
