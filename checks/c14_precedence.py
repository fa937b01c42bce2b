"""Precedence of parameter sources, incomplete and missing definitions."""

from __future__ import annotations

import itertools
import json
import shutil
from pathlib import Path

import numpy as np
import pandas as pd

from mc import dlrun, flow, lossflow, pel
from checks import c16_ds_losses as c16

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = ('one scenario = (what each source defines for each component, kind of parameters, list or consecutive calls, tables or files); the '
        'result is compared with loading one table that holds only the winning definitions; states = distinct (kind, result)')
BOUND = {
    'quick': '2 sources x 2 components x {absent, 3 different definitions, incomplete} x {list, calls} for damage, consequence and loss function '
             'parameters; 3 sources for one component; tables and files; up to 120 components and 25 sources; 140 configurations (and direct references with current and older names) with databases of the model library and own files',
    'thorough': '3 sources x 2 components x {absent, 3 definitions, incomplete}',
}
ASSUMPTIONS = ['whether a later call may complete a definition that an earlier call marked incomplete is left open (not enumerated)',
               'the comparison run with the winning definitions in one table is itself judged by C10-C18']

# damage definitions: differ in demand, unit, limit states, family, truncation
DMG = {
    'v1': {'type': 'Peak Floor Acceleration', 'unit': 'g', 'offset': 1, 'ls': [{'t0': 0.5}]},
    'v2': {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'dir': 0,
           'ls': [{'f': 'lognormal', 't0': 9.0, 't1': 0.3, 'lo': 8.0, 'hi': 10.0}, {'t0': 20.0, 'w': '0.25|0.75'}, {'t0': 30.0}]},
    'v3': {'type': 'Peak Interstory Drift Ratio', 'unit': 'unitless', 'offset': 0, 'ls': [{'f': 'normal', 't0': 0.02, 't1': 0.1}, {'t0': 0.05}]},
    'inc': {'type': 'Peak Interstory Drift Ratio', 'unit': 'unitless', 'offset': 0, 'inc': 1, 'ls': [{'t0': 0.001}, {'t0': 0.002}]},
}
CONS = {
    'v1': {'unit': 'USD_2011', 'ds': [{'t0': 10.0}, {'t0': 20.0}]},
    'v2': {'unit': 'USD_2011', 'q': '10 EA', 'ds': [{'f': 'lognormal', 't0': '500,300|1,8', 't1': 0.4}, None, {'t0': 7000.0}]},
    'v3': {'unit': 'USD_2011', 'ds': [{'f': 'normal', 't0': 3.0, 't1': 0.1}, None]},
    'inc': {'unit': 'USD_2011', 'inc': 1, 'ds': [{'t0': 1e6}, {'t0': 1e6}, {'t0': 1e6}]},
}
LFN = {
    'v1': {'unit': 'USD_2011', 'type': 'Peak Floor Acceleration', 'dunit': 'g', 'offset': 1, 'fn': '0,10|0,10'},
    'v2': {'unit': 'USD_2011', 'type': 'Peak Floor Acceleration', 'dunit': 'mps2', 'offset': 1, 'dir': 0, 'fn': '0,5,70|0,20,100', 'f': 'lognormal', 't1': 0.4},
    'v3': {'unit': 'USD_2011', 'type': 'Peak Interstory Drift Ratio', 'dunit': 'unitless', 'offset': 0, 'fn': '0,1|0,1', 'f': 'normal', 't1': 0.2},
    'inc': {'unit': 'USD_2011', 'type': 'Peak Interstory Drift Ratio', 'dunit': 'unitless', 'offset': 0, 'fn': '0,1e6|0,1', 'inc': 1},
}
STATES = [None, 'v1', 'v2', 'v3', 'inc']
N = 12
_MEMO: dict = {}


def scenarios(tier):
    th = tier == 'thorough'
    for d, l, own in itertools.product(('', '1', '2', '12', '21'), ('', '1', '2', '12', '21', '1L', 'L2'), range(4)):
        i = len(d) + len(l) + own
        yield {'kind': 'config', 'dmg': d, 'loss': l, 'own': own, 'sep': (', ', ',', ' , ')[i % 3], 'custom': i % 2}
    for kind in NAMED:
        for x, y in itertools.product(range(len(NAMED[kind])), repeat=2):
            if x != y:
                yield {'kind': 'named', 'of': kind, 'src': [x, y]}
    for i in range(len(OTHER)):
        yield {'kind': 'named', 'of': 'other', 'src': [i]}
    for kind in ('damage', 'cons', 'lf'):
        sts = STATES
        for t1 in itertools.product(sts, repeat=2):
            for t2 in itertools.product(sts, repeat=2):
                for how in ('list', 'calls'):
                    if how == 'calls' and 'inc' in t1 + t2:
                        continue
                    if not th and (t1[1] == 'v3' or (t2[1] == 'v3' and t2[0] != 'v1') or (t2[1] == 'inc' and t2[0] in ('v1', 'v3')) or (how == 'calls' and t2[1] == 'v1')):
                        continue
                    yield {'kind': kind, 'tabs': [list(t1), list(t2)], 'how': how}
                    if t1[1] == 'v1' and t2[0] == 'v2':
                        yield {'kind': kind, 'tabs': [list(t1), list(t2)], 'how': how, 'file': 1}
                        yield {'kind': kind, 'tabs': [list(t1), list(t2)], 'how': how, 'rev': 1}
        for t in itertools.product(sts, repeat=3):
            for how in ('list', 'calls'):
                if how == 'calls' and 'inc' in t:
                    continue
                yield {'kind': kind, 'tabs': [[x, 'v1'] for x in t], 'how': how}
        if th:
            for t in itertools.product(sts, repeat=6):
                if 'inc' in t and kind != 'cons':
                    continue
                yield {'kind': kind, 'tabs': [list(t[:2]), list(t[2:4]), list(t[4:])], 'how': 'list'}
    for kind in ('damage', 'cons', 'lf', 'mix'):
        for nc, nt in ((30, 12), (3, 25), (120, 3)):
            for shift in range(4):
                for how in ('list', 'calls'):
                    yield {'kind': 'large', 'of': kind, 'size': [nc, nt], 'shift': shift, 'how': how}
    # several decision variables of a component in different sources
    for a, b, c, d in itertools.product([None, 'v1', 'v2', 'inc'], repeat=4):
        for how in ('list', 'calls'):
            if 'inc' in (a, b, c, d) and how == 'calls':
                continue
            yield {'kind': 'dv', 'cells': [a, b, c, d], 'how': how}


SRC = {'1': 'Hazus Earthquake - Transportation', '2': 'Hazus Earthquake - Potable Water', 'L': 'Hazus Hurricane Storm Surge - Buildings'}


def run_config(sc, obs):
    """Sources named in the configuration of an assessment: the own file comes first, then the databases from the last one listed."""
    from pelicun.assessment import DLCalculationAssessment

    def name(d):
        return sc['sep'].join(SRC[x] for x in d) or 'None'

    def sources(d, own):
        return (['3'] if own else []) + list(reversed(d))

    def first(tables):
        out = {}
        for t in tables:
            for k, v in t.items():
                out.setdefault(k, v)
        return out

    w = pel.scratch('cfg')
    dmg = first([dlrun.src_dmg(int(k)) for k in sources(sc['dmg'], sc['own'] & 1) if k != 'L'])
    surge = {('Q.8', 'Cost'): 1.0, ('Q.9', 'Cost'): 0.5}
    loss = first([surge if k == 'L' else dlrun.src_loss(int(k)) for k in sources(sc['loss'], sc['own'] & 2)])
    comps = [*sorted(dmg), *(['Q.8', 'Q.9'] if 'L' in sc['loss'] else [])]
    if not dmg or not loss:
        return
    lev = [0.5, 1.5, 2.5, 3.5]
    flow.demand_df({'PGA-0-1': ['mps2', lev]}).to_csv(w / 'dem.csv')
    qty = {c: 2.0 + i for i, c in enumerate(comps)}
    pd.DataFrame({'Units': 'ea', 'Location': '0', 'Direction': '1', 'Theta_0': list(qty.values())}, index=comps).to_csv(w / 'CMP.csv')
    (w / 'frag.csv').write_text(dlrun._src(3)[0])
    (w / 'cons.csv').write_text(dlrun._src(3)[1])
    a = DLCalculationAssessment({'PrintLog': False, 'Seed': 1, 'DemandOffset': {'PGA': 0}})
    a.calculate_demand(w / 'dem.csv', None, 'm', None, 4, None, None, coupled_demands=True)
    a.calculate_asset(2, w / 'CMP.csv', None, None, add_irreparable_damage_columns=False)
    path = ('CustomDLDataFolder/', str(w)) if sc['custom'] else (f'{w}/', None)
    a.calculate_damage('m', name(sc['dmg']), f'{path[0]}frag.csv' if sc['own'] & 1 else None, damage_process_approach='None', custom_model_dir=path[1])
    obs.step(6)
    got = flow.cols_dict(a.damage.ds_model.ds_sample)
    obs.eq(sorted(k[0] for k in got if k[0] != 'collapse'), sorted(dmg), 'config:components', str(sc))
    for k, v in got.items():
        if k[0] in dmg:
            obs.close(v, [float(x > dmg[k[0]]) for x in lev], 'config:state', f'{k} {sc}')
    agg, _ = a.calculate_loss('Automatic', None, name(sc['loss']), f'{path[0]}cons.csv' if sc['own'] & 2 else None, path[1], 'FEMA P-58',
                              decision_variables=('Cost', 'Time'))
    tot = {'Cost': np.zeros(4), 'Time': np.zeros(4)}
    for (c, dv), v in loss.items():
        if c in dmg:
            tot[dv] += np.array([qty[c] * v * (x > dmg[c]) for x in lev])
        elif c in qty and (c, dv) in surge:
            tot[dv] += np.array([qty[c] * v * x for x in lev])
    agg = lossflow.agg_cols(agg)
    obs.close(agg.get('repair_cost', np.zeros(4)), tot['Cost'], 'config:cost', str(sc))
    g = np.array(agg.get('repair_time-sequential', np.zeros(4)))
    obs.close(g, tot['Time'] * (3600.0 if g.max() > 3 * tot['Time'].max() else 1.0), 'config:time', str(sc))
    obs.state(sc, sorted(dmg.items()), sorted(loss.items()))


# references to the sources that come with pelicun: (source number, reference)
NAMED = {
    'damage': [('1', 'PelicunDefault/Hazus Earthquake - Transportation/fragility.csv'), ('2', 'PelicunDefault/Hazus Earthquake - Potable Water/fragility.csv'),
               ('1', 'PelicunDefault/damage_DB_Hazus_EQ_trnsp.csv'), ('1', 'PelicunDefault/fragility_DB_Hazus_EQ_trnsp.csv'),
               ('2', 'PelicunDefault/damage_DB_Hazus_EQ_water.csv'), ('3', None), ('1', 'get'), ('2', 'get')],
    'cons': [('1', 'PelicunDefault/Hazus Earthquake - Transportation/consequence_repair.csv'), ('2', 'PelicunDefault/Hazus Earthquake - Potable Water/consequence_repair.csv'),
             ('1', 'PelicunDefault/loss_repair_DB_Hazus_EQ_trnsp.csv'), ('1', 'PelicunDefault/bldg_repair_DB_Hazus_EQ_trnsp.csv'), ('3', None), ('1', 'get'), ('2', 'get')],
}
_LEG = ['damage_DB_FEMA_P58_2nd', 'fragility_DB_FEMA_P58_2nd', 'damage_DB_Hazus_EQ_bldg', 'fragility_DB_Hazus_EQ_bldg', 'loss_repair_DB_FEMA_P58_2nd',
        'bldg_repair_DB_FEMA_P58_2nd', 'loss_repair_DB_Hazus_EQ_bldg', 'bldg_repair_DB_Hazus_EQ_bldg']
OTHER = [*_LEG, 'unknown', 'method', 'power', 'nofile']


def run_named(sc, obs):
    """Sources referred to by their place in the model library or by one of their older names."""
    from pelicun import file_io
    from pelicun.assessment import Assessment

    obs.step(3)
    lib = resources() / 'DamageAndLossModelLibrary'
    if sc['of'] == 'other':
        o = OTHER[sc['src'][0]]
        a = Assessment({'PrintLog': False})
        ref = {'unknown': 'PelicunDefault/my_DB.csv', 'method': 'PelicunDefault/Unknown Method/fragility.csv', 'nofile': 'PelicunDefault/FEMA P-58/nothing.csv',
               'power': 'PelicunDefault/damage_DB_Hazus_EQ_power.csv'}.get(o, f'PelicunDefault/{o}.csv')
        if o in ('unknown', 'method'):
            try:
                file_io.substitute_default_path([ref])
            except KeyError:
                obs.check(True, 'named:unknown')
            else:
                obs.fail('named:unknown', ref)
            return
        got = file_io.substitute_default_path([ref, 'a/b.csv'])
        obs.eq(got[1], 'a/b.csv', 'named:plain')
        method = 'FEMA P-58' if 'P58' in o or o == 'nofile' else 'Hazus Earthquake - Electric Power' if o == 'power' else 'Hazus Earthquake - Buildings'
        file = 'nothing.csv' if o == 'nofile' else 'consequence_repair.csv' if 'repair' in o else 'fragility.csv'
        obs.eq(Path(got[0]), lib / paths()[method] / file, 'named:place', ref)
        if o in _LEG:
            x = a.get_default_data(o)
            y = a.get_default_data(method, file.split('.')[0])
            z = file_io.load_data(got[0], None, orientation=1, reindex=False)
            obs.check(len(x) > 0 and x.equals(y) and x.equals(z), 'named:data', ref)
        obs.state(o, str(Path(got[0]).relative_to(lib)))
        return
    kind = sc['of']
    srcs = [NAMED[kind][i] for i in sc['src']]
    w = pel.scratch('named')
    (w / 'frag.csv').write_text(dlrun._src(3)[0])
    (w / 'cons.csv').write_text(dlrun._src(3)[1])
    lev = [0.5, 1.5, 2.5, 3.5]
    known = [dlrun.src_dmg(int(k)) for k in '123']
    comps = sorted({c for t in known for c in t})
    a = Assessment({'PrintLog': False, 'Seed': 1, 'DemandOffset': {'PGA': 0}})
    a.stories = 1
    dem = flow.demand_df({'PGA-0-1': ['mps2', lev]})
    a.demand.load_sample(dem)
    a.asset.load_cmp_model({'marginals': pd.DataFrame({'Units': 'ea', 'Location': '0', 'Direction': '1', 'Theta_0': 2.0}, index=comps)})
    a.asset.generate_cmp_sample(4)
    title = {'1': SRC['1'], '2': SRC['2']}

    def given(k, name, file):
        if name is None:
            return str(w / ('frag.csv' if kind == 'damage' else 'cons.csv'))
        if name == 'get':
            return a.get_default_data(title[k], file)
        return name

    def first(tables):
        out = {}
        for t in tables:
            for k, v in t.items():
                out.setdefault(k, v)
        return out

    if kind == 'damage':
        a.damage.load_model_parameters([given(*s, 'fragility') for s in srcs], set(comps))
        want = first([dlrun.src_dmg(int(k)) for k, _ in srcs])
        a.damage.calculate()
        got = flow.cols_dict(a.damage.ds_model.ds_sample)
        obs.eq(sorted(k[0] for k in got), sorted(want), 'named:components', str(srcs))
        for k, v in got.items():
            obs.close(v, [float(x > want[k[0]]) for x in lev], 'named:state', f'{k} {srcs}')
        obs.state(srcs, sorted(want.items()))
        return
    a.damage.load_model_parameters([pd.DataFrame(
        [[0, 'Peak Ground Acceleration', 'mps2', 0, 1, 1.0]], index=[c],
        columns=pd.MultiIndex.from_tuples([('Incomplete', ''), ('Demand', 'Type'), ('Demand', 'Unit'), ('Demand', 'Offset'), ('Demand', 'Directional'), ('LS1', 'Theta_0')]))
        for c in comps], set(comps))
    a.damage.calculate()
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss.add_loss_map(pd.DataFrame({'Repair': comps}, index=comps))
    a.loss.load_model_parameters([given(*s, 'consequence_repair') for s in srcs])
    a.loss.calculate()
    want = first([dlrun.src_loss(int(k)) for k, _ in srcs])
    names = list(a.loss.ds_model.sample.columns.names)
    tot = {}
    for col, v in flow.cols_dict(a.loss.ds_model.sample).items():
        r = dict(zip(names, col))
        tot[r['loss'], r['dv']] = tot.get((r['loss'], r['dv']), 0) + np.array(v)
    want = {k: v for k, v in want.items() if v and k[0] in comps}
    obs.eq(sorted(k for k, v in tot.items() if np.any(v)), sorted(want), 'named:consequences', str(srcs))
    for k, v in want.items():
        if k in tot:
            f = 3600.0 if k[1] == 'Time' else 1.0
            obs.close(tot[k], [2.0 * v * f * (x > 1.0) for x in lev], 'named:loss', f'{k} {srcs}')
    obs.state(srcs, sorted(want.items()))


def resources():
    import pelicun

    return Path(pelicun.__file__).parent / 'resources'


def paths():
    return json.loads((resources() / 'dlml_resource_paths.json').read_text())


def table(kind, tab, rev=False):
    items = [(c, v) for c, v in zip('AB', tab) if v]
    if rev:
        items = items[::-1]
    if not items:
        return None
    if kind == 'damage':
        return flow.dmg_df({c: DMG[v] for c, v in items})
    if kind == 'cons':
        return flow.cons_df([{'id': c, 'dv': 'Cost', **CONS[v]} for c, v in items])
    return flow.lf_df([{'id': c, 'dv': 'Cost', **LFN[v]} for c, v in items])


def fresh(kind):
    lg = pel.Logged()
    a = lg.a
    a.demand.load_sample(flow.demand_df({
        'PFA-1-1': ['mps2', [0.5 + 3.5 * i for i in range(N)]], 'PFA-1-2': ['mps2', [1.0 + 2.5 * i for i in range(N)]],
        'PFA-2-1': ['mps2', [12.0 + 2.5 * i for i in range(N)]], 'PID-1-1': ['unitless', [0.006 * i for i in range(N)]],
        'PID-2-1': ['unitless', [0.06 - 0.005 * i for i in range(N)]]}))
    a.asset.load_cmp_model({'marginals': flow.marg_df([
        {'cmp': 'A', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 3.0, 'Blocks': 2},
        {'cmp': 'B', 'Units': 'EA', 'Location': '2', 'Direction': '1', 'Theta_0': 4.0, 'Blocks': 1}])})
    a.asset.generate_cmp_sample(N)
    if kind in ('cons', 'dv'):
        vals = {(c, l, '1', '0', str(s)): [float((i * s + k) % 4) for i in range(N)] for k, (c, l) in enumerate((('A', '1'), ('B', '2'))) for s in (1, 2, 3)}
        a.damage.load_sample(c16.dmg_table(vals, {'A': 'EA', 'B': 'EA'}))
    return lg


def load(a, kind, tabs, how):
    """Load parameter tables; result of the analysis."""
    tabs = [t for t in tabs if t is not None]
    groups = [tabs] if how == 'list' else [[t] for t in tabs]
    if kind == 'damage':
        for g in groups:
            a.damage.load_model_parameters(g, {'A', 'B'})
        a.damage.calculate()
        return flow.cols_dict(a.damage.ds_model.ds_sample)
    a.loss.decision_variables = ('Cost', 'Time') if kind == 'dv' else ('Cost',)
    a.loss.add_loss_map(pd.DataFrame({'Repair': ['A', 'B']}, index=['A', 'B']))
    for g in groups:
        a.loss.load_model_parameters(g)
    a.loss.calculate()
    out = {}
    for s in (a.loss.ds_model.sample, a.loss.lf_model.sample):
        if s is not None:
            out.update(flow.cols_dict(s))
    return out


def run_large(sc, obs):
    """Many components and sources; the values tell which source was used."""
    (nc, nt), sh, of = sc['size'], sc['shift'], sc['of']
    ids = [f'C.{i + 1}' for i in range(nc)]
    has = {}
    for i, c in enumerate(ids):
        if (i + sh) % 11 == 10:
            continue  # no parameters at all
        start = (5 * i + sh) % nt
        for t in range(start, nt):
            if t == start or (i + t + sh) % 3 == 0:
                inc = sc['how'] == 'list' and (i + t) % 13 == 12
                has[t, c] = (1.0 + start * 0.125 + (t - start) * 100 + i % 5, inc, 1 + (i + t) % 4)
    first = {c: min(((t, v) for (t, x), v in has.items() if x == c), default=(None, None))[1] for c in ids}
    good = {c: v for c, v in first.items() if v is not None and not v[1]}
    lfc = {c for i, c in enumerate(ids) if of == 'lf' or (of == 'mix' and i % 2)}
    tabs = []
    for t in range(nt):
        mine = [(c, has[t, c]) for c in (ids if (t + sh) % 2 else ids[::-1]) if (t, c) in has]
        if of == 'damage':
            if mine:
                tabs.append(flow.dmg_df({c: {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, **({'inc': 1} if inc else {}),
                                             'ls': [{'t0': v * (k + 1)} for k in range(m)]} for c, (v, inc, m) in mine}))
            continue
        rows = [{'id': c, 'dv': 'Cost', 'unit': 'USD_2011', **({'inc': 1} if inc else {}), 'ds': [{'t0': v * (k + 1)} for k in range(m)]} for c, (v, inc, m) in mine if c not in lfc]
        if rows:
            tabs.append(flow.cons_df(rows))
        rows = [{'id': c, 'dv': 'Cost', 'unit': 'USD_2011', **({'inc': 1} if inc else {}), 'type': 'Peak Floor Acceleration', 'dunit': 'mps2', 'offset': 1, 'fn': f'0,{v * 64}|0,64'}
                for c, (v, inc, m) in mine if c in lfc]
        if rows:
            tabs.append(flow.lf_df(rows))
    lg = pel.Logged()
    a = lg.a
    n = 8
    dem = {str(lo): [float((3 * i + 7 * lo) % 17) / 2 + 0.03 for i in range(n)] for lo in range(8)}
    loc = {c: str(1 + i % 7) for i, c in enumerate(ids)}
    a.demand.load_sample(flow.demand_df({f'PFA-{lo}-1': ['mps2', v] for lo, v in dem.items()}))
    a.asset.load_cmp_model({'marginals': flow.marg_df([{'cmp': c, 'Units': 'EA', 'Location': loc[c], 'Direction': '1', 'Theta_0': 1.0, 'Blocks': 1} for c in ids])})
    a.asset.generate_cmp_sample(n)
    groups = [tabs] if sc['how'] == 'list' else [[t] for t in tabs]
    obs.step(3 + len(groups))
    want = {}
    if of == 'damage':
        for g in groups:
            a.damage.load_model_parameters(g, set(ids))
        a.damage.calculate()
        got = {k[0]: v for k, v in flow.cols_dict(a.damage.ds_model.ds_sample).items()}
        for c, (v, _, m) in good.items():
            want[c] = [sum(x > v * (k + 1) for k in range(m)) for x in dem[loc[c]]]
    else:
        dmg = {(c, loc[c], '1', '0', str(s)): [float((i + s + j) % 4) for i in range(n)] for j, c in enumerate(ids) if c not in lfc for s in (1, 2, 3, 4)}
        if dmg:
            a.damage.load_sample(c16.dmg_table(dmg, {c: 'EA' for c in ids if c not in lfc}))
        a.loss.decision_variables = ('Cost',)
        a.loss.add_loss_map(pd.DataFrame({'Repair': ids}, index=ids))
        for g in groups:
            a.loss.load_model_parameters(g)
        a.loss.calculate()
        got = {}
        for s in (a.loss.ds_model.sample, a.loss.lf_model.sample):
            if s is not None:
                for k, v in flow.cols_dict(s).items():
                    got[k[1]] = got.get(k[1], 0.0) + np.nan_to_num(np.asarray(v, dtype=float))
        for c, (v, _, m) in good.items():
            want[c] = np.array(dem[loc[c]]) * v if c in lfc else sum(np.array(dmg[c, loc[c], '1', '0', str(s)]) * v * s for s in range(1, m + 1))
    rep = ''.join(lg.warnings().split())
    lg.close()
    obs.eq(sorted(got), sorted(want), 'large:columns', str(sc))
    for c, w in want.items():
        if c in got:
            obs.close(got[c], w, 'large:value', f'{sc} {c} {first[c]}')
    if sc['how'] == 'list':
        for c in ids:
            text = f"'{c}'" if of == 'damage' else f"('{c}','Cost')"
            obs.eq(text in rep, c not in good, 'large:report', f'{sc} {c}')
    obs.state('large', {k: np.round(v, 6) for k, v in got.items()})


def run(sc, obs):
    kind = sc['kind']
    obs.step(6)
    if kind == 'large':
        return run_large(sc, obs)
    if kind == 'config':
        return run_config(sc, obs)
    if kind == 'named':
        return run_named(sc, obs)
    if kind == 'dv':
        # first source: cells 0 (A, Cost), 1 (A, Time); second: 2, 3
        c = sc['cells']
        tabs, win = [], {}
        for t in (c[:2], c[2:]):
            rows = [{'id': 'A', 'dv': dv, **CONS[v], 'unit': 'USD_2011' if dv == 'Cost' else 'hour'} for dv, v in zip(('Cost', 'Time'), t) if v]
            for r in rows:
                win.setdefault(r['dv'], r)
            tabs.append(flow.cons_df(rows) if rows else None)
        win = {k: r for k, r in win.items() if not r.get('inc')}
        best = [flow.cons_df([win[d] for d in ('Cost', 'Time') if d in win])] if win else []
        names = [('A', 'Cost'), ('A', 'Time'), ('B', 'Cost'), ('B', 'Time')]
        missing = [n for n in names if n[0] == 'B' or n[1] not in win]
    else:
        tabs = [table(kind, t, sc.get('rev')) for t in sc['tabs']]
        win = {}
        for t in sc['tabs']:
            for comp, v in zip('AB', t):
                if v:
                    win.setdefault(comp, v)
        good = {comp: v for comp, v in win.items() if v != 'inc'}
        best = [table(kind, [good.get('A'), good.get('B')])] if good else []
        missing = [comp for comp in 'AB' if comp not in good]
    if all(t is None for t in tabs):
        obs.state(sc)
        return
    keep = [None if t is None else t.copy(deep=True) for t in tabs]
    given = tabs
    d = None
    if sc.get('file'):
        d = pel.scratch('prec')
        given = []
        for i, t in enumerate(tabs):
            if t is None:
                continue
            f = t.copy()
            f.columns = ['-'.join(x for x in col if x) for col in f.columns]
            if isinstance(f.index, pd.MultiIndex):
                f.index = ['-'.join(x) for x in f.index]
            f.index.name = 'ID'
            f.to_csv(d / f'{i}.csv')
            given.append(str(d / f'{i}.csv'))
    lg = fresh(kind)
    if not best and kind == 'damage':
        # nothing to analyse: must be reported, whatever happens next
        try:
            load(lg.a, kind, given, sc['how'])
        except Exception:  # noqa: BLE001
            pass
        obs.check('A' in lg.warnings() and 'B' in lg.warnings(), 'report:none', str(sc))
        obs.state(sc)
        lg.close()
        return
    got = load(lg.a, kind, given, sc['how'])
    rep = lg.warnings()
    flat = ''.join(rep.split())
    lg.close()
    if best:
        key = repr((kind, sorted(win.items()) if kind == 'dv' else sorted(good.items())))
        if key not in _MEMO:
            l2 = fresh(kind)
            _MEMO[key] = load(l2.a, kind, best, 'list')
            l2.close()
        want = _MEMO[key]
    else:
        want = {}
    obs.eq(sorted(got), sorted(want), 'columns', str(sc))
    for k in want:
        if k in got:
            obs.close(got[k], want[k], 'value', f'{sc} {k}', rtol=1e-9)
    for n in [('A', 'Cost'), ('A', 'Time'), ('B', 'Cost'), ('B', 'Time')] if kind == 'dv' else 'AB':
        text = f"('{n[0]}','{n[1]}')" if kind == 'dv' else f"'{n}'" if kind == 'damage' else f"('{n}','Cost')"
        if n in missing or sc['how'] == 'list':
            # (earlier calls report what is missing at that point)
            obs.eq(text in flat, n in missing, 'report', f'{sc} {n}: {rep}')
    for t, b in zip(tabs, keep):
        obs.check(t is None or (t.equals(b) and t.index.names == b.index.names), 'table-changed', str(sc))
    if d is not None:
        shutil.rmtree(d, ignore_errors=True)
    obs.state(kind, {str(k): np.round(v, 6) for k, v in got.items()})
