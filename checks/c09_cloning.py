"""Demand cloning copies exactly the requested columns."""

from __future__ import annotations

import copy
import itertools
import shutil

import numpy as np
import pandas as pd

from mc import flow, pel
from mc.lossref import U

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('one scenario = (demand data set and how it got into the model, number of sources in the request); its rows enumerate every request '
        'within the bound; states = distinct (data set, request, outcome)')
BOUND = {
    'quick': 'demand sets of 3 columns with three different units; requests with 1-3 ordered sources (existing or missing), each with every '
             'ordered list of up to 3/2/1 targets among 5 labels (the sources themselves included); 6 ways of setting up the data; '
             'tall buildings with up to 250 demands; cloning directly and during sample generation, followed by saving, re-calibrating and cloning again',
    'thorough': 'up to 3/3/2 targets per source',
}
ASSUMPTIONS = ['a request whose targets collide with one another or with a column that is kept is invalid']

SRC = ['PFA-1-1', 'PFA-10-1', 'PID-1-2', 'PFV-7-7']
NEW = ['PFA-0-1', 'SA_1.0-3-12']
UNIT = {'PFA-1-1': 'g', 'PFA-10-1': 'inps2', 'PID-1-2': 'rad'}
VAL = {'PFA-1-1': [1.5, 2.5, 4.0], 'PFA-10-1': [10.0, 20.0, 31.0], 'PID-1-2': [0.01, 0.03, 0.02]}
SETUPS = ['plain', 'reversed', 'error', 'event', 'nounit', 'model']


def lists(n):
    lab = [*SRC[:3], *NEW]
    return [list(p) for k in range(n + 1) for p in itertools.permutations(lab, k)]


def scenarios(tier):
    th = tier == 'thorough'
    for setup in SETUPS:
        for s in SRC:
            yield {'setup': setup, 'src': [s], 'n': 3}
    for setup in SETUPS if th else ('plain', 'error'):
        for p in itertools.permutations(SRC, 2):
            for k in range(0, 5 if th else 1):
                yield {'setup': setup, 'src': list(p), 'n': 3 if th else 2, 'part': [k, 5 if th else 1]}
    for p in itertools.permutations(SRC, 3):
        yield {'setup': 'plain', 'src': list(p), 'n': 2 if th else 1}
    for p in itertools.permutations(SRC[:3], 2):
        for how in ('generate', 'facade'):
            yield {'setup': 'plain', 'src': list(p), 'n': 1, 'how': how}
    for big in ((12, 3, 1), (30, 2, 12), (2, 14, 5), (110, 1, 25)):
        for k in range(6):
            for how in ('direct', 'facade', 'generate'):
                yield {'big': list(big), 'req': k, 'how': how}
    for s in SRC:
        for setup in ('plain', 'model', 'error'):
            yield {'setup': setup, 'src': [s], 'n': 2, 'how': 'generate'}
            yield {'setup': setup, 'src': [s], 'n': 1, 'how': 'twice'}


def make(setup):
    """Model with the demand data; {label: values}, {label: unit}."""
    lg = pel.Logged()
    a = lg.a
    cols = {k: [UNIT[k], VAL[k]] for k in SRC[:3]}
    unit = dict(UNIT)
    if setup == 'plain':
        a.demand.load_sample(flow.demand_df(cols))
    elif setup == 'reversed':
        a.demand.load_sample(flow.demand_df(cols, order=list(reversed(SRC[:3]))))
    elif setup == 'error':
        df = flow.demand_df({**cols, 'ERROR-0-0': ['unitless', [0, 0, 0]]})
        a.demand.load_sample(df)
    elif setup == 'event':
        a.demand.load_sample(flow.demand_df({f'1-{k}': v for k, v in cols.items()}))
    elif setup == 'nounit':
        df = flow.demand_df(cols)
        df.loc['Units', 'PFA-1-1'] = np.nan
        a.demand.load_sample(df)
        unit['PFA-1-1'] = None
    elif setup == 'model':
        idx = pd.MultiIndex.from_tuples([tuple(k.split('-')) for k in reversed(SRC[:3])])
        df = pd.DataFrame({'Units': [UNIT[k] for k in reversed(SRC[:3])], 'Family': 'deterministic',
                           'Theta_0': [VAL[k][0] for k in reversed(SRC[:3])]}, index=idx)
        a.demand.load_model({'marginals': df})
        a.demand.generate_sample({'SampleSize': 3})
    base = {}
    for k in SRC[:3]:
        f = 1.0 if unit[k] is None else U[unit[k]]
        v = [VAL[k][0]] * 3 if setup == 'model' else VAL[k]
        base[k] = np.array(v) * f
    return lg, base, unit


def expected(base, unit, req):
    """None if invalid, otherwise ({label: values}, {label: unit}, [missing])."""
    flat = [t for v in req.values() for t in v]
    if len(flat) != len(set(flat)):
        return None
    missing = [k for k in req if k not in base]
    out, ou = {}, {}
    for k in base:
        for t in req.get(k, [k]):
            if t in out:
                return None
            out[t], ou[t] = base[k], unit[k]
    return out, ou, missing


def state_of(a):
    s = a.demand.sample
    u = a.demand.user_units
    vals = {'-'.join(map(str, c)): s.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(s.columns)}
    units = {'-'.join(map(str, c)): u.iloc[i] for i, c in enumerate(u.index)}
    return len(s.columns), vals, units


def compare(obs, a, exp, sig, msg):
    out, ou, _ = exp
    n, vals, units = state_of(a)
    if not obs.check(n == len(vals) and sorted(vals) == sorted(out), f'{sig}:labels', lambda: f'{msg}: got {sorted(vals)} ({n} columns) want {sorted(out)}'):
        return
    for k in out:
        obs.close(vals[k], out[k], f'{sig}:values', f'{msg}: {k}', rtol=1e-9)
        obs.check((units.get(k) if isinstance(units.get(k), str) else None) == ou[k], f'{sig}:unit', lambda: f'{msg}: unit of {k}: {units.get(k)} want {ou[k]}')
    # as the user sees it
    s, u = a.demand.save_sample(save_units=True)
    for c in s.columns:
        k = '-'.join(map(str, c))
        f = 1.0 if ou.get(k) is None else U[ou[k]]
        if k in out:
            obs.close(s[c].to_numpy(dtype=float), out[k] / f, f'{sig}:saved', f'{msg}: saved {k}', rtol=1e-9)
            obs.check((u[c] if isinstance(u[c], str) else None) == ou[k], f'{sig}:saved-unit', f'{msg}: {k} {u[c]}')
    obs.eq(sorted('-'.join(map(str, c)) for c in s.columns), sorted(out), f'{sig}:saved-labels', msg)


def big_set(st, nd, n):
    """Demands of a tall building; every unit differs from its neighbours."""
    cols = {}
    for loc in range(st + 1):
        for d in range(1, nd + 1):
            cols[f'PFA-{loc}-{d}'] = [('g', 'inps2', 'mps2')[(loc + d) % 3], [0.5 + ((3 * i + 7 * loc + d) % 31) / 4 for i in range(n)]]
            if loc:
                cols[f'PID-{loc}-{d}'] = ['rad', [0.001 * (1 + (5 * i + 3 * loc + d) % 29) for i in range(n)]]
    return cols


def big_request(k, st, nd):
    top = str(st)
    if k == 0:  # one source, a copy for every floor
        return {'PFA-0-1': [f'PFA-{i}-{d}' for i in range(st + 1) for d in range(nd + 1, nd + 3)] + ['PFA-0-1']}
    if k == 1:  # every demand gets one copy without direction
        return {f'PID-{i}-1': [f'PID-{i}-0', f'PID-{i}-1'] for i in range(st, 0, -1)}
    if k == 2:  # every demand moves one story up
        return {f'PID-{i}-1': [f'PID-{i + 1}-1'] for i in range(1, st + 1)}
    if k == 3:  # shuffled
        return {f'PFA-{i}-1': [f'PFA-{(i * 1 + 5) % (st + 1)}-1'] for i in range(st + 1)}
    if k == 4:  # some are removed, some missing
        return {**{f'PID-{i}-1': [] for i in range(1, st + 1, 2)}, 'PFA-0-77': ['PFA-0-78'], f'PFA-{top}-1': [f'SA_{x}.5-0-1' for x in range(12)]}
    return {'PFA-1-1': ['PFA-1-1'], f'PFA-{top}-1': [f'PFA-{top}-1', f'PFA-{st + 1}-1'], 'PFA-0-1': ['PFA-0-99']}


def run_big(sc, obs):
    st, nd, n = sc['big']
    cols = big_set(st, nd, n)
    req = big_request(sc['req'], st, nd)
    keep = copy.deepcopy(req)
    base = {k: np.array(v) * U[u] for k, (u, v) in cols.items()}
    # (a later copy may take the label of a demand that is copied itself)
    exp = expected(base, {k: u for k, (u, _) in cols.items()}, req)
    if exp is None:
        moved = [t for v in req.values() for t in v]
        raise AssertionError(f'request {sc["req"]} is not valid: {moved[:5]}')
    with pel.quiet():
        lg = pel.Logged()
        try:
            a = lg.a
            df = flow.demand_df(cols)
            how = sc['how']
            if how == 'facade':
                from pelicun.assessment import DLCalculationAssessment

                d = pel.scratch('clone')
                df.to_csv(d / 'dem.csv')
                a = DLCalculationAssessment({'PrintLog': False, 'Seed': 1})
                a.calculate_demand(demand_path=d / 'dem.csv', collapse_limits=None, length_unit=None, demand_calibration=None,
                                   sample_size=n, demand_cloning=req, residual_drift_inference=None, coupled_demands=True)
                shutil.rmtree(d, ignore_errors=True)
                # (a constant that a complete analysis adds)
                a.demand.sample = a.demand.sample.drop(columns=[('ONE', '0', '1')])
            else:
                a.demand.load_sample(df)
                if how == 'generate':
                    a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
                    a.demand.generate_sample({'SampleSize': n, 'PreserveRawOrder': True, 'DemandCloning': req})
                else:
                    a.demand.clone_demands(req)
            obs.step(2)
            obs.check(req == keep, 'request-changed', f'{sc}')
            compare(obs, a, exp, 'clone', f'{sc}')
            obs.state(sc)
        finally:
            lg.close()


def run(sc, obs):
    if 'big' in sc:
        return run_big(sc, obs)
    with pel.quiet():
        lg, base, unit = make(sc['setup'])
        try:
            a = lg.a
            how = sc.get('how', 'direct')
            if how == 'facade':
                lg.close()
                return run_facade(sc, obs, base, unit)
            sample0 = a.demand.sample.copy(deep=True)
            units0 = a.demand.user_units.copy(deep=True)
            part = sc.get('part', [0, 1])
            allreq = itertools.product(lists(sc['n']), repeat=len(sc['src']))
            if how == 'generate' and sc['setup'] != 'model':
                a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
            for i, tg in enumerate(allreq):
                if i % part[1] != part[0]:
                    continue
                req = dict(zip(sc['src'], map(list, tg)))
                keep = copy.deepcopy(req)
                exp = expected(base, unit, req)
                if exp is not None and not exp[0]:
                    continue  # (a request that removes every demand)
                a.demand.sample = sample0.copy(deep=True)
                a.demand.user_units = units0.copy(deep=True)
                pos = len(lg.warnings())
                obs.step()
                try:
                    if how == 'generate':
                        cfg = {'SampleSize': 3, 'PreserveRawOrder': True, 'DemandCloning': req}
                        a.demand.generate_sample(cfg)
                    else:
                        a.demand.clone_demands(req)
                    ok = True
                except ValueError:
                    ok = False
                obs.check(req == keep, 'request-changed', lambda: f'{keep} -> {req}')
                # (an empty cloning request means no cloning)
                if exp is None:
                    obs.check(not ok, 'invalid-accepted', lambda: f'{req} gave columns {list(a.demand.sample.columns)}')
                    if how != 'generate':
                        obs.check(a.demand.sample.equals(sample0) and a.demand.user_units.equals(units0), 'invalid-changed',
                                  lambda: f'{req}: rejected request changed the data')
                    obs.state(sc['setup'], how, req, 'rejected')
                    continue
                if not obs.check(ok, 'valid-rejected', lambda: f'{req} was rejected'):
                    continue
                compare(obs, a, exp, 'clone', f'{sc["setup"]} {req}')
                w = lg.warnings()[pos:]
                if exp[2]:
                    obs.check(all(m in lg.warnings() for m in exp[2]), 'missing-not-reported', lambda: f'{req}: warning text {w!r}')
                else:
                    obs.check('cloning' not in w, 'spurious-warning', lambda: f'{req}: {w}')
                if how == 'twice':
                    follow(sc, obs, a, exp, req)
                obs.state(sc['setup'], how, req, sorted(exp[0]))
                if how == 'direct' and i % 7 == 0:
                    other(obs, a, exp, req)
        finally:
            lg.close()


def other(obs, a, exp, req):
    """The cloned demands can be used like any others."""
    out, ou, _ = exp
    if not out:
        return
    obs.step(2)
    a.demand.expand_sample('ONE', 1.0, 'unitless')
    exp2 = ({**out, 'ONE-0-1': np.ones(3)}, {**ou, 'ONE-0-1': 'unitless'}, [])
    compare(obs, a, exp2, 'expand', f'after cloning {req}')


def follow(sc, obs, a, exp, req):
    """Calibrate, generate and clone again after cloning."""
    out, ou, _ = exp
    if not out:
        return
    for second in ({t: [t, 'PGA-0-12'] for t in list(out)[:1]}, {t: ['PGA-0-1'] for t in list(out)[-1:]}):
        s, u = a.demand.sample.copy(deep=True), a.demand.user_units.copy(deep=True)
        e2 = expected(out, ou, second)
        obs.step(3)
        a.demand.clone_demands(second)
        compare(obs, a, e2, 'second', f'{req} then {second}')
        a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
        a.demand.generate_sample({'SampleSize': 3, 'PreserveRawOrder': True})
        compare(obs, a, e2, 'regenerated', f'{req} then {second}, calibrated and generated')
        a.demand.sample, a.demand.user_units = s, u


def run_facade(sc, obs, base, unit):
    from pelicun.assessment import DLCalculationAssessment

    d = pel.scratch('clone')
    flow.demand_df({k: [UNIT[k], VAL[k]] for k in SRC[:3]}).to_csv(d / 'dem.csv')
    for tg in itertools.product(lists(sc['n']), repeat=len(sc['src'])):
        req = dict(zip(sc['src'], map(list, tg)))
        exp = expected(base, unit, req)
        if exp is not None and not exp[0]:
            continue
        a = DLCalculationAssessment({'PrintLog': False, 'Seed': 1})
        keep = copy.deepcopy(req)
        obs.step()
        try:
            a.calculate_demand(demand_path=d / 'dem.csv', collapse_limits=None, length_unit=None, demand_calibration=None, sample_size=3,
                               demand_cloning=req, residual_drift_inference=None, coupled_demands=True)
            ok = True
        except ValueError:
            ok = False
        obs.check(req == keep, 'request-changed', lambda: f'{keep} -> {req}')
        if exp is None:
            obs.check(not ok, 'invalid-accepted', f'{req}')
        elif obs.check(ok, 'valid-rejected', f'{req}'):
            compare(obs, a, ({**exp[0], 'ONE-0-1': np.ones(3)}, {**exp[1], 'ONE-0-1': 'unitless'}, []), 'facade', f'{req}')
        obs.state('facade', req, exp is None)
