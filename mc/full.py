"""
One complete assessment that uses every part of the library.

Demands (observed, calibrated, generated), random component quantities with
several blocks, damage with several families, weights and a damage process,
consequences with economies of scale, loss functions, replacement.  Every
input can be given in any unit of its kind: numbers are written down in base
units here and converted by :data:`mc.lossref.U`.
"""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from mc import flow, pel, ref
from mc.lossref import uf

NRAW = 12
BASE = {
    'PFA': 'mps2', 'PID': 'unitless', 'PFV': 'mps', 'SA_1.0': 'mps2', 'limit': 'mps2',
    'A': 'm2', 'B': 'EA', 'L': 'm2', 'M': 'm', 'dA': 'mps2', 'dB': 'unitless', 'dC': 'mps2', 'dK': 'mps2',
    'cost': 'USD_2011', 'time': 'worker_day', 'carbon': 'kg', 'qA': '1 m2', 'qB': '1 EA', 'qL': '1 m2', 'qM': '1 m',
    'xL': 'mps2', 'xM': 'mps',
}
STEPS = ['demand', 'calibrate', 'generate', 'asset', 'cmp', 'dmgpar', 'dmg', 'map', 'losspar', 'loss']
DVS = ('Cost', 'Time', 'Carbon')


def units(un):
    """Unit of every input and the factor to divide base numbers by."""
    u = dict(BASE)
    u.update(un or {})
    return u


def raw_demands(un=None, n=NRAW):
    u = units(un)
    z = [ref.phi_inv((i + 0.5) / n) for i in range(n)]
    out = {}
    spec = [
        ('PFA-0-1', 3.0, 0.3), ('PFA-1-1', 4.0, 0.3), ('PFA-1-2', 3.5, 0.25), ('PFA-10-1', 6.0, 0.35), ('PFA-10-2', 5.0, 0.3),
        ('PID-1-1', 0.012, 0.4), ('PID-10-2', 0.02, 0.4), ('SA_1.0-0-1', 5.0, 0.3), ('PFV-1-1', 1.2, 0.3), ('PFV-10-1', 1.5, 0.3),
    ]
    for k, (c, m, s) in enumerate(spec):
        r = 0.7 if k else 1.0
        v = [m * math.exp(s * (r * z[i] + math.sqrt(1 - r * r) * z[(i * 5 + k) % n])) for i in range(n)]
        ty = u[c.split('-')[0]]
        out[c] = (ty, [x / uf(ty) for x in v])
    return out


def calibration(un=None):
    u = units(un)
    return {
        'ALL': {'DistributionFamily': 'lognormal', 'AddUncertainty': 0.1},
        'PFA': {'DistributionFamily': 'lognormal', 'TruncateUpper': 40.0 / uf(u['limit']), 'Unit': u['limit']},
        'PID': {'DistributionFamily': 'empirical'},
        'PFV': {'DistributionFamily': 'normal', 'AddUncertainty': 0.1 / uf('mps'), 'TruncateLower': 0.05 / uf('mps'), 'Unit': 'mps'},
    }


def marginals(un=None):
    u = units(un)
    rows = [
        {'cmp': 'A', 'Units': u['A'], 'Location': '1,10', 'Direction': '1,2', 'Theta_0': 60.0, 'Theta_1': 0.3, 'Family': 'lognormal', 'Blocks': 3},
        {'cmp': 'A', 'Units': u['A'], 'Location': '1', 'Direction': '1', 'Theta_0': 20.0, 'Theta_1': 0.2, 'Family': 'normal', 'Blocks': 1},
        {'cmp': 'B', 'Units': u['B'], 'Location': '1', 'Direction': '1', 'Theta_0': 4.0, 'Theta_1': np.nan, 'Family': np.nan, 'Blocks': 4},
        {'cmp': 'B', 'Units': u['B'], 'Location': '10', 'Direction': '2', 'Theta_0': 2.0, 'Theta_1': np.nan, 'Family': np.nan, 'Blocks': 1},
        {'cmp': 'C', 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0, 'Theta_1': np.nan, 'Family': np.nan, 'Blocks': 1},
        {'cmp': 'L', 'Units': u['L'], 'Location': '1,10', 'Direction': '1', 'Theta_0': 30.0, 'Theta_1': 45.0, 'Family': 'uniform', 'Blocks': 1,
         'TruncateLower': 31.0},
        {'cmp': 'M', 'Units': u['M'], 'Location': '10', 'Direction': '1', 'Theta_0': 12.0, 'Theta_1': 0.25, 'Family': 'lognormal', 'Blocks': 2,
         'TruncateUpper': 20.0},
        {'cmp': 'collapse', 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0, 'Theta_1': np.nan, 'Family': np.nan, 'Blocks': 1},
    ]
    for r in rows:
        f = uf(r['Units'])
        r['Theta_0'] /= f
        if r['Family'] == 'uniform':
            r['Theta_1'] /= f
        for k in ('TruncateLower', 'TruncateUpper'):
            if k in r:
                r[k] /= f
    return flow.marg_df(rows)


def damage_params(un=None):
    u = units(un)
    a, b, c, k = (uf(u[x]) for x in ('dA', 'dB', 'dC', 'dK'))
    return flow.dmg_df({
        'A': {'type': 'Peak Floor Acceleration', 'unit': u['dA'], 'offset': 1, 'dir': 1, 'ls': [
            {'f': 'lognormal', 't0': 3.5 / a, 't1': 0.4}, {'f': 'lognormal', 't0': 7.0 / a, 't1': 0.4, 'w': '0.6 | 0.4', 'hi': 20.0 / a}]},
        'B': {'type': 'Peak Interstory Drift Ratio', 'unit': u['dB'], 'offset': 0, 'dir': 1, 'ls': [
            {'f': 'normal', 't0': 0.01 / b, 't1': 0.3, 'lo': 0.002 / b}, {'f': 'normal_std', 't0': 0.03 / b, 't1': 0.006 / b}]},
        'C': {'type': 'Peak Floor Acceleration', 'unit': u['dC'], 'offset': 1, 'dir': 0, 'ls': [
            {'f': 'weibull', 't0': 6.0 / c, 't1': 3.0}]},
        'collapse': {'type': 'Spectral Acceleration|1.0', 'unit': u['dK'], 'offset': 0, 'dir': 1, 'ls': [
            {'f': 'lognormal', 't0': 8.0 / k, 't1': 0.3}]},
    })


PROCESS = {'1_collapse': {'DS1': 'ALL_NA'}, '2_B': {'DS2': ['C_DS1']}}


def loss_map():
    return pd.DataFrame({'Repair': ['repA', 'replacement']}, index=['A', 'collapse'])


def consequences(un=None):
    u = units(un)
    qa, qb = uf(u['qA']), uf(u['qB'])
    d, t, c = uf(u['cost']), uf(u['time']), uf(u['carbon'])

    def fn(y, x, fy, fx):
        return ','.join(repr(v * fy) for v in y) + '|' + ','.join(repr(v / fx) for v in x)

    # (the consequence is per quantity unit)
    return flow.cons_df([
        {'id': 'repA', 'dv': 'Cost', 'unit': u['cost'], 'q': u['qA'], 'ds': [
            {'f': 'lognormal', 't0': fn((10.0, 6.0), (20.0, 100.0), qa / d, qa), 't1': 0.4},
            {'f': 'normal', 't0': fn((25.0, 20.0), (20.0, 100.0), qa / d, qa), 't1': 0.3}, {'t0': fn((40.0, 30.0), (20.0, 100.0), qa / d, qa)}]},
        {'id': 'repA', 'dv': 'Time', 'unit': u['time'], 'q': u['qA'], 'ds': [
            {'f': 'lognormal', 't0': repr(0.1 * qa / t), 't1': 0.4}, {'f': 'lognormal', 't0': repr(0.3 * qa / t), 't1': 0.4}, {'t0': repr(0.5 * qa / t)}]},
        {'id': 'B', 'dv': 'Cost', 'unit': u['cost'], 'q': u['qB'], 'ds': [
            {'f': 'normal', 't0': repr(100.0 * qb / d), 't1': 0.2}, {'f': 'lognormal', 't0': repr(300.0 * qb / d), 't1': 0.4}]},
        {'id': 'B', 'dv': 'Carbon', 'unit': u['carbon'], 'q': u['qB'], 'ds': [{'t0': repr(5.0 * qb / c)}, {'f': 'lognormal', 't0': repr(9.0 * qb / c), 't1': 0.2}]},
        {'id': 'C', 'dv': 'Cost', 'unit': u['cost'], 'q': '1 EA', 'ds': [{'f': 'normal', 't0': repr(50.0 / d), 't1': 0.5}]},
        {'id': 'replacement', 'dv': 'Cost', 'unit': u['cost'], 'q': '1 EA', 'ds': [{'t0': repr(1.0e5 / d)}]},
        {'id': 'replacement', 'dv': 'Time', 'unit': u['time'], 'q': '1 EA', 'ds': [{'t0': repr(400.0 / t)}]},
        {'id': 'replacement', 'dv': 'Carbon', 'unit': u['carbon'], 'q': '1 EA', 'ds': [{'t0': repr(5e4 / c)}]},
    ])


def functions(un=None):
    u = units(un)
    ql, qm = uf(u['qL']), uf(u['qM'])
    d, t = uf(u['cost']), uf(u['time'])
    xl, xm = uf(u['xL']), uf(u['xM'])

    def fn(y, x, fy, fx):
        return ','.join(repr(v * fy) for v in y) + '|' + ','.join(repr(v / fx) for v in x)

    return flow.lf_df([
        {'id': 'L', 'dv': 'Cost', 'unit': u['cost'], 'q': u['qL'], 'type': 'Peak Floor Acceleration', 'dunit': u['xL'], 'offset': 1,
         'fn': fn((0.0, 3.0, 8.0, 9.0), (0.0, 4.0, 10.0, 1000.0), ql / d, xl), 'f': 'lognormal', 't1': 0.3},
        {'id': 'L', 'dv': 'Time', 'unit': u['time'], 'q': u['qL'], 'type': 'Peak Floor Acceleration', 'dunit': u['xL'], 'offset': 1,
         'fn': fn((0.0, 0.2, 0.5), (0.0, 5.0, 1000.0), ql / t, xl)},
        {'id': 'M', 'dv': 'Cost', 'unit': u['cost'], 'q': u['qM'], 'type': 'Peak Floor Velocity', 'dunit': u['xM'], 'offset': 1,
         'fn': fn((0.0, 20.0, 30.0), (0.0, 2.0, 1000.0), qm / d, xm), 'f': 'normal', 't1': 0.2},
    ])


def start(un=None, opts=None, seed=3, n=40, upto='loss', gen=None, batch=1000):
    a = pel.asmt(Seed=seed, **(opts or {}))
    for s in STEPS[: STEPS.index(upto) + 1]:
        step(a, s, un=un, n=n, gen=gen, batch=batch)
    return a


def step(a, name, un=None, n=40, gen=None, batch=1000):
    """Perform one stage of the analysis."""
    if name == 'demand':
        a.demand.load_sample(flow.demand_df(raw_demands(un)))
    elif name == 'calibrate':
        a.demand.calibrate_model(calibration(un))
    elif name == 'generate':
        a.demand.generate_sample({'SampleSize': n, **(gen or {})})
    elif name == 'asset':
        a.stories = 10
        a.asset.load_cmp_model({'marginals': marginals(un)})
    elif name == 'cmp':
        a.asset.generate_cmp_sample()
    elif name == 'dmgpar':
        a.damage.load_model_parameters([damage_params(un)], {'A', 'B', 'C', 'collapse'})
    elif name == 'dmg':
        a.damage.calculate(dmg_process=dict(PROCESS), block_batch_size=batch)
    elif name == 'map':
        a.loss.decision_variables = DVS
        a.loss.add_loss_map(loss_map(), 'fill')
    elif name == 'losspar':
        a.loss.load_model_parameters([consequences(un), functions(un)])
    elif name == 'loss':
        a.loss.calculate()
    else:
        raise KeyError(name)
    return a


def results(a) -> dict:
    """Every result that is available, in base units where the state has them."""
    out = {}
    if a.demand.sample is not None:
        out['demand'] = a.demand.sample
    if a.demand.marginal_params is not None:
        out['marginals'] = a.demand.marginal_params
    if a.asset.cmp_sample is not None:
        out['cmp'] = a.asset.cmp_sample
    if a.damage.ds_model.sample is not None:
        out['damage'] = a.damage.ds_model.sample
    for k, m in (('ds', a.loss.ds_model), ('lf', a.loss.lf_model)):
        if m.sample is not None:
            out[k] = m.sample
    return {k: v.copy() for k, v in out.items()}


def aggregate(a, **kw):
    df, ex = a.loss.aggregate_losses(future=True, **kw)
    return df, ex
