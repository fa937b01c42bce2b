"""Small workflow builders on the public API (every scenario is plain JSON)."""

from __future__ import annotations

import zlib

import numpy as np
import pandas as pd

from mc import pel

NAN = float('nan')


# -- inputs --------------------------------------------------------------
def demand_df(cols: dict, order=None) -> pd.DataFrame:
    """{'PFA-1-1': [unit, [values]]} -> demand sample with a Units row."""
    keys = list(cols) if order is None else order
    n = len(next(iter(cols.values()))[1])
    df = pd.DataFrame(index=['Units', *range(n)], columns=keys, dtype=object)
    for k in keys:
        u, v = cols[k]
        df[k] = [u, *[float(x) for x in v]]
    return df


MCOLS = ('Units', 'Location', 'Direction', 'Theta_0', 'Theta_1', 'Family', 'Blocks', 'TruncateLower', 'TruncateUpper')


def marg_df(rows: list) -> pd.DataFrame:
    """[{'cmp':..., 'Units':..., ...}] -> component marginals table."""
    cols = [c for c in MCOLS if any(c in r for r in rows)]
    df = pd.DataFrame(
        [[r.get(c, NAN) for c in cols] for r in rows],
        index=[r['cmp'] for r in rows], columns=cols, dtype=object,
    )
    for c in ('Theta_0', 'Theta_1', 'Blocks', 'TruncateLower', 'TruncateUpper'):
        if c in df:
            df[c] = df[c].astype(float)
    return df


def dmg_df(cmps: dict) -> pd.DataFrame:
    """
    Damage parameters.

    {'C': {'type':'Peak Floor Acceleration','unit':'mps2','offset':0,'dir':1,
           'inc':0, 'ls':[{'f':family,'t0':..,'t1':..,'w':weights,'lo':,'hi':}],
           'expr':..., 'terms':[{'type','offset','dir'}...] }}
    """
    cols: list = []
    recs: list[dict] = []

    def put(rec, key, val):
        if key not in cols:
            cols.append(key)
        rec[key] = val

    for c in cmps.values():
        rec: dict = {}
        put(rec, ('Demand', 'Directional'), c.get('dir', 1))
        put(rec, ('Demand', 'Offset'), c.get('offset', 0))
        put(rec, ('Demand', 'Type'), c['type'])
        put(rec, ('Demand', 'Unit'), c['unit'])
        if c.get('expr') is not None:
            put(rec, ('Demand', 'Expression'), c['expr'])
        for i, t in enumerate(c.get('terms', []), start=2):
            put(rec, (f'Demand{i}', 'Type'), t['type'])
            put(rec, (f'Demand{i}', 'Offset'), t.get('offset', 0))
            put(rec, (f'Demand{i}', 'Directional'), t.get('dir', 1))
            put(rec, (f'Demand{i}', 'Unit'), t.get('unit', c['unit']))
        put(rec, ('Incomplete', ''), c.get('inc', 0))
        for i, ls in enumerate(c['ls'], start=1):
            if ls is None:
                continue
            put(rec, (f'LS{i}', 'Family'), ls.get('f', NAN))
            put(rec, (f'LS{i}', 'Theta_0'), ls['t0'])
            put(rec, (f'LS{i}', 'Theta_1'), ls.get('t1', NAN))
            put(rec, (f'LS{i}', 'DamageStateWeights'), ls.get('w', NAN))
            if 'lo' in ls:
                put(rec, (f'LS{i}', 'TruncateLower'), ls['lo'])
            if 'hi' in ls:
                put(rec, (f'LS{i}', 'TruncateUpper'), ls['hi'])
        recs.append(rec)
    df = pd.DataFrame(
        [[r.get(c, NAN) for c in cols] for r in recs],
        index=list(cmps), columns=pd.MultiIndex.from_tuples(cols), dtype=object,
    )
    for c in cols:
        if c[1] not in {'Family', 'DamageStateWeights', 'Type', 'Unit', 'Expression'}:
            try:
                df[c] = df[c].astype(float)
            except ValueError:
                pass
    return df


def cons_df(rows: list) -> pd.DataFrame:
    """
    Consequence (DS-driven) parameters.

    [{'id','dv','unit','q','ds':[{'f','t0','t1'}], 'inc'}]
    """
    cols: list = []
    recs = []

    def put(rec, key, val):
        if key not in cols:
            cols.append(key)
        rec[key] = val

    for r in rows:
        rec: dict = {}
        put(rec, ('Incomplete', ''), r.get('inc', 0))
        put(rec, ('DV', 'Unit'), r['unit'])
        put(rec, ('Quantity', 'Unit'), r.get('q', '1 EA'))
        ds = r['ds']
        items = ds.items() if isinstance(ds, dict) else [(str(i), d) for i, d in enumerate(ds, start=1)]
        for i, d in items:
            if d is None:
                continue
            put(rec, (f'DS{i}', 'Family'), d.get('f', NAN))
            put(rec, (f'DS{i}', 'Theta_0'), d['t0'])
            put(rec, (f'DS{i}', 'Theta_1'), d.get('t1', NAN))
        recs.append(rec)
    idx = pd.MultiIndex.from_tuples([(r['id'], r['dv']) for r in rows], names=['Loss Driver', 'Decision Variable'])
    df = pd.DataFrame(
        [[r.get(c, NAN) for c in cols] for r in recs],
        index=idx, columns=pd.MultiIndex.from_tuples(cols), dtype=object,
    )
    for c in cols:
        if c[1] in {'Theta_0', 'Theta_1', ''}:
            try:
                df[c] = df[c].astype(float)
            except ValueError:
                pass
    return df


def lf_df(rows: list) -> pd.DataFrame:
    """
    Loss functions.

    [{'id','dv','unit','q','type','dunit','offset','dir','fn':'y|x','f','t1'}]
    """
    cols = [('Demand', 'Directional'), ('Demand', 'Offset'), ('Demand', 'Type'), ('Demand', 'Unit'),
            ('DV', 'Unit'), ('Quantity', 'Unit'), ('LossFunction', 'Family'), ('LossFunction', 'Theta_0'),
            ('LossFunction', 'Theta_1')]
    recs = [[float(r.get('dir', 1)), float(r.get('offset', 0)), r['type'], r['dunit'], r['unit'], r.get('q', '1 EA'),
             r.get('f', NAN), r['fn'], r.get('t1', NAN)] for r in rows]
    if any('inc' in r for r in rows):
        cols.append(('Incomplete', ''))
        recs = [[*x, r.get('inc', 0)] for x, r in zip(recs, rows)]
    idx = pd.MultiIndex.from_tuples([(r['id'], r['dv']) for r in rows], names=['Loss Driver', 'Decision Variable'])
    df = pd.DataFrame(recs, index=idx, columns=pd.MultiIndex.from_tuples(cols), dtype=object)
    for c in cols:
        if c[1] in {'Directional', 'Offset', 'Theta_1'}:
            df[c] = df[c].astype(float)
    return df


# -- workflow --------------------------------------------------------------
def failed_rows(df):
    """Every second demand sample comes with failed simulations, which are dropped on loading."""
    n = len(df) - 1
    if zlib.crc32(repr((list(df.columns), n)).encode()) % 2 or n < 2:
        return df
    at = sorted({0, n // 2, n - 1})
    rows = [df.iloc[[0]]]
    for i in range(n):
        rows.append(df.iloc[[i + 1]].assign(**{'ERROR-0-0': 0.0}))
        if i in at:
            rows.append((df.iloc[[i + 1]] * 3.0).assign(**{'ERROR-0-0': 1.0}))
    out = pd.concat(rows)
    out.index = ['Units', *range(len(out) - 1)]
    out.loc['Units', 'ERROR-0-0'] = NAN
    return out[['ERROR-0-0', *df.columns]] if n % 2 else out


def start(demands: dict, marginals, opts=None, n=None, order=None):
    """Assessment with a demand sample and a component sample."""
    a = pel.asmt(**(opts or {}))
    a.demand.load_sample(failed_rows(demand_df(demands, order)))
    df = marginals if isinstance(marginals, pd.DataFrame) else marg_df(marginals)
    a.asset.load_cmp_model({'marginals': df})
    a.asset.generate_cmp_sample(n)
    return a


def damage(a, params, process=None, batch=1000, scaling=None, warn=True):
    """Load damage parameters (list of tables) and calculate."""
    tabs = params if isinstance(params, list) else [params]
    tabs = [t if isinstance(t, pd.DataFrame) else dmg_df(t) for t in tabs]
    a.damage.load_model_parameters(tabs, set(a.asset.list_unique_component_ids()), warn_missing=warn)
    kw = {}
    if process is not None:
        kw['dmg_process'] = process
    if scaling is not None:
        kw['scaling_specification'] = scaling
    a.damage.calculate(block_batch_size=batch, **kw)
    return a


def cols_dict(df: pd.DataFrame) -> dict:
    """{column tuple: np array}."""
    return {tuple(str(x) for x in c) if isinstance(c, tuple) else str(c): df.iloc[:, i].to_numpy(dtype=float)
            for i, c in enumerate(df.columns)}


def loss_setup(a, dvs, loss_map, tables, policy=None):
    """Loss map {'cmp': id} or frame or None, parameter tables."""
    a.loss.decision_variables = tuple(dvs)
    if isinstance(loss_map, dict):
        loss_map = pd.DataFrame({'Repair': list(loss_map.values())}, index=list(loss_map))
    a.loss.add_loss_map(loss_map, policy)
    a.loss.load_model_parameters(tables)
    return a
