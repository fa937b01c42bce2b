"""Loss samples with arbitrary values, produced by the real calculation.

Damage-driven components have consequence 1 per unit of damaged quantity, so
their loss equals the quantity in the damage table; loss-function components
have the identity as loss function, so their loss equals the demand.
"""

from __future__ import annotations

import numpy as np
import pandas as pd

from mc import flow, pel
from checks import c16_ds_losses as c16

UNIT = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ', 'CO2': 'kg', 'loss': 'loss_ratio'}
# one demand type per loss-function component (default offset taken back)
DEMANDS = [('PFA', 'Peak Floor Acceleration', 'mps2', 1), ('PFV', 'Peak Floor Velocity', 'mps', 1),
           ('PID', 'Peak Interstory Drift Ratio', 'unitless', 0)]


def build(ds: dict, lf: dict, dvs, loss_map=None, factors=None, units=None, opts=None, logged=False):
    """
    ds {(cmp,loc,dir,uid,ds): values}, lf {(cmp,loc,dir): values};
    ``factors`` {(consequence, dv, ds or 'lf'): consequence per unit}.
    """
    n = len(next(iter({**ds, **lf}.values())))
    factors = factors or {}
    unit = {**UNIT, **(units or {})}
    a = pel.asmt(**(opts or {}))
    # one demand per loss function group
    cols = {'PFA-9-9': ['mps2', [0.0] * n]}
    kinds = {c: DEMANDS[i] for i, c in enumerate(sorted({k[0] for k in lf}))}
    for (c, l, d), v in lf.items():
        cols[f'{kinds[c][0]}-{l}-{d}'] = [kinds[c][2], v]
    a.demand.load_sample(flow.demand_df(cols))
    groups = sorted({k[:3] for k in ds}) + sorted(lf)
    seen = set()
    marg = []
    for c, l, d in groups:
        for u in sorted({k[3] for k in ds if k[:3] == (c, l, d)} or {'0'}):
            if (c, l, d, u) in seen:
                continue
            seen.add((c, l, d, u))
            marg.append({'cmp': c, 'Units': 'EA', 'Location': l, 'Direction': d, 'Theta_0': 1.0, 'Blocks': 1})
    a.asset.load_cmp_model({'marginals': flow.marg_df(marg)})
    a.asset.generate_cmp_sample(n)
    if ds:
        a.damage.load_sample(c16.dmg_table(ds, {k[0]: 'EA' for k in ds}))
    cmps = list(dict.fromkeys(g[0] for g in groups))
    lmap = {c: (loss_map or {}).get(c, c) for c in cmps}
    dsids = sorted({lmap[k[0]] for k in ds})
    lfids = sorted({lmap[k[0]] for k in lf})
    nds = max([int(k[4]) for k in ds] or [1])
    tabs = []
    rows = [{'id': i, 'dv': dv, 'unit': unit[dv], 'ds': [{'t0': factors.get((i, dv, str(s)), factors.get((i, dv), 1.0))} for s in range(1, max(nds, 1) + 1)]}
            for i in dsids for dv in dvs if factors.get((i, dv), 1.0) is not None]
    if rows:
        tabs.append(flow.cons_df(rows))
    rows = []
    for i in lfids:
        typ = next(kinds[c] for c in kinds if lmap[c] == i)
        for dv in dvs:
            f = factors.get((i, dv), 1.0)
            if f is not None:
                rows.append({'id': i, 'dv': dv, 'unit': unit[dv], 'type': typ[1], 'dunit': typ[2], 'offset': typ[3],
                             'fn': f'0,{2.0**20 * f!r}|0,1048576'})
    if rows:
        tabs.append(flow.lf_df(rows))
    a.loss.decision_variables = tuple(dvs)
    a.loss.add_loss_map(pd.DataFrame({'Repair': list(lmap.values())}, index=list(lmap)))
    a.loss.load_model_parameters(tabs)
    a.loss.calculate()
    return a


def agg_cols(df) -> dict:
    """Aggregated losses with flat names."""
    out = {}
    for i, c in enumerate(df.columns):
        name = '-'.join(x for x in map(str, c) if x) if isinstance(c, tuple) else str(c)
        out[name] = df.iloc[:, i].to_numpy(dtype=float)
    return out
