"""Loss combination tables."""

from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from mc import dlrun, flow, lossflow, pel

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = ('one scenario = (combination request, components present at each location, kind of model); its rows enumerate all pairs/triples of '
        'losses on and between the grid points of the table; states = distinct (request, aggregated outcome)')
BOUND = {
    'quick': '2 and 3 component tables (asymmetric, 3 points per axis) in every listing order; all subsets of components at 2 locations; '
             'damage-driven and loss-function components; 1-2 decision variables with own tables; losses on all grid points and cell centres; overlapping tables and rows told apart by their uid only; up to 5 components at 30 locations; the wind and flood table of configured assessments',
    'thorough': 'same, with two combination requests at once, all presence patterns for triples and several performance groups per location',
}
ASSUMPTIONS = ['losses lie within the domain of the table']

DOM = {'A': [0.0, 0.5, 1.0], 'B': [0.0, 0.25, 2.0], 'C': [0.0, 0.125, 4.0]}
PTS = {k: [v[0], (v[0] + v[1]) / 2, v[1], (v[1] + v[2]) / 2, v[2]] for k, v in DOM.items()}

# labels of locations and directions that contain each other
FAR = {'0': '0', '1': '1', '2': '11', '3': '111'}
NEAR = {'1': '1', '2': '11', '3': '111'}


def table(comps, k=0):
    """Asymmetric table over the components in the listed order."""
    doms = [np.array(DOM[c]) for c in comps]
    t = np.zeros([len(d) for d in doms])
    for i in itertools.product(*[range(len(d)) for d in doms]):
        x = {c: d[j] for c, d, j in zip(comps, doms, i)}
        s = sum(x.values())
        if sum(v > 0 for v in x.values()) > 1:
            s = s - 0.3 * x.get('A', 0) + 0.2 * x.get('B', 0) * (1 + k) + 0.05 * x.get('C', 0) * x.get('A', 1) + 0.01 * k * i[0]
        t[i] = s
    return t


def interp(doms, t, x):
    """Multilinear interpolation."""
    tot = 0.0
    pos = []
    for d, v in zip(doms, x):
        j = min(max(int(np.searchsorted(d, v, side='right')) - 1, 0), len(d) - 2)
        pos.append((j, (v - d[j]) / (d[j + 1] - d[j])))
    for corner in itertools.product((0, 1), repeat=len(doms)):
        w = 1.0
        for c, (_, f) in zip(corner, pos):
            w *= f if c else 1 - f
        if w:
            tot += w * t[tuple(j + c for c, (j, _) in zip(corner, pos))]
    return tot

DOMX = {'A': [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 4.0], 'B': [0.0, 0.5, 0.625, 2.0, 2.5], 'C': [0.0, 1.0, 2.0, 8.0], 'D': [0.0, 3.0, 4.0], 'E': [0.0, 1.0, 1.25, 1.5, 1.75, 2.0]}


def run_big(sc, obs):
    comps, n = sc['big'], 48
    dirs = ['1', '2', '11'][: sc['nd']]
    ds, lf = {}, {}
    for ci, c in enumerate(comps):
        dom = DOMX[c]
        lv = sorted({*dom, *((x + y) / 2 for x, y in zip(dom, dom[1:]))})
        for lo in range(1, sc['nl'] + 1):
            for di, d in enumerate(dirs):
                if (ci + lo + di) % 7 == 6:
                    continue
                v = [lv[((3 + ci) * i + 5 * lo + 2 * di + ci + i // 5) % len(lv)] for i in range(n)]
                if c in sc['lfc']:
                    lf[c, str(lo), d] = v
                else:
                    # the loss is split over damage states
                    ds[c, str(lo), d, '0', '1'] = [0.5 * x for x in v]
                    ds[c, str(lo), d, '0', '3'] = [0.25 * x for x in v]
                    ds[c, str(lo), d, '0', '4'] = [0.25 * x for x in v]
    ds['Z', '1', '1', '0', '1'] = [float(i % 5) for i in range(n)]
    a = lossflow.build(ds, lf, sc['dvs'], {}, {})
    tabs = {}
    for k, dv in enumerate(sc['dvs']):
        tabs[dv] = {}
        for j, o in enumerate(sc['orders']):
            doms = [DOMX[c] for c in o]
            t = np.zeros([len(x) for x in doms])
            for i in itertools.product(*[range(len(x)) for x in doms]):
                x = [dd[q] for dd, q in zip(doms, i)]
                t[i] = sum(x)
                if sum(y > 0 for y in x) > 1:
                    t[i] -= 0.1 * (1 + k + j) * max(x) - 0.03 * sum((q + 1) * p * p for q, p in enumerate(x))
            tabs[dv][tuple(o)] = t
    agg, _ = a.loss.aggregate_losses(None, tabs, future=True)
    got = lossflow.agg_cols(agg)
    for dv in sc['dvs']:
        per: dict = {}
        for k, v in [*ds.items(), *lf.items()]:
            g = per.setdefault(k[1:3], {})
            g[k[0]] = g.get(k[0], 0.0) + np.array(v)
        loc: dict = {}
        for (lo, _d), g in per.items():
            for o in sc['orders']:
                if all(c in g for c in o):
                    x = np.column_stack([g.pop(c) for c in o])
                    g['+'.join(o)] = np.array([interp([DOMX[c] for c in o], tabs[dv][tuple(o)], r) for r in x])
            for v in g.values():
                loc[lo] = loc.get(lo, 0.0) + v
        if dv == 'Time':
            obs.close(got.get('repair_time-sequential'), sum(loc.values()), 'big:sequential', str(sc))
            obs.close(got.get('repair_time-parallel'), np.max(list(loc.values()), axis=0), 'big:parallel', str(sc))
        else:
            obs.close(got.get('repair_cost'), sum(loc.values()), 'big:total', str(sc))
    obs.state('big', sc['big'], sc['orders'], {k: np.round(v, 6) for k, v in got.items()})


WF = [[round(w + f - w * f * (0.7 + 0.3 * w), 9) for f in (0.0, 0.15, 0.5, 1.0)] for w in (0.0, 0.1, 0.35, 0.6, 1.0)]
WF_LOSS = {'W': [0.05, 0.35, 0.5, 0.9], 'F': [0.15, 0.3, 0.75, 1.0], 'X': [0.2, 0.1, 0.3, 0.25]}


def run_hurricane(sc, obs):
    """An assessment set up from a configuration that asks for the wind and flood combination."""
    from pelicun.assessment import DLCalculationAssessment

    # the first two components are wind and flood
    nm = {'W': 'A.1', 'F': 'B.2'} if sc['hur'] == 'WF' else {'W': 'B.2', 'F': 'A.1'}
    nm['X'] = 'C.3'
    comps = ['W', 'F', *(['X'] if sc['third'] else [])]
    rows = list(itertools.product(range(5), range(5), (0, 1)))
    n = len(rows)
    lev = [0.5, 1.5, 2.5, 3.5, 4.5]
    typ = {'W': ('PGA', 'Peak Ground Acceleration', 'mps2'), 'F': ('PGV', 'Peak Ground Velocity', 'mps'), 'X': ('PGD', 'Permanent Ground Deformation', 'm')}
    state = {'W': np.array([r[0] for r in rows]), 'F': np.array([r[1] for r in rows]), 'X': np.array([4 * r[2] for r in rows])}
    w = pel.scratch('wf')
    at = {'W': sc['locs'], 'F': sc['locs'][0], 'X': sc['locs'][-1]}
    flow.demand_df({f'{typ[c][0]}-{l}-1': [typ[c][2], [lev[k] for k in np.roll(state[c], int(l))]] for c in 'WFX' for l in sc['locs']}).to_csv(w / 'dem.csv')
    pd.DataFrame({'Units': 'ea', 'Location': [','.join(at[c]) for c in comps], 'Direction': '1', 'Theta_0': 1.0}, index=[nm[c] for c in comps]).to_csv(w / 'CMP.csv')

    def table(df, name):
        df = df.copy()
        df.columns = ['-'.join(x for x in c if x) for c in df.columns]
        df.index = ['-'.join(x) if isinstance(x, tuple) else x for x in df.index]
        df.index.name = 'ID'
        df.to_csv(w / name)

    dem = {nm[c]: {'type': typ[c][1], 'unit': typ[c][2], 'ls': [{'t0': float(k)} for k in (1, 2, 3, 4)]} for c in comps}
    if sc['kind'] == 'ds':
        table(flow.dmg_df(dem), 'frag.csv')
        table(flow.cons_df([{'id': nm[c], 'dv': 'Cost', 'unit': 'loss_ratio', 'ds': [{'t0': x} for x in WF_LOSS[c]]} for c in comps]), 'cons.csv')
    else:
        table(flow.dmg_df({'Z': dem[nm['W']]}), 'frag.csv')
        fn = {c: ','.join(str(x) for x in (0.0, 0.0, *WF_LOSS[c], WF_LOSS[c][-1])) + '|0,0.5,1.5,2.5,3.5,4.5,9' for c in comps}
        table(flow.lf_df([{'id': nm[c], 'dv': 'Cost', 'unit': 'loss_ratio', 'type': typ[c][1], 'dunit': typ[c][2], 'fn': fn[c]} for c in comps]), 'cons.csv')
    a = DLCalculationAssessment({'PrintLog': False, 'Seed': 1, 'DemandOffset': {'PGA': 0, 'PGV': 0, 'PGD': 0}})
    a.calculate_demand(w / 'dem.csv', None, 'm', None, n, None, None, coupled_demands=True)
    a.calculate_asset(2, w / 'CMP.csv', None, None, add_irreparable_damage_columns=False)
    a.calculate_damage('m', 'None', str(w / 'frag.csv'), damage_process_approach='None')
    par = {'loss_map_path': None}
    first = ['W', 'F']
    if sc['map'] != 'auto':
        first = ['W', 'F'] if sc['map'] == 'user' else ['F', 'W']
        order = [*first, *comps[2:]]
        pd.DataFrame({'Repair': [nm[c] for c in order]}, index=[nm[c] for c in order]).to_csv(w / 'map.csv')
        par['loss_map_path'] = 'CustomDLDataFolder/map.csv'
    elif sc['hur'] == 'FW':
        first = ['F', 'W']
    agg, _ = a.calculate_loss('Automatic' if sc['map'] == 'auto' else 'User Defined', None, 'None', 'CustomDLDataFolder/cons.csv', str(w), 'Hazus Hurricane',
                              decision_variables=('Cost',), loss_combination_method='Hazus Hurricane', **par)
    obs.step(8)
    t = np.array(WF)
    tot = np.zeros(n)
    for l in sc['locs']:
        g = {}
        for c in comps:
            if l in at[c]:
                g[c] = np.array([0.0, *WF_LOSS[c]])[np.roll(state[c], int(l))]
        if 'W' in g and 'F' in g:
            x = np.column_stack([g.pop(c) for c in first])
            tot = tot + np.array([interp([t[:, 0], t[0, :]], t, r) for r in x])
        tot = tot + sum(g.values())
    got = lossflow.agg_cols(agg)
    obs.close(got.get('repair_cost'), tot, 'hurricane', str(sc))
    obs.state(sc, np.round(tot, 9).tolist())


def scenarios(tier):
    th = tier == 'thorough'
    pres2 = [p for p in itertools.product(((), ('1',), ('2',), ('1', '2')), repeat=2) if any(p)]
    for order in itertools.permutations('AB'):
        for pa, pb in pres2:
            for kind in ('ds', 'lf', 'mix'):
                for other in (0, 1):
                    yield {'orders': [list(order)], 'at': {'A': pa, 'B': pb}, 'kind': kind, 'other': other, 'dvs': ['Cost']}
        for dvs in (['Cost', 'Time'], ['Time', 'Cost']):
            for comb in (['Cost'], ['Time'], ['Cost', 'Time'], ['Time', 'Cost']):
                yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'ds', 'other': 1, 'dvs': dvs, 'comb': comb}
        yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1',)}, 'kind': 'ds', 'other': 1, 'dvs': ['Cost', 'Time'], 'comb': ['Cost', 'Time'],
               'nodv': ['B', 'Time']}
        yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'ds', 'other': 1, 'dvs': ['Cost'], 'mapped': 1}
        yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'mix', 'other': 1, 'dvs': ['Cost'], 'rep': 1}
        yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'ds', 'other': 1, 'dvs': ['Cost'], 'thr': 1}
        for kind, dirs, other, at in itertools.product(('ds', 'lf', 'mix'), (0, 1), (0, 1), (('1', '2'), ('2',))):
            yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': at}, 'kind': kind, 'other': other, 'dirs': dirs, 'dvs': ['Cost'], 'rep': 1, 'thr': 1}
        for kind in ('ds', 'lf', 'mix'):
            for dirs in (0, 1):
                yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': kind, 'other': 1, 'dvs': ['Cost'], 'far': 1, 'dirs': dirs}
        for uids in (1, 2, 3):
            yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'ds', 'other': 0, 'dvs': ['Cost'], 'uids': uids}
        yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'ds', 'other': 1, 'dvs': ['Cost'], 'dirs': 1}
        yield {'orders': [list(order)], 'at': {'A': ('1', '2'), 'B': ('1', '2')}, 'kind': 'ds', 'other': 1, 'dvs': ['Cost'], 'twods': 1}
    pats = [('1',), ('1', '2')] if not th else [('1',), ('2',), ('1', '2')]
    for order in itertools.permutations('ABC'):
        for p in itertools.product(pats, repeat=3):
            for kind in ('ds', 'mix') if th else ('mix',):
                yield {'orders': [list(order)], 'at': dict(zip('ABC', p)), 'kind': kind, 'other': 1, 'dvs': ['Cost']}
        yield {'orders': [list(order)], 'at': {'A': ('1',), 'B': ('1',)}, 'kind': 'ds', 'other': 1, 'dvs': ['Cost']}
        # two-component table next to a third component at the same place
        yield {'orders': [list(order[:2])], 'at': {'A': ('1', '2'), 'B': ('1', '2'), 'C': ('1',)}, 'kind': 'ds', 'other': 0, 'dvs': ['Cost']}
    for o1 in itertools.permutations('AB'):
        for o2 in itertools.permutations(('A2', 'B2')):
            for sw in (0, 1):
                yield {'orders': [list(o1), list(o2)][:: (-1 if sw else 1)], 'at': {'A': ('1', '2'), 'B': ('1',), 'A2': ('1', '2'), 'B2': ('2', '1')},
                       'kind': 'ds', 'other': 1, 'dvs': ['Cost', 'Time'], 'comb': ['Cost', 'Time']}
    # components listed in two tables are combined once, by the first table
    for o1, o2 in itertools.permutations([('A', 'B'), ('C', 'B'), ('B', 'A', 'C'), ('A', 'C')], 2):
        for at in ({'A': ('1', '2'), 'B': ('1', '2'), 'C': ('1',)}, {'A': ('1',), 'B': ('2', '1'), 'C': ('1', '2')}):
            for kind in ('ds', 'mix'):
                yield {'orders': [list(o1), list(o2)], 'at': at, 'kind': kind, 'other': 0, 'dvs': ['Cost']}
    # larger tables, more components, more locations and directions
    for comps, orders in (('AB', ['AB']), ('ABC', ['CA', 'BA']), ('ABCD', ['DBCA']), ('ABCDE', ['EADCB']), ('ABCDE', ['DB', 'ECA']), ('ABCDE', ['BEA', 'CD'])):
        for nl, nd in ((12, 1), (3, 3), (30, 2)):
            for lfc in ('', comps[-1:], comps[:2]):
                for dvs in (['Cost'], ['Time', 'Cost']):
                    yield {'big': comps, 'orders': [list(o) for o in orders], 'nl': nl, 'nd': nd, 'lfc': lfc, 'dvs': dvs}
    # the combination of wind and flood losses that comes with the model library
    for order, kind, mp, third, locs in itertools.product(('WF', 'FW'), ('ds', 'lf'), ('auto', 'user', 'user-swap'), (0, 1), ('0', '01', '12')):
        yield {'hur': order, 'kind': kind, 'map': mp, 'third': third, 'locs': locs}
    for bad in ('dv', 'nottuple', 'notstr', 'notarray'):
        yield {'bad': bad}


def run(sc, obs):
    from pelicun import uq

    obs.step(6)
    if 'bad' in sc:
        return run_bad(sc, obs)
    if 'big' in sc:
        return run_big(sc, obs)
    if 'hur' in sc:
        return run_hurricane(sc, obs)
    comps = sorted(sc['at'])
    base = [c for c in 'ABC' if any(x[0] == c for x in comps)]
    pts = list(itertools.product(*[PTS[c] for c in base]))
    n = len(pts)
    col = {c: np.array([p[base.index(c[0])] for p in pts]) for c in comps}
    shift = {('1', '1'): 0, ('2', '1'): 1, ('1', '2'): 2, ('2', '2'): 3}
    ds, lf = {}, {}
    for c in comps:
        for l in sc['at'][c]:
            for d in ('1', '2') if sc.get('dirs') else ('1',):
                v = np.roll(col[c], shift[l, d] * 3)
                lfkind = sc['kind'] == 'lf' or (sc['kind'] == 'mix' and c == 'A')
                if lfkind:
                    lf[c, l, d] = v.tolist()
                else:
                    for u in range(sc.get('uids', 1)):
                        if u and c == 'B' and sc['uids'] == 2:
                            continue
                        vv = np.roll(v, u)
                        if sc.get('twods'):
                            # splits the loss over two damage states
                            ds[c, l, d, str(u), '1'] = (0.25 * vv).tolist()
                            ds[c, l, d, str(u), '2'] = (0.75 * vv).tolist()
                        else:
                            ds[c, l, d, str(u), '1'] = vv.tolist()
    if sc['other']:
        ds['Z', '1', '1', '0', '1'] = np.linspace(0, 1, n).tolist()
        ds['Z', '3', '1', '0', '1'] = [2.0] * n
    if sc.get('rep'):
        ds['col', '0', '1', '0', '1'] = [float(i % 3 == 0) for i in range(n)]
    if sc.get('far'):
        ds = {(k[0], FAR[k[1]], NEAR[k[2]], *k[3:]): v for k, v in ds.items()}
        lf = {(k[0], FAR[k[1]], NEAR[k[2]]): v for k, v in lf.items()}
    lmap = {'col': 'replacement'}
    if sc.get('mapped'):
        lmap.update({'A': 'LA', 'B': 'LA'})
    fac = {('replacement', 'Cost'): 50.0}
    if 'nodv' in sc:
        fac[tuple(sc['nodv'])] = None
    if not ds:
        ds['Z', '3', '1', '0', '1'] = [2.0] * n
    a = lossflow.build(ds, lf, sc['dvs'], lmap, fac)
    req, kk = {}, {}
    for k, dv in enumerate(sc.get('comb', ['Cost'])):
        req[dv] = {}
        for j, o in enumerate(sc['orders']):
            kk[dv, j] = k + 2 * j
            req[dv][tuple(o)] = table([c[0] for c in o], kk[dv, j])
    cfg = None
    if sc.get('thr'):
        reg = uq.RandomVariableRegistry(a.options.rng)
        reg.add_RV(uq.rv_class_map('deterministic')(name='Cost', theta=np.array((10.0,))))
        cfg = (reg, {'Cost': 0.3})
    keep = {dv: {k: v.copy() for k, v in r.items()} for dv, r in req.items()}
    agg, _ = a.loss.aggregate_losses(cfg, req, future=True)
    obs.check(all(np.array_equal(keep[dv][k], req[dv][k]) for dv in keep for k in keep[dv]), 'request-changed', str(sc))
    got = lossflow.agg_cols(agg)
    repl = np.zeros(n, dtype=bool) if not sc.get('rep') else np.array(ds['col', '0', '1', '0', '1']) > 0
    for dv in sc['dvs']:
        per: dict = {}
        for k, v in list(ds.items()) + [((*k, '0', 'lf'), v) for k, v in lf.items()]:
            f = fac.get((k[0] if k[0] != 'col' else 'replacement', dv), 1.0)
            if f is None:
                continue
            x = np.array(v) * f
            if k[0] != 'col':
                x = np.where(repl, 0.0, x)
            g = per.setdefault(k[1:4], {})
            g[k[0]] = g.get(k[0], 0.0) + x
        if dv in req:
            for j, o in enumerate(sc['orders']):
                t = table([c[0] for c in o], kk[dv, j])
                for g in per.values():
                    if all(c in g for c in o):
                        doms = [DOM[c[0]] for c in o]
                        x = np.column_stack([g.pop(c) for c in o])
                        g['+'.join(o)] = np.array([interp(doms, t, r) for r in x])
        loc: dict = {}
        for (l, _d, _u), g in per.items():
            for v in g.values():
                loc[l] = loc.get(l, 0.0) + v
        tot = sum(loc.values())
        if cfg is not None:
            tot = np.where((tot > 3.0) & ~repl, 10.0, tot)
        if dv == 'Time':
            obs.close(got.get('repair_time-sequential'), tot, 'sequential', str(sc))
            obs.close(got.get('repair_time-parallel'), np.max(list(loc.values()), axis=0), 'parallel', str(sc))
        else:
            obs.close(got.get('repair_cost'), tot, 'total', str(sc))
    obs.state(sc['orders'], sc.get('comb'), {k: np.round(v, 6) for k, v in got.items()})


def run_bad(sc, obs):
    a = lossflow.build({('A', '1', '1', '0', '1'): [1.0, 0.5], ('B', '1', '1', '0', '1'): [1.0, 0.5]}, {}, ('Cost',))
    t = table('AB')
    req = {'dv': {'Time': {('A', 'B'): t}}, 'nottuple': {'Cost': {'AB': t}}, 'notstr': {'Cost': {('A', 1): t}},
           'notarray': {'Cost': {('A', 'B'): t.tolist()}}}[sc['bad']]
    try:
        a.loss.aggregate_losses(None, req, future=True)
    except (ValueError, TypeError):
        obs.check(True, 'bad')
    else:
        obs.fail('bad:accepted', str(sc))
    obs.state(sc)
