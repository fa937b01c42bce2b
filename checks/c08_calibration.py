"""C08: calibrated demand models reproduce the data."""

from __future__ import annotations

import copy
import itertools
import math

import numpy as np
import pandas as pd

from mc import flow, pel, ref
from mc.lossref import U

PROPERTY = 'C08'
LEVEL = 'exploration'
NAN = float('nan')
RULE = (
    'family per scope x limits and their unit per scope x added uncertainty per scope x order of the settings and of the demand columns; the '
    'calibrated marginals and correlations are compared with an own resolution of the request applied to the observed data, and '
    'samples are generated from each model for every sampling method, size and ordering option; distinct = distinct calibrated models and samples'
)
BOUND = {
    'quick': '5 demand columns of 4 types in 3 units, 18 realizations; families, limits and uncertainty as listed in checks/c08_calibration.py',
    'thorough': 'larger grids of the same dimensions',
}
ASSUMPTIONS = [
    'requests are made for all demands (ALL) and for demand types; a request for a type applies the limits and the uncertainty it does not '
    'mention from ALL, with the unit of the scope they were given in',
    'the mean of normal demands is not zero; limits are consistent with the data',
    'parameters are compared with the (separately checked, C07) maximum likelihood fit of the observations',
]
CHUNK = 8

COLS = ['PFA-1-1', 'PFA-12-1', 'PID-1-1', 'SA_1.13-0-1', 'PFV-2-10']
UNITS = {'PFA-1-1': 'g', 'PFA-12-1': 'inps2', 'PID-1-1': 'unitless', 'SA_1.13-0-1': 'g', 'PFV-2-10': 'ftps', 'SA_0.3-0-2': 'g'}
N = 18


def raw():
    """Observed demands in their own units, correlated."""
    z = [ref.phi_inv((i + 0.5) / N) for i in range(N)]
    out = {}
    for k, (c, step, r, m, s) in enumerate(
        zip(COLS, (1, 5, 7, 11, 13), (1.0, 0.8, 0.5, -0.3, 0.0), (0.6, 250.0, 0.02, 0.9, 5.0), (0.15, 60.0, 0.004, 0.2, 1.1))
    ):
        zz = [r * z[i] + math.sqrt(1 - r * r) * z[(i * step + k) % N] for i in range(N)]
        out[c] = [m + s * v * 0.95 for v in zz]
    out['SA_0.3-0-2'] = out['PFV-2-10']
    return out


LIMITS = {
    # per demand type: (lower, upper) in the unit of the first column
    'none': {},
    'tu': {'TruncateUpper': 1.4},
    'tl': {'TruncateLower': 0.01},
    'tb': {'TruncateUpper': 1.4, 'TruncateLower': 0.01},
    'cu': {'CensorUpper': 0.8},
    'cb': {'CensorUpper': 0.8, 'CensorLower': 0.3},
    'ct': {'CensorUpper': 0.8, 'TruncateUpper': 1.4},
    'trm': {'TruncateUpper': 0.75},
    'nan': {'TruncateUpper': 'NaN', 'CensorLower': ''},
    'str': {'TruncateUpper': '1.4'},
    'zero': {'TruncateLower': 0},
    'zeros': {'TruncateLower': '0', 'CensorLower': 0.0},
    'neg': {'TruncateLower': -0.25, 'TruncateUpper': 0.9},
}
FAMS = ['normal', 'lognormal', 'normal_std', 'empirical']


def scenarios(tier):
    th = tier == 'thorough'
    # families
    for fa, fp, fd in itertools.product(FAMS, [None, *FAMS], [None, 'lognormal', 'empirical']):
        yield {'k': 'cal', 'ALL': {'f': fa}, 'PFA': {'f': fp}, 'PID': {'f': fd}}
    # limits of PFA (given in g), in different units; general limits in ALL
    for fa, fp, lim, unit in itertools.product(
        FAMS, FAMS if th else ('normal', 'lognormal', 'normal_std', 'empirical'), LIMITS, (None, 'g', 'inps2')
    ):
        if lim in ('none', 'nan') and unit == 'inps2' and not th:
            continue
        if fa in ('normal_std', 'empirical') and fp != fa and not th:
            continue
        if lim == 'neg' and fp == 'lognormal':
            continue
        for every in (0, 1):
            if every and lim not in ('tb', 'none', 'cu'):
                continue
            yield {'k': 'cal', 'ALL': {'f': fa, 'every': every}, 'PFA': {'f': fp, 'lim': lim, 'unit': unit}}
    # added uncertainty
    for fa, fp, ua, up, unit in itertools.product(
        ('normal', 'lognormal', 'normal_std'), ('normal', 'lognormal', 'normal_std', 'empirical'), (None, 0, 0.2, '0.3'), (None, 0.0, 0.3, '0.1'), (None, 'g', 'ftps2')
    ):
        if ua not in (None, 0) and fa != fp and up is None:
            continue  # (a value meant for another kind of distribution)
        if unit == 'ftps2' and up is None:
            continue
        yield {'k': 'cal', 'ALL': {'f': fa, 'unc': ua}, 'PFA': {'f': fp, 'unc': up, 'unit': unit}}
    # order of the settings and columns, unknown types
    for order, cols, extra in itertools.product(range(4), range(6 if not th else 24), (0, 1)):
        yield {
            'k': 'cal', 'ALL': {'f': 'lognormal', 'every': 1}, 'PFA': {'f': 'normal', 'lim': 'tb', 'unit': 'g', 'unc': 0.1},
            'PID': {'f': 'empirical'}, 'order': order, 'cols': cols, 'extra': extra,
        }
    # spectral accelerations: requests for all periods and for one of them
    for order, sa, s1, s3, un in itertools.product(range(4), (None, 'normal', 'empirical'), (None, 'normal_std', 'lognormal', 'empirical'), (None, 'normal'), (None, 0.2)):
        if not (sa or s1 or s3) or (un and not (sa and s1) and not th):
            continue
        yield {'k': 'cal', 'ALL': {'f': 'lognormal'}, 'SA': {'f': sa, 'unit': 'g', 'unc': un}, 'SA_1.13': {'f': s1, 'unit': 'inps2', 'unc': un and '0.3'},
               'SA_0.3': {'f': s3, 'unit': 'g'}, 'PFV': {'f': s3 and 'empirical'}, 'order': order, 'cols': order, 'sa2': order != 3}
    # calibrating again
    cfgs = [
        ({'f': 'lognormal'}, {'f': None}), ({'f': 'normal'}, {'f': 'empirical'}), ({'f': 'empirical'}, {'f': 'lognormal', 'lim': 'tb'}),
        ({'f': 'normal_std', 'unc': 0.2}, {'f': 'normal', 'lim': 'cu'}), ({'f': 'empirical'}, {'f': None}),
    ]
    for seq in itertools.product(range(len(cfgs)), repeat=2):
        for mid in ('', 'generate+load', 'save'):
            yield {'k': 'again', 'seq': [cfgs[i] for i in seq], 'mid': mid}
    if th:
        for seq in itertools.product(range(len(cfgs)), repeat=3):
            yield {'k': 'again', 'seq': [cfgs[i] for i in seq], 'mid': ''}
    # generation
    for fa, fp in itertools.product(FAMS, FAMS):
        for method in ('LHS', 'LHS_midpoint', 'MonteCarlo'):
            for lim in ('none', 'tb'):
                yield {'k': 'gen', 'ALL': {'f': fa}, 'PFA': {'f': fp, 'lim': lim, 'unit': 'g'}, 'method': method,
                       'sizes': [1, 7, N, 2 * N, 5 * N + 1, 400]}


# ---------------------------------------------------------------------------
def config(sc):
    cfg = {}
    for scope in ('ALL', 'PFA', 'PID', 'SA', 'SA_1.13', 'SA_0.3', 'PFV'):
        s = sc.get(scope)
        if not s or s.get('f') is None:
            continue
        d = {'DistributionFamily': s['f']}
        u = s.get('unit')
        for k, v in LIMITS[s.get('lim', 'none')].items():
            try:
                x = float(v)
            except ValueError:
                d[k] = v
                continue
            if math.isnan(x):
                d[k] = v
                continue
            # (the limits above are in g)
            x = x * 9.80665 / (U[u] if u else 1.0)
            d[k] = str(x) if isinstance(v, str) else x
        if s.get('every'):
            d['TruncateUpper'] = 1e5
            d['Unit'] = 'cmps'
        if u:
            d['Unit'] = u
        if s.get('unc') is not None:
            d['AddUncertainty'] = s['unc']
        cfg[scope] = d
    if sc.get('extra'):
        cfg['PGV'] = {'DistributionFamily': 'normal', 'TruncateUpper': 0.001, 'Unit': 'cmps', 'AddUncertainty': 3.0}
        cfg['PF'] = {'DistributionFamily': 'empirical', 'Unit': 'cmps'}
    keys = list(cfg)
    perm = list(itertools.permutations(keys))[(sc.get('order', 0) * 7 if len(keys) < 5 else sc.get('order', 0) * 29) % math.factorial(len(keys))]
    return {k: cfg[k] for k in perm}


def cols_of(sc):
    cols = list(itertools.permutations(COLS))[(sc.get('cols', 0) * 17) % 120]
    return ['SA_0.3-0-2' if sc.get('sa2') and c == 'PFV-2-10' else c for c in cols]


def number(v):
    if v is None or (isinstance(v, str) and v.strip() in ('', 'NaN', 'nan', 'None')):
        return NAN
    return float(v)


def resolve(cfg, col):
    """What is requested for one demand."""
    out = {'CensorLower': NAN, 'CensorUpper': NAN, 'TruncateLower': NAN, 'TruncateUpper': NAN, 'inc': 0.0}
    ty = col.split('-')[0].split('_')[0]
    for scope in ('ALL', ty, col.split('-')[0] if '_' in col else None):
        s = cfg.get(scope)
        if s is None:
            continue
        f = U[s['Unit']] if s.get('Unit') else 1.0
        out['f'] = s['DistributionFamily']
        for k in ('CensorLower', 'CensorUpper', 'TruncateLower', 'TruncateUpper'):
            v = number(s.get(k))
            if not math.isnan(v):
                out[k] = v * f
        if 'AddUncertainty' in s:
            inc = number(s['AddUncertainty'])
            out['inc'] = 0.0 if math.isnan(inc) else inc * (f if s['DistributionFamily'].startswith('normal') else 1.0)
    return out


def expected(cfg, cols):
    """Reference calibration; (marginals, correlation, data kept)."""
    from pelicun import uq

    data = {c: [v * U[UNITS[c]] for v in vals] for c, vals in raw().items()}
    want = {c: resolve(cfg, c) for c in cols}
    keep = list(range(N))
    cen = 0
    for kind in ('Censor', 'Truncate'):
        good = []
        for i in keep:
            ok = True
            for c in cols:
                lo, hi = want[c][kind + 'Lower'], want[c][kind + 'Upper']
                if not math.isnan(lo) and not data[c][i] > lo:
                    ok = False
                if not math.isnan(hi) and not data[c][i] < hi:
                    ok = False
            if ok:
                good.append(i)
        if kind == 'Censor':
            cen = len(keep) - len(good)
        keep = good
    kept = {c: [data[c][i] for i in keep] for c in cols}
    fitted = [c for c in cols if want[c]['f'] != 'empirical']
    marg, rho = {}, None
    if fitted:
        th, rho = uq.fit_distribution_to_sample(
            np.array([kept[c] for c in fitted]), [want[c]['f'] for c in fitted],
            np.array([[want[c]['TruncateLower'], want[c]['TruncateUpper']] for c in fitted]), cen,
            np.array([[want[c]['CensorLower'], want[c]['CensorUpper']] for c in fitted]),
        )
        for c, t in zip(fitted, th):
            f, inc = want[c]['f'], want[c]['inc']
            if f in ('normal', 'normal_cov'):
                sd = math.hypot(t[0] * t[1], inc)
                marg[c] = (float(t[0]), sd / abs(t[0]))
            else:
                marg[c] = (float(t[0]), math.hypot(t[1], inc))
    return want, marg, rho, fitted, kept


def load(sc, seed=1, **opts):
    a = pel.asmt(Seed=seed, **opts)
    cols = cols_of(sc)
    r = raw()
    df = flow.demand_df({c: (UNITS[c], r[c]) for c in cols}, order=cols)
    a.demand.load_sample(df)
    return a, cols


def tup(c):
    return tuple(c.split('-'))


def compare(a, cfg, cols, obs, tag):
    want, marg, rho, fitted, kept = expected(cfg, cols)
    mp = a.demand.marginal_params
    obs.eq(sorted('-'.join(x) for x in mp.index), sorted(cols), f'{tag}:demands in the model')
    for c in cols:
        row = mp.loc[tup(c)]
        obs.check(row['Family'] == want[c]['f'], f'{tag}:family', lambda: f'{c}: {row["Family"]} want {want[c]["f"]}')
        for k in ('TruncateLower', 'TruncateUpper'):
            obs.close(row[k], want[c][k], f'{tag}:{k}', c, rtol=1e-9)
        if c in marg:
            obs.close([row['Theta_0'], row['Theta_1']], marg[c], f'{tag}:parameters:{want[c]["f"]}', f'{c} inc={want[c]["inc"]}', rtol=2e-3)
    emp = [c for c in cols if c not in fitted]
    if emp:
        ed = a.demand.empirical_data
        obs.check(ed is not None, f'{tag}:no empirical data')
        if ed is not None:
            obs.eq(sorted('-'.join(x) for x in ed.columns), sorted(emp), f'{tag}:empirical demands')
            for c in emp:
                if tup(c) in ed.columns:
                    obs.close(ed[tup(c)].to_numpy(), kept[c], f'{tag}:empirical values', c, rtol=1e-9)
    else:
        obs.check(a.demand.empirical_data is None, f'{tag}:empirical data without empirical demands', lambda: str(a.demand.empirical_data))
    if rho is not None:
        cr = a.demand.correlation
        obs.eq(sorted('-'.join(x) for x in cr.index), sorted(fitted), f'{tag}:correlated demands')
        ix = [tup(c) for c in fitted]
        obs.close(cr.loc[ix, ix].to_numpy(), rho, f'{tag}:correlation', rtol=2e-2, atol=1e-3)
    return want, fitted, kept


def run(sc, obs):
    with pel.quiet():
        globals()[f'run_{sc["k"]}'](sc, obs)


def run_cal(sc, obs):
    a, cols = load(sc)
    cfg = config(sc)
    cin = copy.deepcopy(cfg)
    before = a.demand.save_sample().copy()
    a.demand.calibrate_model(cfg)
    obs.step(2)
    obs.check(cfg == cin, 'cal:modifies the settings', lambda: f'{cin} -> {cfg}')
    obs.close(a.demand.save_sample().to_numpy(), before.to_numpy(), 'cal:modifies the sample', rtol=1e-12)
    compare(a, cfg, cols, obs, 'cal')
    obs.state(sc, a.demand.marginal_params, a.demand.correlation)
    a.demand.generate_sample({'SampleSize': 20})
    obs.step()
    sample_basics(a, cols, 20, obs, 'cal')


def sample_basics(a, cols, n, obs, tag):
    s, un = a.demand.save_sample(save_units=True)
    obs.eq(sorted('-'.join(x) for x in s.columns), sorted(cols), f'{tag}:demands in the sample')
    obs.check(len(s) == n, f'{tag}:size', lambda: f'{len(s)} want {n}')
    obs.eq({'-'.join(k): v for k, v in un.items()}, {c: UNITS[c] for c in cols}, f'{tag}:units')
    obs.check(bool(np.isfinite(s.to_numpy(dtype=float)).all()), f'{tag}:not finite', lambda: str(s))
    return s


def run_again(sc, obs):
    a, cols = load(sc)
    for k, (al, pf) in enumerate(sc['seq']):
        one = {'ALL': {**al}, 'PFA': {**pf, 'unit': 'g'}}
        cfg = config(one)
        a.demand.calibrate_model(copy.deepcopy(cfg))
        obs.step()
        compare(a, cfg, cols, obs, f'again:{k}')
        if sc['mid'] == 'generate+load':
            a.demand.generate_sample({'SampleSize': 30})
            r = raw()
            a.demand.load_sample(flow.demand_df({c: (UNITS[c], r[c]) for c in cols}))
            obs.step(2)
        elif sc['mid'] == 'save':
            d = pel.scratch()
            a.demand.save_model(str(d / 'm'))
            a.demand.save_sample(str(d / 's.csv'))
            obs.step(2)
        obs.state(sc, k, a.demand.marginal_params)
    b, _ = load(sc)
    b.demand.calibrate_model(copy.deepcopy(cfg))
    a.options.seed = 7
    b.options.seed = 7
    for m in (a, b):
        m.demand.generate_sample({'SampleSize': 40})
    obs.step(3)
    x, y = a.demand.save_sample(), b.demand.save_sample()
    obs.eq([list(c) for c in x.columns], [list(c) for c in y.columns], 'again:columns')
    obs.close(x.to_numpy(), y.to_numpy(), 'again:sample differs from a fresh model', rtol=1e-9)


def run_gen(sc, obs):
    a, cols = load(sc, SamplingMethod=sc['method'])
    cfg = config(sc)
    a.demand.calibrate_model(copy.deepcopy(cfg))
    want, fitted, kept = compare(a, cfg, cols, obs, 'gen')
    mp0 = a.demand.marginal_params.copy()
    emp = [c for c in cols if c not in fitted]
    for n, order in itertools.product(sc['sizes'], (None, False, True)):
        gen = {'SampleSize': n}
        if order is not None:
            gen['PreserveRawOrder'] = order
        gin = dict(gen)
        a.demand.generate_sample(gen)
        obs.step()
        obs.check(gen == gin, 'gen:modifies the settings')
        s = sample_basics(a, cols, n, obs, 'gen')
        obs.check(list(s.index) == list(range(n)), 'gen:index')
        obs.state(sc, n, order, s.iloc[0].to_numpy())
        obs.eq(a.demand.marginal_params, mp0, 'gen:changes the model')
        for c in emp:
            v = s[tup(c)].to_numpy(dtype=float) * U[UNITS[c]]
            data = np.array(kept[c])
            which = np.argmin(np.abs(v[:, None] - data[None, :]), axis=1)
            obs.close(v, data[which], 'gen:value that is not in the data', c, rtol=1e-8)
            cnt = np.bincount(which, minlength=len(data))
            if order:
                obs.eq(which.tolist(), [i % len(data) for i in range(n)], 'gen:order of the data', c)
            elif sc['method'] != 'MonteCarlo' and n % len(data) == 0:
                obs.check(set(cnt) == {n // len(data)}, 'gen:resampled unevenly', lambda: f'{c} n={n}: {cnt}')
            elif n == 400:
                obs.check(cnt.min() > 0 and cnt.max() < 6 * n / len(data), 'gen:resampled unevenly', lambda: f'{c}: {cnt}')
        if n < 400 or not fitted:
            for c in fitted:
                lim(s[tup(c)], c, want, obs)
            continue
        zs = []
        for c in fitted:
            v = s[tup(c)].to_numpy(dtype=float) * U[UNITS[c]]
            lim(s[tup(c)], c, want, obs)
            t = [float(x) for x in mp0.loc[tup(c), ['Theta_0', 'Theta_1']]]
            tr = (want[c]['TruncateLower'], want[c]['TruncateUpper'])
            u = np.array([ref.cdf(want[c]['f'], t, tr, x) for x in v])
            ks = np.max(np.abs(np.sort(u) - (np.arange(n) + 0.5) / n))
            obs.check(ks < 0.13, f'gen:distribution:{want[c]["f"]}', lambda: f'{c} KS={ks}')
            zs.append([ref.phi_inv(min(max(x, 1e-9), 1 - 1e-9)) for x in u])
        ix = [tup(c) for c in fitted]
        rho = a.demand.correlation.loc[ix, ix].to_numpy()
        if len(fitted) > 1:
            obs.close(np.corrcoef(zs), rho, 'gen:correlation of the sample', atol=0.27, rtol=0)


def lim(s, c, want, obs):
    lo, hi = want[c]['TruncateLower'], want[c]['TruncateUpper']
    v = s.to_numpy(dtype=float) * U[UNITS[c]]
    if not math.isnan(lo):
        obs.check(v.min() >= lo - 1e-9 * abs(lo), 'gen:below the truncation limit', lambda: f'{c} {v.min()} {lo}')
    if not math.isnan(hi):
        obs.check(v.max() <= hi + 1e-9 * abs(hi), 'gen:above the truncation limit', lambda: f'{c} {v.max()} {hi}')
