"""C04: samples follow the specified, possibly truncated, distribution."""

import itertools

import numpy as np

from mc import ref

PROPERTY = 'C04'
LEVEL = 'exploration'
NAN = float('nan')
RULE = (
    'every distribution family x parameter pair x truncation pattern x probability grid point; '
    'each real quantile/CDF evaluation is compared with a textbook CDF (erf/exp) and its bisection inverse; '
    'distinct = distinct (scenario, output vector)'
)
BOUND = 'families, parameters, limits and probability grids listed in checks/c04_distributions.py, full product; tables of up to 60 points, 101 observed values, 20 categories'
ASSUMPTIONS = ['truncation limits leave at least 1e-6 probability mass; probabilities lie in (0,1)']

US_Q = [1e-6, 1e-3, 0.01, 0.05, 0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6]

THETA = {
    'normal': [(10.0, 0.2), (-10.0, 0.2), (0.5, 1.5), (-0.003, 0.4), (200.0, 0.01), (1e-5, 0.4), (-3e6, 0.7)],
    'normal_cov': [(10.0, 0.2), (-10.0, 0.2), (3.0, 0.9), (2e-5, 1.1), (4e7, 0.3)],
    'normal_std': [(0.0, 1.0), (10.0, 2.0), (-10.0, 2.0), (1.0, 5.0), (1e-4, 2e-5), (0.0, 3e-7), (5e6, 2e6), (-1e-5, 1e-5)],
    'lognormal': [(1.0, 0.5), (0.02, 0.4), (50.0, 1.2), (3.0, 0.01), (1e-6, 0.5), (0.002, 1.5), (3e7, 0.8), (1.0, 3.0)],
    'uniform': [(0.0, 1.0), (-2.0, 3.0), (5.0, 5.5), (-8.0, -4.0), (-1e-6, 2e-6), (1e6, 4e6)],
    'weibull': [(1.0, 1.0), (2.0, 0.7), (5.0, 3.0), (100.0, 2.0), (1e-5, 2.0), (3e6, 1.4), (2.0, 12.0)],
}
PTS = [
    ((0.0, 0.0), (1.0, 1.0)),
    ((0.0, 0.0), (1.0, 0.2), (2.0, 0.3), (3.0, 0.8), (4.0, 1.0)),
    ((-3.0, 0.0), (-1.0, 0.9), (5.0, 1.0)),
    ((100.0, 0.0), (100.5, 0.01), (300.0, 1.0)),
    *(tuple((float(i * i), round(i / (n - 1), 6)) for i in range(n)) for n in (3, 4, 6, 7, 8, 9, 10, 12, 16, 25, 60)),
]
EMP = [(1.0,), (1.0, 2.0), (3.0, 1.0, 2.0), (5.0, 5.0, 7.0, -1.0), *(tuple(float((i - 2) ** 2) for i in range(n)) for n in (6, 7, 10, 11, 20, 33, 101))]
MULTI = [(1.0,), (0.5, 0.5), (0.2, 0.3, 0.5), (0.0, 1.0), (1.0, 0.0), (0.1, 0.0, 0.9), (0.2, 0.3), (0.25, 0.25, 0.25, 0.25), *(tuple(2 * (i + 1) / (n * (n + 1)) for i in range(n)) for n in (5, 6, 9, 10, 11, 12, 20))]


def tr_set(dist, theta, tier):
    """Truncation patterns placed at quantiles of the base distribution and outside its support."""
    q = {p: ref.quantile(dist, theta, None, p) for p in (0.02, 0.2, 0.5, 0.7, 0.97)}
    lows = [NAN, q[0.02], q[0.2], q[0.5]]
    highs = [NAN, q[0.7], q[0.97]]
    if dist in {'lognormal', 'weibull'}:
        lows += [0.0, -1.0]
    if dist == 'uniform':
        w = theta[1] - theta[0]
        lows += [theta[0] - w]
        highs += [theta[1] + w]
    if tier != 'quick':
        lows += [ref.quantile(dist, theta, None, p) for p in (1e-4, 0.1, 0.35, 0.6)]
        highs += [ref.quantile(dist, theta, None, p) for p in (0.61, 0.8, 0.9, 0.9999)]
    for lo, hi in itertools.product(lows, highs):
        yield (lo, hi)


def scenarios(tier):
    out = []
    for dist, thetas in THETA.items():
        for th in thetas:
            for tr in tr_set(dist, th, tier):
                out.append({'k': 'marginal', 'dist': dist, 'theta': th, 'tr': [None if ref.isnan(v) else v for v in tr]})
        if dist not in {'uniform', 'weibull'}:
            for trk in range(4):
                for n in (1, 2, 3, len(thetas) * 4):
                    out.append({'k': 'variable', 'dist': dist, 'n': n, 'trk': trk})
    for p in PTS:
        out.append({'k': 'multilinear', 'theta': p})
    for e in EMP:
        out.append({'k': 'empirical', 'theta': e})
        for n in (1, 2, 3, 5, 10, 11, 23):
            out.append({'k': 'coupled', 'theta': e, 'n': n})
    step = 20 if tier == 'quick' else 40
    grids = {2: step, 3: step, 4: 10}
    for m in MULTI:
        out.append({'k': 'multinomial', 'theta': m})
    # every probability vector on a 1/step lattice that sums to exactly one
    for parts, st in grids.items():
        for c in itertools.product(range(1, st + 1), repeat=parts - 1):
            r = st - sum(c)
            if r >= 1:
                out.append({'k': 'multinomial', 'theta': tuple(round(x / st, 4) for x in (*c, r))})
    for v in (0.0, 1.0, -3.5, 1e6):
        for n in (1, 2, 7):
            out.append({'k': 'deterministic', 'theta': v, 'n': n})
    for n in (1, 2, 3, 12):
        for sh in range(3):
            out.append({'k': 'deterministic-rows', 'n': n, 'sh': sh})
    for d in ('normal_std', 'lognormal', 'uniform', 'weibull', 'deterministic', 'empirical', 'multilinear_CDF', 'coupled_empirical', 'multinomial'):
        out.append({'k': 'fmap', 'dist': d})
    for d in ('multilinear_CDF', 'empirical', 'deterministic', 'multinomial', 'coupled_empirical'):
        out.append({'k': 'notrunc', 'dist': d})
    for i in range(len(BAD)):
        out.append({'k': 'bad', 'i': i})
    return out


BAD = [
    ('unknown', (1.0, 1.0), None),
    ('normal', (0.0, 0.1), None),
    ('multinomial', (0.7, 0.7), None),
    ('multilinear_CDF', ((0.0, 0.1), (1.0, 1.0)), None),
    ('multilinear_CDF', ((0.0, 0.0), (1.0, 0.9)), None),
    ('multilinear_CDF', ((1.0, 0.0), (0.0, 1.0)), None),
    ('multilinear_CDF', ((0.0, 0.0), (0.0, 0.5), (1.0, 1.0)), None),
    ('multilinear_CDF', ((0.0, 0.0), (0.5, 0.7), (0.7, 0.5), (1.0, 1.0)), None),
    ('multilinear_CDF', ((0.0, 0.0), (0.5, 0.5), (0.7, 0.5), (1.0, 1.0)), None),
    ('normal_std', (0.0, 1.0), (50.0, 60.0)),
    ('normal_std', (0.0, 1.0), (2.0, 1.0)),
    ('lognormal', (1.0, 0.1), (1e9, 1e12)),
    ('weibull', (1.0, 1.0), (1e9, 1e12)),
]


def make(dist, theta, tr=None, **kw):
    from pelicun import uq

    cls = uq.rv_class_map(dist)
    if tr is not None:
        kw['truncation_limits'] = np.array([NAN if ref.isnan(v) else v for v in tr], dtype=float)
    return cls(name='x', theta=np.array(theta, dtype=float), **kw)


def run(sc, obs):
    from pelicun import uq

    k = sc['k']
    us = np.array(US_Q)
    if k == 'marginal':
        dist, th, tr = sc['dist'], sc['theta'], sc['tr']
        trn = None if tr == [None, None] else tr
        rv = make(dist, th, trn)
        u0 = us.copy()
        x = np.asarray(rv.inverse_transform(us))
        obs.step()
        obs.eq(us, u0, f'mutates-input:{dist}', 'inverse_transform changed its argument')
        obs.check(x.shape == us.shape, f'shape:{dist}', x.shape)
        want_u = np.array([ref.cdf(dist, th, trn, float(v)) for v in x])
        obs.check(np.all(np.isfinite(x)), f'quantile:{dist}', f'non-finite sample {x}')
        obs.close(want_u, us, f'quantile:{dist}', f'F(Q(u)) theta={th} tr={tr} x={x}', rtol=0, atol=2e-7)
        want_x = np.array([ref.quantile(dist, th, trn, float(u)) for u in us])
        scale = float(np.ptp(want_x)) or 1.0
        obs.close(x[2:-2], want_x[2:-2], f'quantile:{dist}', f'theta={th} tr={tr}', rtol=1e-6, atol=1e-6 * scale)
        a, b = ref.limits(tr)
        obs.check(np.all((x >= a - 1e-9 * scale) & (x <= b + 1e-9 * scale)), f'outside-limits:{dist}', f'{x} not in [{a},{b}]')
        obs.check(np.all(np.diff(x) >= -1e-9 * scale), f'monotone:{dist}', x)
        # CDF, inside and outside the support
        pts = np.concatenate([want_x, [want_x[0] - scale, want_x[-1] + scale, a - 1 if a != -ref.INF else -1.0, b + 1 if b != ref.INF else 1e3, 0.0, -5.0]])
        p0 = pts.copy()
        got = np.asarray(rv.cdf(pts))
        obs.step()
        obs.eq(pts, p0, f'mutates-input:{dist}', 'cdf changed its argument')
        obs.close(got, [ref.cdf(dist, th, trn, float(v)) for v in pts], f'cdf:{dist}', f'theta={th} tr={tr} at {pts}', rtol=0, atol=1e-7)
        obs.state(dist, th, tr, x)
        # same thing through the registry
        reg = uq.RandomVariableRegistry(np.random.default_rng(3))
        rv2 = make(dist, th, trn)
        reg.add_RV(rv2)
        reg.generate_sample(8, 'LHS_midpoint')
        obs.step()
        s = np.sort(reg.RV_sample['x'])
        obs.close([ref.cdf(dist, th, trn, float(v)) for v in s], (np.arange(8) + 0.5) / 8, f'registry:{dist}', f'theta={th} tr={tr}', rtol=0, atol=2e-7)
    elif k == 'variable':
        dist = sc['dist']
        base = THETA[dist]
        n = sc['n']
        rows = [base[i % len(base)] for i in range(n)]
        u = np.array([US_Q[2 + (5 * i) % 11] for i in range(n)])
        if sc['trk'] == 0:
            tr, trs = None, [None] * n
        elif sc['trk'] == 1:  # per realization limits
            trs = [(ref.quantile(dist, r, None, 0.2), ref.quantile(dist, r, None, 0.9)) for r in rows]
            tr = np.array(trs)
        elif sc['trk'] == 2:
            trs = [(ref.quantile(dist, r, None, 0.1), NAN) if i % 2 else (NAN, ref.quantile(dist, r, None, 0.8)) for i, r in enumerate(rows)]
            tr = np.array(trs)
        else:  # one pair of limits for all rows: keep parameters identical enough to leave mass
            rows = [base[0]] * n
            lim = (ref.quantile(dist, base[0], None, 0.3), NAN)
            trs = [lim] * n
            tr = np.array(lim)
        th = np.array(rows)
        th0 = th.copy()
        cls = uq.rv_class_map(dist)
        rv = cls(name='x', theta=th, truncation_limits=tr)
        x = np.asarray(rv.inverse_transform(u))
        obs.step()
        want = [ref.quantile(dist, r, t, float(v)) for r, t, v in zip(rows, trs, u)]
        obs.close(x, want, f'variable-parameters:{dist}', f'rows={rows} tr={trs}', rtol=1e-6, atol=1e-9 * min(1.0, max(abs(w) for w in want)))
        got = np.asarray(rv.cdf(np.array(want)))
        obs.step()
        obs.close(got, u, f'variable-cdf:{dist}', f'rows={rows}', rtol=0, atol=1e-7)
        obs.eq(th, th0, f'mutates-theta:{dist}')
        obs.check(rv.constant_parameters() is False, f'variable-flag:{dist}')
        if n > 1:
            try:
                rv.inverse_transform(np.array([0.5] * (n + 1)))
                obs.fail(f'variable-length:{dist}', 'wrong number of realizations accepted')
            except ValueError:
                pass
        obs.state(dist, rows, x)
    elif k == 'multilinear':
        th = sc['theta']
        rv = make('multilinear_CDF', th)
        u = np.concatenate([[0.0, 1.0], us, [y for _, y in th]])
        u0 = u.copy()
        x = np.asarray(rv.inverse_transform(u))
        obs.step()
        obs.eq(u, u0, 'mutates-input:multilinear')
        want = [th[0][0] if v <= 0 else th[-1][0] if v >= 1 else ref.quantile('multilinear_CDF', th, None, float(v)) for v in u]
        obs.close(x, want, 'quantile:multilinear', th, rtol=1e-8, atol=1e-8)
        p = np.array([th[0][0] - 1, th[-1][0] + 1, *[v for v, _ in th], *x])
        obs.close(rv.cdf(p), [ref.base_cdf('multilinear_CDF', th, float(v)) for v in p], 'cdf:multilinear', th)
        obs.state('ml', th, x)
    elif k == 'empirical':
        th = sc['theta']
        rv = make('empirical', th)
        n = len(th)
        u = np.array(sorted({*US_Q, *[(i + 0.5) / n for i in range(n)], *[i / n + 1e-9 for i in range(n)], 0.0}))
        u0 = u.copy()
        x = rv.inverse_transform(u)
        obs.step()
        obs.eq(u, u0, 'mutates-input:empirical')
        obs.eq(x, [ref.empirical(th, float(v)) for v in u], 'empirical', str(th))
        obs.state('emp', th, x)
    elif k == 'coupled':
        th, n = sc['theta'], sc['n']
        rv = make('coupled_empirical', th)
        x = rv.inverse_transform(n)
        obs.step()
        obs.eq(x, [th[i % len(th)] for i in range(n)], 'coupled', str(sc))
        obs.state('cpl', th, n, x)
    elif k == 'multinomial':
        th = sc['theta']
        rv = make('multinomial', th)
        cum = np.cumsum(th)
        edges = [c for c in cum[:-1]]
        u = np.array(sorted({*US_Q, *[c + 1e-6 for c in edges if c + 1e-6 < 1], *[c - 1e-6 for c in edges if c > 1e-6]}))
        u0 = u.copy()
        x = np.asarray(rv.inverse_transform(u))
        obs.step()
        obs.eq(u, u0, 'mutates-input:multinomial', 'inverse_transform changed its argument')
        want = []
        for v in u0:
            j = 0
            while j < len(th) - 1 and not v < cum[j]:
                j += 1
            want.append(j)
        obs.eq(x, want, 'multinomial', str(th))
        reg = uq.RandomVariableRegistry(np.random.default_rng(5))
        rv2 = make('multinomial', th)
        reg.add_RV(rv2)
        n = 40
        reg.generate_sample(n, 'LHS_midpoint')
        obs.step()
        # category j is used for exactly the stratified share of realizations
        uu = (np.arange(n) + 0.5) / n
        cnt = [0] * len(th)
        for v in uu:
            j = 0
            while j < len(th) - 1 and not v < cum[j]:
                j += 1
            cnt[j] += 1
        s = reg.RV_sample['x']
        near = any(np.min(np.abs(uu - c)) < 1e-9 for c in cum[:-1])
        if not near:
            obs.eq([int(np.sum(s == j)) for j in range(len(th))], cnt, 'multinomial-frequencies', str(th))
        obs.check(np.all((rv2.uni_sample >= 0) & (rv2.uni_sample <= 1)), 'mutates-input:multinomial', 'controlling uniform sample left [0,1]')
        obs.state('mn', th, x)
    elif k == 'deterministic':
        rv = make('deterministic', [sc['theta']])
        x = rv.inverse_transform(sc['n'])
        obs.step()
        obs.eq(x, [sc['theta']] * sc['n'], 'deterministic')
        rv = uq.rv_class_map(NAN)(name='y', theta=np.array([sc['theta'], NAN, NAN]))
        obs.eq(rv.inverse_transform(sc['n']), [sc['theta']] * sc['n'], 'deterministic', 'missing family')
        obs.state('det', sc)
    elif k == 'deterministic-rows':
        # a value for each realization, in the order of the realizations
        n = sc['n']
        v = [float((7 * i + 3 * sc['sh']) % 13) - 4.0 for i in range(n)]
        th = np.array([[x, NAN] for x in v]) if sc['sh'] != 1 else np.array([[x] for x in v])
        th0 = th.copy()
        rv = uq.rv_class_map('deterministic')(name='x', theta=th)
        x = rv.inverse_transform(n)
        obs.step()
        obs.eq(np.asarray(x, dtype=float), v, 'deterministic', str(sc))
        obs.eq(th, th0, 'mutates-theta:deterministic')
        reg = uq.RandomVariableRegistry(np.random.default_rng(3))
        reg.add_RV(uq.rv_class_map('deterministic')(name='y', theta=th))
        reg.generate_sample(n, 'LHS')
        obs.step()
        obs.eq(np.asarray(reg.RV_sample['y'], dtype=float), v, 'deterministic', str(sc))
        obs.state('detrows', sc, x)
    elif k == 'fmap':
        d = sc['dist']
        th = {'multilinear_CDF': PTS[1], 'empirical': EMP[2], 'coupled_empirical': EMP[2], 'deterministic': [4.0], 'multinomial': MULTI[2]}.get(d) or THETA[d][1]
        out = []
        for f in (None, lambda v: 2.0 * v + 1.0):
            reg = uq.RandomVariableRegistry(np.random.default_rng(3))
            reg.add_RV(make(d, th, None, f_map=f))
            reg.generate_sample(9, 'LHS')
            obs.step()
            out.append((np.array(reg.RV_sample['x']), np.array(reg.RV['x'].sample_DF)))
        obs.close(out[1][0], 2.0 * out[0][0] + 1.0, f'f_map:{d}')
        obs.close(out[1][1], 2.0 * out[0][1] + 1.0, f'f_map-DF:{d}')
        obs.state('fmap', d, out[1][0])
    elif k == 'notrunc':
        d = sc['dist']
        th = {'multilinear_CDF': PTS[1], 'empirical': EMP[2], 'coupled_empirical': EMP[2], 'deterministic': [4.0], 'multinomial': MULTI[2]}[d]
        try:
            make(d, th, (0.0, 1.0))
            obs.fail(f'truncation-silently-ignored:{d}', 'unsupported truncation accepted')
        except NotImplementedError:
            pass
        obs.step()
        obs.state('nt', d)
    elif k == 'bad':
        d, th, tr = BAD[sc['i']]
        try:
            rv = make(d, th, tr)
            x = rv.inverse_transform(us.copy())
            obs.fail(f'invalid-accepted:{d}', f'theta={th} tr={tr} gave {x}')
        except ValueError:
            pass
        obs.step()
        obs.state('bad', sc['i'])
