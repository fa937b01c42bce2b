"""C07: scaling and fitting of distributions."""

import itertools
import math

import numpy as np

from mc import ref

PROPERTY = 'C07'
LEVEL = 'exploration'
NAN = float('nan')
RULE = (
    'scaling: family x parameters x truncation pattern x factor, textbook CDF of the scaled variable at every lattice point; '
    'fitting: family x magnitude x dispersion x limit pattern x sample size x censoring mode x order of the data, negative log-likelihood '
    '(own formula) of the returned parameters compared with a lattice of neighbours, with a fit of the rescaled data, with one-dimensional '
    'fits and with equivalent notations of the inputs; distinct = distinct (scenario, parameters)'
)
BOUND = 'full product of the grids in checks/c07_scaling_fitting.py'
ASSUMPTIONS = [
    'observations are consistent with the family they are fitted to (quantiles of a truncated or censored member of it, a jittered copy '
    'of them, or without any limits); at least one value lies within the limits',
    'without truncation or detection limits the method of moments estimate (documented) is the expected one',
]

FACT = [1e-3, 0.3048, 1.0, 2.5, 39.3701, 1e6]
THETA = {
    'normal': [(10.0, 0.2), (-3.0, 0.5), (2, 1)],
    'normal_cov': [(10.0, 0.2), (-3.0, 0.5)],
    'normal_std': [(0.0, 1.0), (10.0, 2.0), (-3, 2)],
    'lognormal': [(1.0, 0.5), (0.02, 0.4), (50, 1)],
    'uniform': [(0.0, 1.0), (-2.0, 3.0), (5, 7)],
    'weibull': [(1.0, 1.0), (2.0, 0.7), (100, 2)],
}
PS = (0.001, 0.05, 0.3, 0.5, 0.8, 0.97, 0.9999)


def scenarios(tier):
    out = []
    for fam, ths in THETA.items():
        for th in ths:
            for lo, hi in itertools.product((None, 0.1, 0.4), (None, 0.6, 0.95)):
                for k in FACT:
                    out.append({'k': 'scale', 'fam': fam, 'th': th, 'tr': (lo, hi), 'f': k})
    for fam in ('deterministic', None):
        for v in (0.0, 3.0, -2.5, 4):
            for k in FACT:
                out.append({'k': 'scale', 'fam': fam, 'th': (v, NAN), 'tr': (None, None), 'f': k})
    out.append({'k': 'badscale'})
    mus = (0.02, 1.0, 300.0) if tier == 'quick' else (1e-4, 0.02, 1.0, 8.0, 50.0, 300.0, 2e4)
    cvs = (0.1, 0.3, 0.6)
    zs = ((None, None), (-1.5, None), (None, 1.5), (-1.5, 1.5), (-1, 2), (-2, 1.0))
    ns = (8, 25) if tier == 'quick' else (3, 5, 8, 25, 60)
    for fam, mu, cv, z, n, mode in itertools.product(
        ('normal', 'normal_std', 'normal_cov', 'lognormal'), mus, cvs, zs, ns, ('trunc', 'cens', 'both')
    ):
        if z == (None, None) and mode != 'trunc':
            continue
        if n < 8 and z != (None, None) and mode != 'trunc':
            continue
        out.append({'k': 'fit', 'fam': fam, 'mu': mu, 'cv': cv, 'z': z, 'n': n, 'mode': mode, 'perm': 7})
    if tier != 'quick':
        for fam, mu, cv, z, j in itertools.product(('normal', 'normal_std', 'lognormal'), (1.0, 50.0), cvs, zs, range(6)):
            out.append({'k': 'fit', 'fam': fam, 'mu': mu, 'cv': cv, 'z': z, 'n': 12, 'mode': 'trunc', 'perm': 5, 'jit': j})
    for fam, z, mu in itertools.product(('normal', 'normal_std', 'lognormal'), ((None, None), (-1.5, None), (None, 1.5), (-1.5, 1.5)), (1.0, 80.0)):
        out.append({'k': 'notation', 'fam': fam, 'z': z, 'mu': mu})
    fams = ('normal', 'normal_std', 'lognormal')
    for combo in itertools.product(fams, repeat=2):
        for zz in itertools.product(((None, None), (-1.5, None), (-1.5, 1.5)), repeat=2):
            out.append({'k': 'multi', 'fams': combo, 'zz': zz})
    for combo in itertools.permutations(fams):
        for zz in itertools.product(((None, None), (-1.5, 1.5)), repeat=3):
            out.append({'k': 'multi', 'fams': combo, 'zz': zz})
    for combo in itertools.product(('normal_std', 'lognormal'), repeat=2):
        for zz in itertools.product(((-1.5, None), (None, 1.5), (-1.5, 1.5)), repeat=2):
            for r in (0.0, 0.5):
                out.append({'k': 'joint', 'fams': combo, 'zz': zz, 'r': r})
    pcs = ((0.16, 0.84), (0.5, 0.84), (0.05, 0.5, 0.95), (0.1, 0.3), (0.6, 0.9), (0.84, 0.5), (0.16, 0.5), (0.1, 0.5, 0.6, 0.9))
    for fam, pc, mu, cv in itertools.product(('normal', 'lognormal'), pcs, (0.5, 3.0, 40.0), (0.1, 0.3, 0.5)):
        out.append({'k': 'perc', 'fam': fam, 'pc': pc, 'mu': mu, 'cv': cv})
    return out


# ---------------------------------------------------------------------------
def data(fam, mu, cv, z, n, perm, jit=None):
    """Quantiles of a truncated member of the family, in a scrambled order."""
    zl, zu = (NAN if v is None else v for v in z)
    pl = 0.0 if math.isnan(zl) else ref.phi(zl)
    pu = 1.0 if math.isnan(zu) else ref.phi(zu)
    us = [(i + 0.5) / n for i in range(n)]
    if jit is not None:
        us = [(i + 0.5 + 0.45 * math.sin(1.7 * i + jit)) / n for i in range(n)]
    zz = [ref.phi_inv(pl + u * (pu - pl)) for u in us]
    g = (lambda v: mu * math.exp(cv * v)) if fam == 'lognormal' else (lambda v: mu * (1 + cv * v))
    order = sorted(range(n), key=lambda i: (i * perm) % n)
    x = np.array([g(zz[i]) for i in order])
    lim = (g(zl) if not math.isnan(zl) else NAN, g(zu) if not math.isnan(zu) else NAN)
    return x, lim, pu - pl, g


def msd(fam, t):
    """Mean and standard deviation of the underlying normal."""
    if fam == 'lognormal':
        return (math.log(t[0]) if t[0] > 0 else NAN), t[1]
    if fam == 'normal_std':
        return t[0], t[1]
    return t[0], t[1] * abs(t[0])


def nll(x, fam, t, tr, det=(NAN, NAN), cen=0):
    mu, s = msd(fam, t)
    if not s > 0:
        return float('inf')
    log = (lambda v: -math.inf if v <= 0 else math.log(v)) if fam == 'lognormal' else float
    y = np.log(x) if fam == 'lognormal' else np.asarray(x, dtype=float)
    a = -math.inf if ref.isnan(tr[0]) else log(tr[0])
    b = math.inf if ref.isnan(tr[1]) else log(tr[1])
    al = ref.phi((b - mu) / s) - ref.phi((a - mu) / s)
    if al <= 0:
        return float('inf')
    r = float(np.sum(0.5 * ((y - mu) / s) ** 2) + len(y) * math.log(s * al))
    if cen:
        lo = a if ref.isnan(det[0]) else max(a, log(det[0]))
        up = b if ref.isnan(det[1]) else min(b, log(det[1]))
        seen = (ref.phi((up - mu) / s) - ref.phi((lo - mu) / s)) / al
        r -= cen * math.log(max(1 - seen, 1e-300))
    return r / len(y)


def setting(sc):
    x, lim, mass, g = data(sc['fam'], sc['mu'], sc['cv'], sc['z'], sc['n'], sc['perm'], sc.get('jit'))
    no = (NAN, NAN)
    if sc['mode'] == 'trunc':
        return x, lim, no, 0
    cen = max(1, int(round(sc['n'] * (1 / mass - 1))))
    if sc['mode'] == 'cens':
        return x, no, lim, cen
    return x, (g(-3.0) if sc['cv'] < 0.3 or sc['fam'] == 'lognormal' else g(-2.5), g(3.0)), lim, cen


def fit(x, fam, tr, det, cen, **kw):
    from pelicun import uq

    return uq.fit_distribution_to_sample(x, fam, tr, cen, det, **kw)


def near(fam, x, t, tr, det, cen):
    f0 = nll(x, fam, t, tr, det, cen)
    mu, s = msd(fam, t)
    best = f0
    for step in (0.02, 0.1):
        for dm, ds in itertools.product((-step, 0, step), repeat=2):
            m2, s2 = mu + dm * s, s * math.exp(ds)
            if fam == 'lognormal':
                t2 = (math.exp(m2), s2)
            elif fam == 'normal_std':
                t2 = (m2, s2)
            else:
                t2 = (m2, s2 / abs(m2))
            best = min(best, nll(x, fam, t2, tr, det, cen))
    return f0, best


def purity(raw, before, fam, obs):
    if fam == 'lognormal' and np.array_equal(raw, np.log(before)):
        obs.fail('fit:sample of lognormal variables replaced by its logarithm', f'{before} -> {raw}')
    else:
        obs.close(raw, before, 'fit:modifies the sample', fam)


def run(sc, obs):
    globals()[f'run_{sc["k"]}'](sc, obs)


def run_badscale(sc, obs):
    from pelicun import uq

    for fam in ('unknown', 'Normal', 'gamma'):
        try:
            r = uq.scale_distribution(2.0, fam, np.array([1.0, 2.0]))
        except ValueError:
            obs.step()
        else:
            obs.fail(f'scale:unsupported:{fam}', repr(r))
    obs.state('badscale')


def run_scale(sc, obs):
    from pelicun import uq

    fam, th, k = sc['fam'], sc['th'], sc['f']
    tr = [NAN if p is None else ref.quantile(fam, th, None, p) for p in sc['tr']]
    theta = np.array(th)
    lim = np.array(tr)
    th0, lim0 = theta.copy(), lim.copy()
    new, nlim = uq.scale_distribution(k, fam, theta, lim)
    new_b, none = uq.scale_distribution(k, fam, theta)
    obs.step(2)
    obs.state(sc, new, nlim)
    obs.check(none is None, 'scale:limits from nothing', repr(none))
    obs.close(new_b, new, 'scale:parameters depend on the limits')
    obs.close(theta, th0, 'scale:modifies the parameters')
    obs.close(lim, lim0, 'scale:modifies the limits')
    obs.check(len(new) == len(th), 'scale:size')
    if fam in (None, 'deterministic'):
        obs.close(new[0], th[0] * k, f'scale:{fam}', rtol=1e-12)
        return
    for p in PS:
        x = ref.quantile(fam, th, tr, p)
        got = ref.cdf(fam, new, nlim, x * k)
        obs.close(got, ref.cdf(fam, th, tr, x), f'scale:{fam}:cdf', f'p={p} x={x}', rtol=1e-7, atol=1e-7)
    # the sampled values scale, too
    cls = uq.rv_class_map(fam)
    u = np.array(PS)
    a = cls(name='a', theta=theta.astype(float), truncation_limits=lim.copy()).inverse_transform(u.copy())
    b = cls(name='b', theta=np.asarray(new, dtype=float), truncation_limits=np.asarray(nlim)).inverse_transform(u.copy())
    obs.step(2)
    obs.close(b, np.asarray(a) * k, f'scale:{fam}:values', rtol=1e-9, atol=1e-12 * k)


def run_fit(sc, obs):
    x, tr, det, cen = setting(sc)
    fam = sc['fam']
    raw, t_in, d_in = x.copy(), np.array(tr), np.array(det)
    keep = raw.copy(), t_in.copy(), d_in.copy()
    th, rho = fit(raw, fam, t_in, d_in, cen)
    obs.step()
    obs.state(sc, th)
    purity(raw, keep[0], fam, obs)
    obs.close(t_in, keep[1], 'fit:modifies the truncation limits')
    obs.close(d_in, keep[2], 'fit:modifies the detection limits')
    obs.check(np.shape(th) == (1, 2), 'fit:shape', repr(th))
    obs.close(rho, [[1.0]], 'fit:rho of one variable')
    t = [float(v) for v in th[0]]
    if all(v is None for v in sc['z']):
        y = np.log(x) if fam == 'lognormal' else x
        m, s = float(np.mean(y)), float(np.std(y))
        want = {'lognormal': (math.exp(m), s), 'normal_std': (m, s)}.get(fam, (m, s / abs(m)))
        obs.close(t, want, f'fit:moments:{fam}', rtol=1e-9)
    f0, best = near(fam, x, t, tr, det, cen)
    # quantile samples have an interior optimum; a relaxed margin covers the
    # convergence criterion of the optimizer
    obs.check(f0 - best <= 1e-4, f'fit:{fam}:{sc["mode"]}:better parameters nearby', lambda: f'theta={t} nll={f0} nearby={best}')
    # the order of the observations does not matter
    th2, _ = fit(np.sort(x), fam, np.array(tr), np.array(det), cen)
    obs.step()
    obs.check(abs(nll(x, fam, th2[0], tr, det, cen) - f0) <= 1e-4, 'fit:depends on the order of observations', lambda: f'{th2} vs {t}')
    # rescaled data give the rescaled distribution
    k = 39.3701 if sc['mu'] < 1 else 0.0254
    th3, _ = fit(x * k, fam, np.array(tr) * k, np.array(det) * k, cen)
    obs.step()
    back = [th3[0][0] / k, th3[0][1] / (k if fam == 'normal_std' else 1.0)]
    obs.check(
        abs(nll(x, fam, back, tr, det, cen) - f0) <= 1e-4, f'fit:{fam}:depends on the unit of the data', lambda: f'{back} vs {t}'
    )


def run_notation(sc, obs):
    """Equivalent notations of the same request give the same answer."""
    fam, z, mu = sc['fam'], sc['z'], sc['mu']
    x, lim, mass, g = data(fam, mu, 0.3, z, 9, 4)
    base, _ = fit(x.copy(), fam, np.array(lim), np.array([NAN, NAN]), 0)
    obs.state(sc, base)
    obs.step()
    forms = {
        'list': lambda: fit(list(x), fam, list(lim), [NAN, NAN], 0),
        'tuple': lambda: fit(tuple(x), fam, tuple(lim), (NAN, NAN), 0),
        '2d': lambda: fit(np.array([x]), fam, np.array([lim]), np.array([[NAN, NAN]]), 0),
        'family list': lambda: fit(x.copy(), [fam], np.array(lim), np.array([NAN, NAN]), 0),
        'None limits': lambda: fit(x.copy(), fam, [None if math.isnan(v) else v for v in lim], [None, None], 0),
        'infinite limits': lambda: fit(
            x.copy(), fam, [s * math.inf if math.isnan(v) and not (fam == 'lognormal' and s < 0) else v for v, s in zip(lim, (-1, 1))], [NAN, NAN], 0
        ),
    }
    if all(v is None for v in z):
        forms.pop('infinite limits')
        forms['defaults'] = lambda: __import__('pelicun.uq').uq.fit_distribution_to_sample(x.copy(), fam)
    for name, f in forms.items():
        try:
            th, _ = f()
        except Exception as e:  # noqa: BLE001
            obs.fail(f'notation:{name}:{type(e).__name__}', repr(e)[:300])
            continue
        obs.step()
        obs.close(th, base, f'notation:{name}', f'{fam} {z}', rtol=1e-6)
    # integers
    xi = np.round(x * (1000 / mu)).astype(int)
    li = [v if math.isnan(v) else float(int(v * (1000 / mu)) + (-2, 2)[i]) for i, v in enumerate(lim)]
    a, _ = fit(xi, fam, np.array(li), np.array([NAN, NAN]), 0)
    b, _ = fit(xi.astype(float), fam, np.array(li), np.array([NAN, NAN]), 0)
    c, _ = fit([int(v) for v in xi], fam, [v if math.isnan(v) else int(v) for v in li], [NAN, NAN], 0)
    obs.step(3)
    obs.close(a, b, 'notation:integer array', rtol=1e-6)
    obs.close(c, b, 'notation:integer list', rtol=1e-6)


def run_multi(sc, obs):
    """Several demands at once: marginals as if alone; Gaussian correlation of the fit."""
    n = 12
    xs, lims, ths = [], [], []
    for d, (fam, z) in enumerate(zip(sc['fams'], sc['zz'])):
        x, lim, _m, _g = data(fam, (1.0, 30.0, 0.2)[d], 0.3, z, n, (5, 7, 1)[d])
        xs.append(x)
        lims.append(lim)
        ths.append(fit(x.copy(), fam, np.array(lim), np.array([NAN, NAN]), 0)[0][0])
    xs = np.array(xs)
    raw = xs.copy()
    th, rho = fit(raw, list(sc['fams']), np.array(lims), np.array([NAN, NAN]), 0)
    obs.step(len(xs) + 1)
    obs.state(sc, th, rho)
    # (a lone limit in another dimension switches on the optimizer here, too)
    for d, fam in enumerate(sc['fams']):
        obs.check(
            nll(xs[d], fam, th[d], lims[d]) <= nll(xs[d], fam, ths[d], lims[d]) + 1e-4,
            f'multi:marginal:{fam}', lambda: f'dim {d}: {th[d]} alone {ths[d]}',
        )
        obs.close(th[d], ths[d], f'multi:marginal value:{fam}', rtol=2e-2)
    zs = []
    for d, fam in enumerate(sc['fams']):
        m, s = msd(fam, th[d])
        lg = np.log if fam == 'lognormal' else np.asarray
        a = 0.0 if math.isnan(lims[d][0]) else ref.phi((float(lg(lims[d][0])) - m) / s)
        b = 1.0 if math.isnan(lims[d][1]) else ref.phi((float(lg(lims[d][1])) - m) / s)
        zs.append([ref.phi_inv((ref.phi((v - m) / s) - a) / (b - a)) for v in lg(xs[d])])
    want = np.eye(len(xs))
    for i, j in itertools.permutations(range(len(xs)), 2):
        want[i, j] = sum(p * q for p, q in zip(zs[i], zs[j])) / n
    obs.close(rho, want, 'multi:correlation', rtol=1e-6, atol=1e-8)
    obs.close(np.diag(rho), np.ones(len(xs)), 'multi:diagonal')
    # variables in another order
    for perm in itertools.permutations(range(len(xs))):
        p = list(perm)
        th2, rho2 = fit(xs[p].copy(), [sc['fams'][i] for i in p], np.array(lims)[p], np.array([NAN, NAN]), 0)
        obs.step()
        obs.close(th2, th[p], 'multi:order of variables', rtol=1e-6)
        obs.close(rho2, rho[np.ix_(p, p)], 'multi:order of variables:rho', rtol=1e-6, atol=1e-8)
    # columns (realizations) in another order
    q = list(range(n))[::-1]
    th3, rho3 = fit(xs[:, q].copy(), list(sc['fams']), np.array(lims), np.array([NAN, NAN]), 0)
    obs.step()
    obs.close(th3, th, 'multi:order of realizations', rtol=1e-2)
    obs.close(rho3, rho, 'multi:order of realizations:rho', rtol=5e-2, atol=1e-2)
    # inputs
    for d, fam in enumerate(sc['fams']):
        purity(raw[d], xs[d], fam, obs)


def run_joint(sc, obs):
    """Censored observations of two demands: joint likelihood."""
    from scipy.stats import multivariate_normal as mvn

    n = 14
    us = [(i + 0.5) / n for i in range(n)]
    z1 = np.array([ref.phi_inv(u) for u in us])
    z1b = z1[[(i * 5) % n for i in range(n)]]
    z2 = sc['r'] * z1 + math.sqrt(1 - sc['r'] ** 2) * z1b
    zs = np.array([z1, z2])
    keep = np.ones(n, dtype=bool)
    for d, (lo, hi) in enumerate(sc['zz']):
        if lo is not None:
            keep &= zs[d] > lo
        if hi is not None:
            keep &= zs[d] < hi
    cen = int((~keep).sum())
    if cen == 0:
        keep[0] = False
        cen = 1
    xs, dets = [], []
    for d, fam in enumerate(sc['fams']):
        g = (lambda v: 2.0 * math.exp(0.3 * v)) if fam == 'lognormal' else (lambda v: 5.0 + 1.0 * v)
        xs.append([g(v) for v in zs[d][keep]])
        dets.append([NAN if v is None else g(v) for v in sc['zz'][d]])
    xs, dets = np.array(xs), np.array(dets)
    th, rho = fit(xs.copy(), list(sc['fams']), np.full((2, 2), NAN), dets.copy(), cen)
    obs.step()
    obs.state(sc, th, rho)

    def total(t):
        y, lo, hi, sc_ = [], [], [], 0.0
        for d, fam in enumerate(sc['fams']):
            m, s = msd(fam, t[d])
            if not s > 0:
                return math.inf
            lg = np.log if fam == 'lognormal' else np.asarray
            y.append((lg(xs[d]) - m) / s)
            sc_ += math.log(s) * xs.shape[1]
            lo.append(-math.inf if math.isnan(dets[d][0]) else (float(lg(dets[d][0])) - m) / s)
            hi.append(math.inf if math.isnan(dets[d][1]) else (float(lg(dets[d][1])) - m) / s)
        y = np.array(y)
        r = float(np.mean(y[0] * y[1]))
        if abs(r) >= 1:
            return math.inf
        cov = [[1, r], [r, 1]]
        v = -float(np.sum(mvn.logpdf(y.T, [0, 0], cov))) + sc_
        big = 12.0
        seen = mvn.cdf(np.clip(hi, -big, big), [0, 0], cov, lower_limit=np.clip(lo, -big, big))
        v -= cen * math.log(max(1.0 - float(seen), 1e-300))
        return v / xs.size

    base = total(th)
    best, arg = base, None
    for k in range(2):
        for st in (-0.05, 0.05):
            for d in range(2):
                t = np.array(th, dtype=float)
                if k == 0:
                    m, s = msd(sc['fams'][d], t[d])
                    t[d][0] = math.exp(m + st * s) if sc['fams'][d] == 'lognormal' else m + st * s
                else:
                    t[d][1] *= math.exp(st)
                v = total(t)
                if v < best:
                    best, arg = v, t
    obs.check(base - best <= 1e-3, 'joint:better parameters nearby', lambda: f'{th.tolist()} nll={base} better={arg.tolist()} {best}')


def run_perc(sc, obs):
    from pelicun import uq

    fam, mu, cv = sc['fam'], sc['mu'], sc['cv']
    zs = [ref.phi_inv(p) for p in sc['pc']]
    vals = [mu * math.exp(cv * z) if fam == 'lognormal' else mu * (1 + cv * z) for z in zs]
    vin, pin = list(vals), list(sc['pc'])
    got, th = uq.fit_distribution_to_percentiles(vin, pin, [fam])
    obs.step()
    obs.state(sc, th)
    obs.check(vin == vals and pin == list(sc['pc']), 'perc:modifies its inputs')
    obs.check(got == fam, 'perc:family', got)
    back = [th[0] * math.exp(th[1] * z) if fam == 'lognormal' else th[0] + th[1] * z for z in zs]
    obs.close(back, vals, f'perc:{fam}:percentiles not matched', rtol=1e-3)
    fams = ['normal', 'lognormal']
    if len(sc['pc']) > 2 and cv >= 0.3:
        for order in (fams, fams[::-1]):
            g2, th2 = uq.fit_distribution_to_percentiles(list(vals), list(sc['pc']), list(order))
            obs.step()
            obs.check(g2 == fam, 'perc:choice of family', lambda: f'{g2} {th2}')
            obs.close(th2, th, 'perc:parameters of the chosen family', rtol=1e-3)
