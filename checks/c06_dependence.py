"""C06: anchored and correlated variables realize the specified dependence."""

from __future__ import annotations

import itertools
import math

import numpy as np
import pandas as pd
from scipy.stats import norm

from mc import flow, pel, ref
from checks import c16_ds_losses as c16
from mc.lossref import uf

PROPERTY = 'C06'
LEVEL = 'exploration'
NAN = float('nan')
RULE = (
    'registry: assignment of up to five variables to sets, anchors and families x registration order x order within the set x correlation '
    'matrix x sampling method x size; compared with the same registry without sets: outside variables bit by bit, followers equal to the '
    'quantile of their anchor, sets equal to a linear map A of the independent normal scores with A A^T = Rho; the same for demand models, '
    'repair cost and time, and capacities; distinct = distinct (scenario, sample)'
)
BOUND = {
    'quick': 'sets of 2-4 of up to 5 variables, all orders of up to 3 and 8 orders of 4, 27 matrices, 9 families; 200-4000 realizations',
    'thorough': 'all orders of up to 4 variables, 61 matrices, both seeds, up to 20000 realizations',
}
ASSUMPTIONS = [
    'sets hold free variables with a continuous controlling quantile, and do not share members; anchors of members may be members',
    'a matrix that is not positive semidefinite only has to keep the marginal distributions',
]
CHUNK = 8

FAM = {
    'U': ('uniform', [0.0, 1.0], None), 'N': ('normal_std', [-3.0, 2.0], None), 'L': ('lognormal', [2.0, 0.6], [0.5, 9.0]),
    'C': ('normal_cov', [10.0, 0.3], [NAN, 14.0]), 'W': ('weibull', [4.0, 2.5], None), 'M': ('multilinear_CDF', [[0.0, 0.0], [1.0, 0.2], [5.0, 1.0]], None),
    'E': ('empirical', [5.0, 1.0, 3.0, 3.0, 9.0], None), 'P': ('multinomial', [0.2, 0.5, 0.3], None), 'D': ('deterministic', [7.0], None),
}


def mats(k, th):
    """Correlation matrices of k variables as nested lists."""
    if k == 2:
        rs = [-1.0, -0.9, -0.5, 0.0, 0.3, 0.8, 0.999, 1.0] + ([-0.999, -0.1, 0.05, 0.6, 0.95] if th else [])
        return [[[1.0, r], [r, 1.0]] for r in rs]
    out = []

    def sym(*v):
        m = np.eye(k)
        m[np.triu_indices(k, 1)] = v
        return (m + m.T - np.eye(k)).tolist()

    if k == 3:
        out = [sym(0.5, 0.2, -0.3), sym(0.9, 0.8, 0.7), sym(0.0, 0.0, 0.6), sym(-0.4, 0.0, 0.0), sym(1.0, 0.5, 0.5), sym(-1.0, 0.4, -0.4),
               sym(1.0, 1.0, 1.0), sym(-1.0, 1.0, -1.0), sym(0.6, 0.8, 0.96), sym(-0.5, -0.5, -0.5)]
        # rank two: three directions in the plane
        if th:
            for a, b in ((10, 70), (45, 135), (100, 200), (0, 179)):
                d = np.deg2rad([0, a, b])
                out.append(sym(math.cos(d[0] - d[1]), math.cos(d[0] - d[2]), math.cos(d[1] - d[2])))
    if k == 4:
        out = [sym(0.8, 0.64, 0.512, 0.8, 0.64, 0.8), sym(1.0, 0.3, 0.3, 0.3, 0.3, 1.0), sym(0.5, 0.0, 0.0, 0.0, 0.0, -0.5),
               sym(0.1, 0.2, 0.3, 0.4, 0.5, 0.6), sym(*[1.0] * 6)]
    return out


def scenarios(tier):
    th = tier != 'quick'
    names = {2: ['b', 'a'], 3: ['EDP-2', 'EDP-10', 'EDP-1'], 4: ['d', 'B', 'a2', 'a10']}
    fams = {2: ['UU', 'LN', 'WC', 'EM'], 3: ['UUU', 'LNW', 'PCE'], 4: ['UUUU', 'LMNP']}
    # one set, every order of registration and within the set
    for k in (2, 3, 4):
        perms = list(itertools.permutations(range(k)))
        if k == 4 and not th:
            perms = perms[::3]
        for m in mats(k, th):
            for reg in perms:
                for st in perms if (k < 4 or th) else perms[::3]:
                    i = (len(m) + sum(a * (b + 1) for a, b in zip(reg, st))) % len(fams[k])
                    for f in fams[k] if k == 2 else [fams[k][i]]:
                        yield {'k': 'reg', 'names': names[k], 'fam': f, 'reg': reg, 'sets': [{'o': st, 'rho': m}], 'anch': {},
                               'm': ['LHS', 'MonteCarlo', 'LHS_midpoint'][i % 3], 'n': 60 + 7 * i, 'seed': 1 + i % 2 if not th else 3 + i % 5}
    # outside variables, anchors to members and to outside variables, several sets
    nm = ['v3', 'v1', 'v2', 'v10', 'v0']
    for sets in ([[0, 1]], [[1, 3]], [[0, 1], [2, 3]], [[3, 0], [4, 1]], [[2, 0, 4]], [[0, 1, 2], [3, 4]], [[4, 3, 2, 1]], []):
        for anch in ({}, {'f': 0}, {'f': 3}, {'a': 0, 'z': 'a'}, {'f': 1, 'g': 1, 'h': 4}, {'a': 2, 'f': 0, 'z': 'f'}):
            for reg in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 4, 0, 3, 1), (1, 0, 4, 2, 3)):
                for fam in ('UUUUU', 'LNWEP', 'DUCMU')[: 3 if th else 2] + (('UDLMN',) if not any(1 in s for s in sets) else ()):
                    if any(fam[i] == 'D' for s in sets for i in s):
                        continue
                    ms = [mats(len(s), th) for s in sets]
                    for j in range(4 if th else 2):
                        yield {'k': 'reg', 'names': nm, 'fam': fam, 'reg': reg, 'anch': anch,
                               'sets': [{'o': s, 'rho': ms[i][(3 * j + 2 * i + len(anch)) % len(ms[i])]} for i, s in enumerate(sets)],
                               'm': ['LHS', 'MonteCarlo', 'LHS_midpoint'][(j + len(anch)) % 3], 'n': 40 + 11 * j, 'seed': 3 + j}
    # members given as the anchor and its follower
    for m in ('LHS', 'MonteCarlo'):
        for o in ((0, 1), (1, 0)):
            yield {'k': 'both', 'm': m, 'o': o}
    # not positive semidefinite
    for v in ((0.9, 0.9, -0.9), (-0.9, -0.9, -0.9), (0.95, 0.1, 0.8), (0.5, -0.5, 0.9)):
        for reg in ((0, 1, 2), (2, 0, 1)):
            yield {'k': 'npsd', 'v': v, 'reg': reg}
    # statistics
    for k in (2, 3):
        for i, m in enumerate(mats(k, th)):
            for n in (4000, 20000) if th else (4000,):
                yield {'k': 'stat', 'rho': m, 'n': n, 'm': ['LHS', 'MonteCarlo', 'LHS_midpoint'][i % 3]}
    # demand models
    cols = ['PFA-1-1', 'PFA-10-1', 'PID-1-1', 'PFA-2-1']
    for k in (2, 3, 4):
        for m in mats(k, th):
            for o in itertools.permutations(range(k)) if k < 4 or th else list(itertools.permutations(range(k)))[::5]:
                for co in ('same', 'rev'):
                    yield {'k': 'demand', 'cols': cols[:k], 'rho': m, 'o': o, 'co': co, 'file': len(m) == 3}
    # cost and time
    for r in (-1.0, -0.7, 0.0, 0.4, 0.9, 1.0):
        for kind in ('ds', 'lf'):
            for nm_ in ('A', 'Cost', 'xCostTime', 'Time'):
                for dvs in (('Cost', 'Time'), ('Time', 'Cost'), ('Carbon', 'Time', 'Energy', 'Cost')) if nm_ == 'A' or th else (('Cost', 'Time'),):
                    yield {'k': 'ct', 'r': r, 'kind': kind, 'c': nm_, 'dvs': dvs}
    # capacities
    for f1, f2 in itertools.product('LNWU', repeat=2):
        for blocks in (1, 2, 12):
            yield {'k': 'cap', 'f': [f1, f2], 'b': blocks}
    for nls in (3, 11):
        for blocks in (1, 2):
            yield {'k': 'cap', 'f': ['LNWU'[i % 4] for i in range(nls)], 'b': blocks}


# ---------------------------------------------------------------------------
def make(uq, fam, name, anchor=None):
    dist, theta, tr = FAM[fam]
    kw = {'anchor': anchor} if anchor is not None else {}
    if tr is not None:
        kw['truncation_limits'] = np.array(tr, dtype=float)
    return uq.rv_class_map(dist)(name=name, theta=np.array(theta, dtype=float), **kw)


def transform(fam, u):
    """Reference value of a variable at the quantiles u."""
    dist, theta, tr = FAM[fam]
    if fam == 'U':
        return u
    if fam == 'D':
        return np.full(len(u), theta[0])
    if fam == 'E':
        return np.array([ref.empirical(theta, float(x)) for x in u])
    if fam == 'P':
        c = np.cumsum(theta)
        return np.array([min(int(np.searchsorted(c, x, side='left')), len(c) - 1) for x in u], dtype=float)
    return np.array([ref.quantile(dist, theta, tr, float(x)) for x in u])


def registry(sc, sets=True, uniform=False):
    from pelicun import uq

    names, fam = sc['names'], sc['fam']
    rng = np.random.default_rng(sc['seed'])
    reg = uq.RandomVariableRegistry(rng)
    rv = {}
    for i in sc['reg']:
        rv[i] = make(uq, 'U' if uniform else fam[i], names[i])
        reg.add_RV(rv[i])
    for k, (f, a) in enumerate(sc['anch'].items()):
        base = rv[a] if not isinstance(a, str) else rv['_' + a]
        rv['_' + f] = make(uq, 'U' if uniform else 'LNU'[k % 3], f, base)
        reg.add_RV(rv['_' + f])
    if sets:
        for j, s in enumerate(sc['sets']):
            m = np.array(s['rho'])
            # rho is given for the members in the order of s['o']
            reg.add_RV_set(uq.RandomVariableSet(f's{9 - j}', [rv[i] for i in s['o']], m.copy()))
    reg.generate_sample(sc['n'], sc['m'])
    return {n: np.array(v, dtype=float) for n, v in reg.RV_sample.items()}


def linear(z0, z1):
    """Linear map from independent to correlated scores and the largest residual."""
    a, *_ = np.linalg.lstsq(z0.T, z1.T, rcond=None)
    return a.T, float(np.abs(a.T @ z0 - z1).max())


def structure(obs, z0, z1, rho, sig, tag):
    """The scores are a linear map of the independent ones with the given Gram matrix."""
    if not obs.check(np.isfinite(z1).all(), f'{sig}:finite', lambda: f'{tag}: infinite normal scores'):
        return
    a, res = linear(z0, z1)
    obs.check(res < 1e-5, f'{sig}:gaussian', lambda: f'{tag}: scores are not a linear map of independent scores, residual {res}')
    obs.close(a @ a.T, rho, f'{sig}:rho', f'{tag}: correlation', rtol=0, atol=1e-5)


def anchor_root(sc, f):
    a = sc['anch'][f]
    while isinstance(a, str):
        a = sc['anch'][a]
    return a


def run_reg(sc, obs):
    names = sc['names']
    obs.step(4)
    free = registry(sc, sets=False, uniform=True)
    got = registry(sc, uniform=True)
    vals = registry(sc)
    members = {i for s in sc['sets'] for i in s['o']}
    tag = f"sets {sc['sets']} anchors {sc['anch']} registered {sc['reg']}"
    for i, n in enumerate(names):
        if i not in members:
            obs.check(np.array_equal(free[n], got[n]), 'outside', lambda: f'{tag}: {n} changed by a set it is not in')
    for f in sc['anch']:
        n = names[anchor_root(sc, f)]
        obs.check(np.array_equal(got[f], got[n]), 'anchor', lambda: f'{tag}: {f} does not share the quantile of {n}')
    for s in sc['sets']:
        mem = [names[i] for i in s['o']]
        z0 = np.array([norm.ppf(free[n]) for n in mem])
        z1 = np.array([norm.ppf(got[n]) for n in mem])
        structure(obs, z0, z1, s['rho'], 'set', tag)
    # the dependence is in the quantiles, whatever the families are
    for i, n in enumerate(names):
        if sc['fam'][i] not in 'EP':
            obs.close(vals[n], transform(sc['fam'][i], got[n]), 'family', f'{tag}: {n}', rtol=1e-6, atol=1e-8)
        else:
            w = transform(sc['fam'][i], got[n])
            obs.check(np.array_equal(vals[n], w), 'family', lambda: f'{tag}: {n}: {vals[n]} want {w}')
    for k, f in enumerate(sc['anch']):
        obs.close(vals[f], transform('LNU'[k % 3], got[f]), 'family', f'{tag}: {f}', rtol=1e-6, atol=1e-8)
    obs.state(sorted(got.items()))


def run_both(sc, obs):
    from pelicun import uq

    obs.step(1)
    reg = uq.RandomVariableRegistry(np.random.default_rng(5))
    a = make(uq, 'U', 'a')
    b = make(uq, 'N', 'b', a)
    for v in (a, b):
        reg.add_RV(v)
    reg.add_RV_set(uq.RandomVariableSet('s', [[a, b][i] for i in sc['o']], np.array([[1.0, 1.0], [1.0, 1.0]])))
    reg.generate_sample(50, sc['m'])
    s = reg.RV_sample
    obs.close(transform('N', np.array(s['a'])), s['b'], 'anchor', 'anchor and follower in one set', rtol=1e-6, atol=1e-8)
    obs.check(len(np.unique(np.round(s['a'], 9))) == 50, 'marginal', 'quantiles of the anchor')
    obs.state(sc, s)


def run_npsd(sc, obs):
    obs.step(2)
    m = np.eye(3)
    m[np.triu_indices(3, 1)] = sc['v']
    m = m + m.T - np.eye(3)
    full = {'names': ['b', 'c', 'a', 'x'], 'fam': 'UUUU', 'reg': [*sc['reg'], 3], 'sets': [{'o': [0, 1, 2], 'rho': m.tolist()}], 'anch': {}, 'm': 'LHS', 'n': 100, 'seed': 1}
    free, got = registry(full, sets=False), registry(full)
    obs.check(np.array_equal(free['x'], got['x']), 'outside', 'variable outside the set')
    z0 = np.array([norm.ppf(free[n]) for n in 'bca'])
    z1 = np.array([norm.ppf(got[n]) for n in 'bca'])
    if not obs.check(np.isfinite(z1).all(), 'npsd', 'infinite scores'):
        return
    a, res = linear(z0, z1)
    obs.check(res < 1e-5, 'npsd', f'residual {res}')
    obs.close(np.diag(a @ a.T), [1, 1, 1], 'npsd:marginal', f'variance of the normal scores for a matrix that is not positive semidefinite: {m.tolist()}', atol=1e-6)
    obs.state(sc, got)


def ks(v, F=None):
    u = np.sort(v)
    n = len(u)
    return max(np.abs(u - np.arange(n) / n).max(), np.abs(u - np.arange(1, n + 1) / n).max())


def run_stat(sc, obs):
    from scipy.stats import multivariate_normal

    obs.step(1)
    k = len(sc['rho'])
    names = [f'v{9 - i}' for i in range(k)]
    s = registry({'names': names, 'fam': 'U' * k, 'reg': list(range(k)), 'sets': [{'o': list(range(k)), 'rho': sc['rho']}], 'anch': {}, 'm': sc['m'], 'n': sc['n'], 'seed': 77})
    n = sc['n']
    for v in names:
        obs.check(ks(s[v]) < 2.5 / math.sqrt(n), 'stat:marginal', lambda: f'{v} is not uniform for {sc["rho"]}: {ks(s[v])}')
    for i in range(k):
        for j in range(i):
            r = sc['rho'][i][j]
            for a, b in ((0.5, 0.5), (0.2, 0.6), (0.7, 0.7)):
                p = np.mean((s[names[i]] < a) & (s[names[j]] < b))
                if abs(r) == 1.0:
                    w = min(a, b) if r > 0 else max(0.0, a + b - 1)
                else:
                    w = multivariate_normal([0, 0], [[1, r], [r, 1]]).cdf([ref.phi_inv(a), ref.phi_inv(b)])
                obs.check(abs(p - w) < 5.5 * math.sqrt(max(w * (1 - w), 0.01) / n), 'stat:copula',
                          lambda: f'P(u{i}<{a}, u{j}<{b}) = {p} want {w} for {sc["rho"]}')
    obs.state(sc, s)


DPAR = {'PFA-1-1': ('mps2', 'lognormal', 4.0, 0.3), 'PFA-10-1': ('g', 'normal', 0.5, 0.1), 'PID-1-1': ('unitless', 'lognormal', 0.01, 0.5), 'PFA-2-1': ('mps2', 'normal', 5.0, 0.2)}


def run_demand(sc, obs):
    cols = sc['cols']
    marg = pd.DataFrame([[DPAR[c][0], DPAR[c][1], DPAR[c][2], DPAR[c][3]] for c in cols], index=pd.MultiIndex.from_tuples([tuple(c.split('-')) for c in cols]),
                        columns=['Units', 'Family', 'Theta_0', 'Theta_1'])
    lab = [tuple(cols[i].split('-')) for i in sc['o']]
    # rho belongs to the demands in the order of sc['o']
    rho = pd.DataFrame(sc['rho'], index=pd.MultiIndex.from_tuples(lab), columns=pd.MultiIndex.from_tuples(lab))
    if sc['co'] == 'rev':
        rho = rho.loc[:, lab[::-1]]

    def gen(corr):
        a = pel.asmt(Seed=4)
        obs.step(2)
        if sc['file']:
            d = pel.scratch('dm')
            m2 = marg.copy()
            m2.index = ['-'.join(x) for x in marg.index]
            m2.to_csv(d / 'm_marginals.csv')
            if corr is not None:
                c2 = corr.copy()
                c2.index = ['-'.join(x) for x in corr.index]
                c2.columns = ['-'.join(x) for x in corr.columns]
                c2.to_csv(d / 'm_correlation.csv')
                a.demand.load_model(str(d / 'm'))
            else:
                a.demand.load_model({'marginals': marg.copy()})
            __import__('shutil').rmtree(d)
        else:
            a.demand.load_model({'marginals': marg.copy(), **({} if corr is None else {'correlation': corr.copy()})})
        a.demand.generate_sample({'SampleSize': 50})
        s = a.demand.sample
        return {'-'.join(c): s[c].to_numpy(dtype=float) for c in s.columns}

    free, got = gen(None), gen(rho)
    tag = f"demands {cols}, correlation listed as {lab} {sc['co']}"
    if not obs.check(sorted(got) == sorted(cols), 'demand:columns', lambda: f'{tag}: {sorted(got)}'):
        return
    def z(s, c):
        u, f, m, b = DPAR[c]
        v = s[c] / uf(u)
        return (np.log(v / m) / b) if f == 'lognormal' else (v - m) / (m * b)

    mem = ['-'.join(x) for x in lab]
    structure(obs, np.array([z(free, c) for c in mem]), np.array([z(got, c) for c in mem]), sc['rho'], 'demand', tag)
    obs.state(sorted(got.items()))


def run_ct(sc, obs):
    """Cost and time of one component group; other groups and variables independent."""
    n = 3000
    dvs, c, r = sc['dvs'], sc['c'], sc['r']
    obs.step(6)
    a = pel.asmt(Seed=9, RepairCostAndTimeCorrelation=r)
    fam = {'Cost': ('lognormal', 0.4), 'Time': ('normal', 0.1), 'Carbon': ('lognormal', 0.2), 'Energy': ('normal', 0.1)}
    unit = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}
    a.demand.load_sample(flow.demand_df({'PFA-1-1': ['mps2', [1.0] * n], 'PFA-12-1': ['mps2', [1.0] * n]}))
    groups = [(c, '1'), (c, '12'), ('zz', '1')]
    a.asset.load_cmp_model({'marginals': flow.marg_df([{'cmp': x, 'Units': 'EA', 'Location': l, 'Direction': '1', 'Theta_0': 1.0, 'Blocks': 1} for x, l in groups])})
    a.asset.generate_cmp_sample(n)
    a.loss.decision_variables = tuple(dvs)
    a.loss.add_loss_map(pd.DataFrame({'Repair': [c, 'zz']}, index=[c, 'zz']))
    if sc['kind'] == 'ds':
        a.damage.load_sample(c16.dmg_table({(x, l, '1', '0', '1'): [1.0] * n for x, l in groups}, {c: 'EA', 'zz': 'EA'}))
        a.loss.load_model_parameters([flow.cons_df([{'id': x, 'dv': d, 'unit': unit[d], 'ds': [{'f': fam[d][0], 't0': 5.0, 't1': fam[d][1]}]}
                                                    for x in (c, 'zz') for d in dvs])])
    else:
        a.loss.load_model_parameters([flow.lf_df([{'id': x, 'dv': d, 'unit': unit[d], 'type': 'Peak Floor Acceleration', 'dunit': 'mps2', 'offset': 1,
                                                   'fn': '0,10|0,2', 'f': fam[d][0], 't1': fam[d][1]} for x in (c, 'zz') for d in dvs])])
    a.loss.calculate()
    s = (a.loss.ds_model if sc['kind'] == 'ds' else a.loss.lf_model).sample
    u = {}
    for d in dvs:
        for x, l in groups:
            if sc['kind'] == 'ds':
                v = s.loc[:, s.columns.get_level_values('dv') == d]
                v = v.loc[:, (v.columns.get_level_values('dmg') == x) & (v.columns.get_level_values('loc') == l)]
            else:
                v = s.loc[:, s.columns.get_level_values('dv') == d]
                v = v.loc[:, (v.columns.get_level_values('dmg') == x) & (v.columns.get_level_values('loc') == l)]
            if not obs.check(v.shape[1] == 1, 'ct:columns', lambda: f'{d} {x} {l}: {v.columns.tolist()} of {s.columns.tolist()}'):
                return
            v = v.iloc[:, 0].to_numpy(dtype=float) / 5.0 / uf(unit[d])
            f, b = fam[d]
            z = np.log(v) / b if f == 'lognormal' else (v - 1) / b
            u[d, x, l] = z
            obs.check(ks(norm.cdf(z)) < 2.2 / math.sqrt(n), 'ct:marginal', lambda: f'distribution of {d} of {x} at {l} with correlation {r}: {ks(norm.cdf(z))}')
    keys = list(u)
    for i, p in enumerate(keys):
        for q in keys[:i]:
            same = p[1:] == q[1:] and {p[0], q[0]} == {'Cost', 'Time'}
            w = r if same else 0.0
            g = float(np.corrcoef(u[p], u[q])[0, 1])
            if same and abs(r) == 1.0:
                obs.close(u[p], r * u[q], 'ct:corr', f'{p} {q} correlation {r}', rtol=1e-5, atol=1e-5)
            else:
                obs.check(abs(g - w) < 5.5 / math.sqrt(n), 'ct:corr', lambda: f'correlation of {p} and {q} is {g}, want {w} ({sc})')
    obs.state(sc)


CAP = {'L': ('lognormal', 1.0, 0.4), 'N': ('normal_std', 1.0, 0.3), 'W': ('weibull', 1.1, 3.0), 'U': ('uniform', 0.2, 1.8)}


def run_cap(sc, obs):
    """Capacities of a block share the quantile, blocks are independent."""
    obs.step(4)
    n = 4000
    b = sc['b']
    x = np.linspace(0.4, 1.9, n)
    a = pel.asmt(Seed=6, Sampling={'SamplingMethod': 'LHS'})
    a.demand.load_sample(flow.demand_df({'PFA-11-1': ['mps2', x]}))
    a.asset.load_cmp_model({'marginals': flow.marg_df([{'cmp': 'A', 'Units': 'EA', 'Location': '11', 'Direction': '1', 'Theta_0': float(b), 'Blocks': b},
                                                       {'cmp': 'B', 'Units': 'EA', 'Location': '11', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': 1}])})
    a.asset.generate_cmp_sample(n)
    ls = [dict(zip(('f', 't0', 't1'), CAP[f])) for f in sc['f']]
    p = {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'dir': 1, 'ls': ls}
    flow.damage(a, {'A': p, 'B': dict(p, ls=ls[:1])})
    d = flow.cols_dict(a.damage.ds_model.sample)
    k = len(ls)
    nA = {i: d.get(('A', '11', '1', '0', str(i)), np.zeros(n)) for i in range(k + 1)}
    tot = sum(nA.values())
    obs.close(tot, np.full(n, float(b)), 'cap:sum', 'blocks')
    F = np.array([[ref.base_cdf(CAP[f][0], CAP[f][1:], float(v)) for v in x] for f in sc['f']])
    # with a shared quantile, u < F_i means limit state i is exceeded: the damage state is i exactly for
    # max(F_j, j > i) <= u < F_i
    suffix = np.vstack([np.maximum.accumulate(F[::-1], axis=0)[::-1], np.zeros(n)])
    want = [1 - suffix[0]] + [np.clip(F[i] - suffix[i + 1], 0, None) for i in range(k)]
    for i in range(k + 1):
        zero = want[i] <= 1e-9
        obs.check((nA[i][zero] == 0).all(), 'cap:anchor', lambda: f'damage state {i} at demands where a shared quantile excludes it ({sc})')
        m, s = nA[i].sum() / b, want[i].sum()
        # (blocks are independent, each contributes a variance of at most p(1-p))
        tol = 5.5 * math.sqrt(max((want[i] * (1 - want[i])).sum(), 1.0) / b)
        obs.check(abs(m - s) < tol, 'cap:rate', lambda: f'damage state {i}: {m} realizations, want {s} +- {tol} ({sc})')
    if b > 1:
        any0 = want[0]
        var = (nA[0] - b * any0) ** 2
        wv = b * any0 * (1 - any0)
        # fourth moment bound for the tolerance: generous
        obs.check(abs(var.sum() - wv.sum()) < 0.2 * wv.sum() + 20, 'cap:blocks', lambda: f'blocks are not independent: variance {var.sum()} want {wv.sum()} ({sc})')
    dB = d.get(('B', '11', '1', '0', '0'), np.zeros(n))
    cov = ((nA[0] / b - want[0]) * (dB - (1 - F[0]))).sum()
    sd = math.sqrt((want[0] * (1 - want[0]) * F[0] * (1 - F[0])).sum() / b)
    obs.check(abs(cov) < 5.5 * sd + 1, 'cap:components', lambda: f'components are not independent: {cov} sd {sd} ({sc})')
    obs.state(sc, nA)


def run(sc, obs):
    globals()['run_' + sc['k']](sc, obs)
