"""C05: reproducible, properly stratified samples."""

from __future__ import annotations

import hashlib
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np
import pandas as pd

from mc import flow, full, pel, ref

PROPERTY = 'C05'
LEVEL = 'exploration'
NAN = float('nan')
RULE = (
    'reproducibility: option set x hash seed (one process each) and option set x history of the process x interleaving of two assessments with '
    'at most two switches, results compared bit by bit with an undisturbed run; stratification: sampling method x size x mix of '
    'variables, every variable of every sample assigned to its equal-probability interval; distinct = distinct (scenario, sample)'
)
BOUND = {
    'quick': '8 option sets x 4 hash seeds; histories of up to 2 events out of 7; interleavings at every second stage; sizes 1-40, 100, 1000; up to 130 variables at once',
    'thorough': '8 option sets x 12 hash seeds; histories of up to 3 events; interleavings at every stage; more sizes and seeds',
}
ASSUMPTIONS = [
    'a seed is given; tables list their rows in the same order',
    'stratification of variables within a correlation set applies to the set as a whole and is not checked for its dependent members',
]
CHUNK = 2
HORIZON = 400

OPTS = [
    {'opts': {}},
    {'opts': {'Sampling': {'SamplingMethod': 'LHS_midpoint'}}, 'seed': 11},
    {'opts': {'Sampling': {'SamplingMethod': 'MonteCarlo'}}, 'seed': 12},
    {'opts': {'EconomiesOfScale': {'AcrossFloors': False, 'AcrossDamageStates': True}}, 'batch': 2},
    {'opts': {'RepairCostAndTimeCorrelation': 0.6, 'ListAllDamageStates': True}},
    {'opts': {'NonDirectionalMultipliers': {'ALL': 1.5, 'PFA': 1.1}}, 'n': 17},
    {'opts': {'Sampling': {'SampleSize': 33}}, 'gen': {'PreserveRawOrder': True}},
    {'opts': {}, 'gen': {'DemandCloning': {'PFV-1-1': ['PFV-1-1', 'PFV-3-1'], 'PID-1-1': ['PID-1-1', 'PID-1-12', 'PID-7-1']}}, 'seed': 5},
]
EVENTS = ['same', 'other seed', 'other options', 'failure', 'global rng', 'read', 'registry']


def scenarios(tier):
    th = tier != 'quick'
    for i in range(len(OPTS)):
        for hs in range(1, 13 if th else 5):
            yield {'k': 'hash', 'o': i, 'hs': hs}
    for n in range(1, 4 if th else 3):
        for h in itertools.product(EVENTS, repeat=n):
            if n == 3 and len(set(h)) < 3:
                continue
            yield {'k': 'history', 'h': h, 'o': (len(h[0]) + len(h)) % len(OPTS)}
    cuts = range(0, 11, 1 if th else 2)
    for i in cuts:
        for j in cuts:
            yield {'k': 'interleave', 'i': i, 'j': j, 'o': [(i + j) % 4, (i + 2 * j + 1) % 8]}
    for i in range(len(OPTS)):
        yield {'k': 'seeds', 'o': i}
    sizes = [1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 25, 40, 100, 1000] if not th else [*range(1, 61), 99, 100, 128, 1000, 5000]
    for n in sizes:
        for method in ('LHS', 'LHS_midpoint', 'MonteCarlo'):
            for seed in (1, 2) if not th else range(1, 9):
                yield {'k': 'strat', 'n': n, 'm': method, 'seed': seed}
            yield {'k': 'system', 'n': n, 'm': method}
    for nv in (7, 20, 50, 130) if not th else (7, 12, 20, 33, 50, 65, 130, 300, 1100):
        for n in (60, 100):
            for method in ('LHS', 'LHS_midpoint', 'MonteCarlo'):
                yield {'k': 'many', 'n': n, 'm': method, 'nv': nv}
    for m in ('LHS_', 'lhs', 'Sobol', ''):
        yield {'k': 'badmethod', 'm': m}


# ---------------------------------------------------------------------------
def raw_digest(x) -> str:
    """Bit-exact digest of a result."""
    h = hashlib.sha1()
    h.update(repr([list(map(str, c)) if isinstance(c, tuple) else str(c) for c in x.columns]).encode())
    h.update(repr(list(map(str, x.index))).encode())
    for i in range(x.shape[1]):
        col = x.iloc[:, i]
        if col.dtype == object:
            h.update(repr(col.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(col.to_numpy(dtype=float)).tobytes())
    return h.hexdigest()[:20]


def whole(a):
    r = {k: raw_digest(v) for k, v in full.results(a).items()}
    df, ex = full.aggregate(a, replacement_configuration=None)
    r['agg'] = raw_digest(df)
    r['ds_sample'] = raw_digest(a.damage.save_sample())
    return r


def make(o, **kw):
    spec = dict(OPTS[o])
    spec.update(kw)
    return full.start(**spec)


def child(o, hs, extra=''):
    """The same analysis in a process of its own."""
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hs)
    code = (
        "import sys, json; sys.path.insert(0, '/verif')\n"
        'from mc import pel; pel.setup()\n'
        'from checks import c05_reproducible as c\n'
        'with pel.quiet():\n'
        f'    {extra or "pass"}\n'
        f'    r = c.whole(c.make({o}))\n'
        "print('RESULT ' + json.dumps(r))\n"
    ).replace('/verif', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=env, timeout=300, check=False)
    line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
    if not line:
        raise RuntimeError('child failed: ' + p.stderr[-1500:])
    return json.loads(line[0][7:])


def run(sc, obs):
    with pel.quiet():
        globals()[f'run_{sc["k"]}'](sc, obs)


def same(got, want, obs, tag):
    for k in sorted(set(got) | set(want)):
        obs.check(got.get(k) == want.get(k), f'{tag}:{k} differs', lambda: f'{got.get(k)} want {want.get(k)}')


_BASE: dict = {}


def base(o, **kw):
    """Undisturbed run (in a fresh process image: first thing a worker does)."""
    key = repr((o, kw))
    if key not in _BASE:
        _BASE[key] = whole(make(o, **kw))
    return _BASE[key]


def run_hash(sc, obs):
    got = child(sc['o'], sc['hs'])
    obs.step()
    obs.state(sc, got)
    same(got, base(sc['o']), obs, 'hash seed')


def event(e, k):
    if e == 'same':
        make(k % len(OPTS))
    elif e == 'other seed':
        make(k % len(OPTS), seed=999 + k)
    elif e == 'other options':
        make((k + 3) % len(OPTS), n=9, upto='dmg')
    elif e == 'failure':
        a = make(k % len(OPTS), upto='cmp')
        try:
            a.damage.calculate()
        except Exception:  # noqa: BLE001, S110
            pass
        try:
            a.loss.calculate()
        except Exception:  # noqa: BLE001, S110
            pass
    elif e == 'global rng':
        import random

        np.random.seed(k + 77)
        random.seed(k + 5)
        np.random.random(5)
        random.random()
    elif e == 'read':
        a = make(k % len(OPTS))
        a.demand.save_sample()
        a.asset.save_cmp_sample()
        a.damage.save_sample()
        a.loss.save_sample()
    elif e == 'registry':
        from pelicun import uq

        reg = uq.RandomVariableRegistry(np.random.default_rng(1))
        reg.add_RV(uq.rv_class_map('normal')(name='x', theta=np.array([1.0, 0.2])))
        reg.generate_sample(5, 'LHS')


def run_history(sc, obs):
    want = base(sc['o'])
    for k, e in enumerate(sc['h']):
        event(e, sc['o'] + k)
    got = whole(make(sc['o']))
    obs.step(len(sc['h']) + 1)
    obs.state(sc, got)
    same(got, want, obs, 'history')


def run_interleave(sc, obs):
    specs = [dict(OPTS[o]) for o in sc['o']]
    want = [base(o) for o in sc['o']]
    opts = [s.pop('opts') for s in specs]
    seeds = [s.pop('seed', 3) for s in specs]
    a = [pel.asmt(Seed=sd, **op) for sd, op in zip(seeds, opts)]

    def go(w, lo, hi):
        for s in full.STEPS[lo:hi]:
            full.step(a[w], s, **specs[w])
            obs.step()

    i, j = sc['i'], sc['j']
    go(0, 0, i)
    go(1, 0, j)
    go(0, i, 10)
    go(1, j, 10)
    for w in (0, 1):
        got = whole(a[w])
        obs.state(sc, w, got)
        same(got, want[w], obs, 'interleaved')


def run_seeds(sc, obs):
    """The seed matters, setting it again starts over."""
    one = base(sc['o'])
    two = whole(make(sc['o'], seed=4321))
    again = whole(make(sc['o'], seed=4321))
    obs.step(3)
    obs.state(sc, one, two)
    same(again, two, obs, 'same seed')
    for k in ('demand', 'cmp', 'damage', 'ds', 'lf', 'agg'):
        if k == 'demand' and OPTS[sc['o']].get('x'):
            continue
        obs.check(one[k] != two[k], f'seeds:{k} does not depend on the seed')
    spec = dict(OPTS[sc['o']])
    seed = spec.pop('seed', 3)
    a = pel.asmt(Seed=seed + 1, **spec.pop('opts'))
    a.options.seed = seed
    for s in full.STEPS:
        full.step(a, s, **spec)
    same(whole(a), one, obs, 'seed set later')
    # starting over with the same assessment
    a.options.seed = seed
    for s in full.STEPS:
        full.step(a, s, **spec)
    same(whole(a), one, obs, 'seed set again')
    n = spec.get('n', 40)
    for k, v in full.results(a).items():
        if k != 'marginals':
            obs.check(len(v) == n and list(v.index) == list(range(n)), f'seeds:number of realizations:{k}', lambda: f'{len(v)} want {n}')


# ---------------------------------------------------------------------------
def strata(u, n, method, obs, tag):
    """``u``: values of one variable in [0, 1]."""
    u = np.asarray(u, dtype=float)
    obs.check(u.shape == (n,), f'{tag}:size', lambda: f'{u.shape} want {n}')
    obs.check(bool(np.all((u >= 0) & (u <= 1))), f'{tag}:range', lambda: str(u))
    if method == 'MonteCarlo':
        return
    if method == 'LHS_midpoint':
        obs.close(np.sort(u), (np.arange(n) + 0.5) / n, f'{tag}:midpoints', rtol=1e-6, atol=1e-9)
    else:
        k = np.floor(u * n - 1e-9).clip(0, n - 1)
        k2 = np.floor(u * n + 1e-9).clip(0, n - 1)
        edge = k != k2
        if not edge.any():
            obs.check(sorted(k) == list(range(n)), f'{tag}:one per interval', lambda: f'{np.sort(u)[:20]}')
        else:
            s = np.sort(u)
            obs.check(
                bool(np.all((s * n >= np.arange(n) - 1e-6) & (s * n <= np.arange(1, n + 1) + 1e-6))), f'{tag}:one per interval', lambda: str(s[:20])
            )


FAM = [
    ('normal', (10.0, 0.2), None), ('lognormal', (1.0, 0.5), (0.5, NAN)), ('uniform', (0.0, 1.0), None), ('weibull', (2.0, 1.5), None),
    ('normal_std', (0.0, 1.0), (-1.0, 2.0)), ('uniform', (-3.0, 5.0), None),
]


def run_strat(sc, obs):
    from pelicun import uq

    n, m = sc['n'], sc['m']
    reg = uq.RandomVariableRegistry(np.random.default_rng(sc['seed']))
    add = []
    for k, (f, th, tr) in enumerate(FAM):
        kw = {} if tr is None else {'truncation_limits': np.array(tr)}
        rv = uq.rv_class_map(f)(name=f'v{k}', theta=np.array(th), **kw)
        add.append((rv, f, th, tr))
        reg.add_RV(rv)
        if k == 1:
            reg.add_RV(uq.rv_class_map('deterministic')(name='det', theta=np.array([4.0])))
            reg.add_RV(uq.rv_class_map('coupled_empirical')(name='ce', theta=np.array([1.0, 2.0, 3.0])))
        if k == 3:
            anch = uq.rv_class_map('lognormal')(name='anch', theta=np.array([2.0, 0.1]), anchor=add[0][0])
            reg.add_RV(anch)
    mult = uq.rv_class_map('multinomial')(name='multi', theta=np.array([0.25, 0.35, 0.4]))
    emp = uq.rv_class_map('empirical')(name='emp', theta=np.array([5.0, 1.0, 2.0, 7.0]))
    reg.add_RV(mult)
    reg.add_RV(emp)
    reg.generate_sample(n, m)
    obs.step()
    smp = reg.RV_sample
    obs.state(sc, [smp[f'v{k}'] for k in range(len(FAM))])
    obs.check(all(len(v) == n for v in smp.values()), 'strat:size', lambda: str({k: len(v) for k, v in smp.items()}))
    us = []
    for rv, f, th, tr in add:
        u = np.array([ref.cdf(f, th, tr, float(x)) for x in smp[rv.name]])
        strata(u, n, m, obs, f'strat:{f}')
        us.append(u)
    strata([ref.cdf('lognormal', (2.0, 0.1), None, float(x)) for x in smp['anch']], n, m, obs, 'strat:anchored')
    obs.check(bool(np.all(np.asarray(smp['det']) == 4.0)), 'strat:deterministic')
    if m != 'MonteCarlo':
        for w, cnt in zip((0.25, 0.35, 0.4), np.bincount(np.asarray(smp['multi'], dtype=int), minlength=3)):
            obs.check(abs(cnt - w * n) <= 2, 'strat:multinomial counts', lambda: f'{cnt} of {n}, weight {w}')
        for v in (5.0, 1.0, 2.0, 7.0):
            cnt = int(np.sum(np.asarray(smp['emp']) == v))
            obs.check(abs(cnt - n / 4) <= 2, 'strat:empirical counts', lambda: f'{cnt} of {n}')
    if n >= 100:
        # distinct variables are independent: neither equal nor in the same order
        r = np.corrcoef(us)
        np.fill_diagonal(r, 0.0)
        obs.check(float(np.max(np.abs(r))) < 6 / math.sqrt(n), 'strat:variables depend on each other', lambda: str(r))
        # and realizations are not ordered
        for u in us:
            obs.check(abs(np.corrcoef(u[:-1], u[1:])[0, 1]) < 6 / math.sqrt(n), 'strat:realizations are ordered')
    # sampling again gives new values of the same kind
    before = {k: np.array(v) for k, v in smp.items()}
    reg.generate_sample(n, m)
    obs.step()
    if n >= 7:
        obs.check(not np.allclose(before['v0'], reg.RV_sample['v0']), 'strat:the same sample again')
    strata([ref.cdf(*FAM[0], float(x)) for x in reg.RV_sample['v0']], n, m, obs, 'strat:second sample')
    # same generator state, same sample
    reg2 = uq.RandomVariableRegistry(np.random.default_rng(sc['seed']))
    for k, (f, th, tr) in enumerate(FAM):
        kw = {} if tr is None else {'truncation_limits': np.array(tr)}
        reg2.add_RV(uq.rv_class_map(f)(name=f'v{k}', theta=np.array(th), **kw))
    reg3 = uq.RandomVariableRegistry(np.random.default_rng(sc['seed']))
    for k, (f, th, tr) in enumerate(FAM):
        kw = {} if tr is None else {'truncation_limits': np.array(tr)}
        reg3.add_RV(uq.rv_class_map(f)(name=f'v{k}', theta=np.array(th), **kw))
    reg2.generate_sample(n, m)
    reg3.generate_sample(n, m)
    obs.step(2)
    for k in range(len(FAM)):
        obs.check(np.array_equal(reg2.RV_sample[f'v{k}'], reg3.RV_sample[f'v{k}']), 'strat:same seed, different sample')


def run_many(sc, obs):
    """Many variables: each is stratified, no two depend on each other."""
    from pelicun import uq

    n, m, nv = sc['n'], sc['m'], sc['nv']
    reg = uq.RandomVariableRegistry(np.random.default_rng(5))
    for k in range(nv):
        f, th, tr = FAM[k % len(FAM)]
        reg.add_RV(uq.rv_class_map(f)(name=f'v{k}', theta=np.array(th), **({} if tr is None else {'truncation_limits': np.array(tr)})))
    reg.generate_sample(n, m)
    obs.step()
    us = []
    for k in range(nv):
        f, th, tr = FAM[k % len(FAM)]
        us.append([ref.cdf(f, th, tr, float(x)) for x in reg.RV_sample[f'v{k}']])
        strata(us[-1], n, m, obs, f'many:{f}')
    obs.state(sc, us[0], us[-1])
    r = np.corrcoef(us)
    np.fill_diagonal(r, 0.0)
    obs.check(float(np.max(np.abs(r))) < 6.5 / math.sqrt(n), 'many:variables depend on each other', lambda: f'{sc} {np.argwhere(np.abs(r) > 6.5 / math.sqrt(n))[:5]}')
    for k, u in enumerate(us):
        obs.check(abs(np.corrcoef(u, range(n))[0, 1]) < 6.5 / math.sqrt(n), 'many:realizations are ordered', f'{sc} v{k}')


def run_system(sc, obs):
    """Stratification observed in the results of an assessment."""
    n, m = sc['n'], sc['m']
    a = pel.asmt(Seed=2, Sampling={'SamplingMethod': m})
    a.demand.load_model({'marginals': pd.DataFrame(
        [['mps2', 'lognormal', 4.0, 0.3], ['mps2', 'normal', 3.0, 0.2], ['mps2', 'deterministic', 5.0, NAN], ['mps', 'uniform', 1.0, 2.0]],
        index=['PFA-1-1', 'PFA-12-1', 'PFA-2-1', 'PFV-1-1'], columns=['Units', 'Family', 'Theta_0', 'Theta_1'],
    )})
    a.demand.generate_sample({'SampleSize': n})
    d = {'-'.join(c): a.demand.sample[c].to_numpy(dtype=float) for c in a.demand.sample.columns}
    for c, f, th in (('PFA-1-1', 'lognormal', (4.0, 0.3)), ('PFA-12-1', 'normal', (3.0, 0.2)), ('PFV-1-1', 'uniform', (1.0, 2.0))):
        strata([ref.cdf(f, th, None, x) for x in d[c]], n, m, obs, 'system:demand')
    a.asset.load_cmp_model({'marginals': flow.marg_df([
        {'cmp': 'A', 'Units': 'EA', 'Location': '2', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': 1},
        {'cmp': 'A', 'Units': 'EA', 'Location': '2', 'Direction': '1', 'Theta_0': 2.0, 'Blocks': 2},
        {'cmp': 'B', 'Units': 'm2', 'Location': '2,12', 'Direction': '1', 'Theta_0': 10.0, 'Theta_1': 0.2, 'Family': 'lognormal', 'Blocks': 1},
        {'cmp': 'L', 'Units': 'EA', 'Location': '2', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': 1},
    ])})
    a.asset.generate_cmp_sample()
    cs = a.asset.cmp_sample
    obs.check(len(cs) == n, 'system:number of component realizations', lambda: f'{len(cs)} want {n}')
    for loc in ('2', '12'):
        strata([ref.cdf('lognormal', (10.0, 0.2), None, float(x)) for x in cs['B', loc, '1', '0']], n, m, obs, 'system:quantity')
    a.damage.load_model_parameters([flow.dmg_df({
        'A': {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'ls': [
            {'f': 'lognormal', 't0': 6.0, 't1': 0.4}, {'f': 'lognormal', 't0': 9.0, 't1': 0.4}]},
        'B': {'type': 'Peak Floor Acceleration', 'unit': 'mps2', 'offset': 1, 'ls': [{'f': 'deterministic', 't0': 1e-3, 'w': '0.3 | 0.7'}]},
    })], {'A', 'B'})
    a.damage.calculate(block_batch_size=1)
    qs = a.damage.ds_model.sample
    obs.check(len(qs) == n, 'system:number of damage realizations', lambda: f'{len(qs)} want {n}')
    p1, p2 = ref.cdf('lognormal', (6.0, 0.4), None, 5.0), ref.cdf('lognormal', (9.0, 0.4), None, 5.0)

    def get(c, l, u, s):
        k = (c, l, '1', u, s)
        return qs[k].to_numpy(dtype=float) if k in qs.columns else np.zeros(n)

    tol = 1 if m == 'LHS' else (1 if m == 'LHS_midpoint' else None)
    for u, blocks, q in (('0', 1, 1.0), ('1', 2, 2.0)):
        n2 = float(np.sum(get('A', '2', u, '2'))) / (q / blocks)
        n1 = float(np.sum(get('A', '2', u, '1'))) / (q / blocks)
        if tol is not None:
            obs.check(abs(n1 + n2 - blocks * n * p1) <= tol * blocks + 1e-6, 'system:exceedance count', lambda: f'{n1 + n2} want {blocks * n * p1}')
            obs.check(abs(n2 - blocks * n * p2) <= tol * blocks + 1e-6, 'system:exceedance count of LS2', lambda: f'{n2} want {blocks * n * p2}')
    if tol is not None:
        c1 = int(np.sum(get('B', '2', '0', '1') > 0))
        obs.check(abs(c1 - 0.3 * n) <= 1 + 1e-6, 'system:weights', lambda: f'{c1} want {0.3 * n}')
    # losses: the damaged quantity of B is its quantity
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss.add_loss_map(None, 'fill')
    a.loss.load_model_parameters([
        flow.cons_df([{'id': 'B', 'dv': 'Cost', 'unit': 'USD_2011', 'q': '1 m2', 'ds': [{'f': 'lognormal', 't0': 5.0, 't1': 0.3}, {'f': 'lognormal', 't0': 5.0, 't1': 0.3}]},
                      {'id': 'B', 'dv': 'Time', 'unit': 'worker_day', 'q': '1 m2', 'ds': [{'f': 'normal', 't0': 2.0, 't1': 0.3}, {'t0': 3.0}]}]),
        flow.lf_df([{'id': 'L', 'dv': 'Cost', 'unit': 'USD_2011', 'type': 'Peak Floor Acceleration', 'dunit': 'mps2', 'offset': 1,
                     'fn': '2,2|0,1000', 'f': 'lognormal', 't1': 0.5}]),
    ])
    a.loss.calculate()
    obs.step(8)
    ds, lf = a.loss.ds_model.sample, a.loss.lf_model.sample
    obs.check(len(ds) == n and len(lf) == n, 'system:number of loss realizations', lambda: f'{len(ds)} {len(lf)} want {n}')
    v = lf['Cost', 'L', 'L', '2', '1', '0'].to_numpy(dtype=float)
    strata([ref.cdf('lognormal', (2.0, 0.5), None, x) for x in v], n, m, obs, 'system:loss function')
    q = cs['B', '2', '1', '0'].to_numpy(dtype=float)
    dmg1 = get('B', '2', '0', '1')
    for s in ('1', '2'):
        k = ('Cost', 'B', 'B', s, '2', '1', '0')
        if k not in ds.columns:
            continue
        # one variable per damage state; realized part of the strata: no two in the same interval
        on = (dmg1 > 0) if s == '1' else (dmg1 == 0)
        u = np.array([ref.cdf('lognormal', (5.0, 0.3), None, x) for x in (ds[k].to_numpy(dtype=float)[on] / q[on])])
        if m == 'LHS':
            kk = np.floor(u * n)
            obs.check(len(set(kk)) >= len(kk) - 1, 'system:consequence strata', lambda: str(sorted(kk)))
        elif m == 'LHS_midpoint':
            obs.close(u * n - np.floor(u * n), np.full(len(u), 0.5), 'system:consequence midpoints', rtol=1e-4, atol=1e-5)
    obs.state(sc, qs, ds, lf)
    agg, _ = a.loss.aggregate_losses(future=True)
    obs.check(len(agg) == n, 'system:number of aggregated realizations')


def run_badmethod(sc, obs):
    from pelicun import uq

    reg = uq.RandomVariableRegistry(np.random.default_rng(1))
    reg.add_RV(uq.rv_class_map('normal')(name='x', theta=np.array([1.0, 0.2])))
    obs.state(sc)
    try:
        reg.generate_sample(5, sc['m'])
    except Exception:  # noqa: BLE001
        obs.step()
    else:
        u = reg.RV_sample['x']
        obs.fail('badmethod:unknown sampling method accepted', f'{sc["m"]}: {u}')
