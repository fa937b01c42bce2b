"""C11: a block's damage state is that of its highest exceeded limit state."""

import itertools

import numpy as np

from mc import dmgref as dr
from mc import flow, large, ref

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = (
    'all tuples of limit-state capacities x degenerate damage-state weights x block counts x batch sizes x a demand ladder '
    'around every capacity, plus every (family, parameters, k) fragility at the k/n quantile demand under stratified sampling; '
    'each damage state table is compared cell by cell (or, where capacity is random, by exact stratified counts) with a loop model; '
    'a state is a distinct damage-state table'
)
BOUND = {
    'quick': '<=3 limit states, capacities from a 4-letter alphabet, <=3 performance groups, blocks 1..3, batch sizes 1..5 and 1000, n<=12'
             '; six large buildings (22 stories, 40 components, 12 limit states, 13 blocks, 12 equal rows); every pattern of blank limit states',
    'thorough': '<=4 limit states, capacities from a 5-letter alphabet, <=3 performance groups, blocks 1..4, batch sizes 1..9 and 1000, n<=25',
}
ASSUMPTIONS = ['demand exactly equal to capacity counts as not exceeded (probability-zero event for random capacities)']
CHUNK = 4
CAP = [1.0, 2.0, 3.5, 5.0, 0.25]
LAD = [0.0, 0.2, 0.9999, 1.0, 1.0001, 1.7, 2.0, 2.0001, 3.0, 3.6, 4.999, 5.001, 9.0]
WEIGHTS = [None, '1.0|0.0', '0.0|1.0', '0|0|1', '0|1 | 0']
PGA = 'Peak Ground Acceleration'


def _comps(maxls, cap, wset):
    """Every capacity tuple; weights rotate through the alphabet."""
    out = {}
    k = 0
    for m in range(1, maxls + 1):
        for t in itertools.product(cap, repeat=m):
            for j in range(wset):
                ls = []
                for i, c in enumerate(t):
                    w = WEIGHTS[(j * (i + 1) + (k if j else 0)) % len(WEIGHTS)]
                    d = {'t0': c, 'f': flow.NAN if (k + i) % 2 else 'deterministic'}
                    if w:
                        d['w'] = w
                    ls.append(d)
                out[f'c{k}'] = ls
                k += 1
    return out


FRAG = [
    ('lognormal', (2.0, 0.4)), ('lognormal', (0.3, 1.1)), ('normal', (2.0, 0.3)), ('normal', (50.0, 0.02)),
    ('weibull', (2.0, 1.7)), ('uniform', (1.0, 4.0)), ('multilinear_CDF', ((0.0, 0.0), (1.0, 0.25), (3.0, 0.75), (4.0, 1.0))),
]


def scenarios(tier):
    out = []
    q = tier == 'quick'
    maxls, cap = (3, CAP[:4]) if q else (4, CAP)
    comps = _comps(maxls, cap, 3)
    names = list(comps)
    size = 60
    for i in range(0, len(names), size):
        out.append({'k': 'det', 'cmps': {n: comps[n] for n in names[i : i + size]}, 'batch': [3, 7, 1000][(i // size) % 3]})
    # interplay of performance groups, blocks and batches
    nb = 3 if q else 4
    base = {
        'a': [{'t0': 1.0}, {'t0': 3.5}],
        'b': [{'t0': 2.0, 'w': '0|1'}],
        'c': [{'t0': 2.0}, {'t0': 1.0, 'w': '1|0'}, {'t0': 5.0}],
    }
    for bl in itertools.product(range(1, nb + 1), repeat=3):
        for b in [1, 2, 3, 4, 5, 1000] if q else [*range(1, 10), 1000]:
            out.append({'k': 'batch', 'blocks': bl, 'batch': b, 'cmps': base})
    ns = [1, 2, 5, 12] if q else [1, 2, 3, 5, 10, 12, 25]
    for (f, th), n, meth, tr in itertools.product(FRAG, ns, ['LHS', 'LHS_midpoint'], [0, 1, 2]):
        if tr and f in {'multilinear_CDF', 'uniform'}:
            continue
        out.append({'k': 'frag', 'f': f, 'th': th, 'n': n, 'meth': meth, 'tr': tr})
    pairs = [
        [('lognormal', (1.0, 0.4)), ('lognormal', (2.0, 0.4))],
        [('lognormal', (1.0, 0.4)), ('lognormal', (1.2, 0.1))],
        [('lognormal', (2.0, 0.3)), ('lognormal', (1.0, 0.3))],
        [('lognormal', (1.0, 0.4)), ('normal', (2.0, 0.3)), ('weibull', (4.0, 2.0))],
        [('uniform', (0.5, 2.0)), ('lognormal', (1.5, 0.6)), ('lognormal', (3.0, 0.4)), ('lognormal', (5.0, 0.4))],
        [('deterministic', (1.0,)), ('lognormal', (2.0, 0.5))],
        [('lognormal', (1.0, 0.4)), ('deterministic', (1.4,))],
    ]
    for p, bl, b, n in itertools.product(pairs, [1, 2, 3], [1, 2, 1000], ns[1:]):
        out.append({'k': 'nested', 'ls': p, 'blocks': bl, 'batch': b, 'n': n})
    wts = ['0.5|0.5', '0.2|0.8', '0.9|0.1', '0.25|0.25|0.5', '0.1|0.2|0.3|0.4', '0|0.5|0.5']
    for w1, w2, bl, n in itertools.product(wts, [None, '0.4|0.6'], [1, 2], [1, 4, 10, 20]):
        out.append({'k': 'multi', 'w': [w1, w2], 'blocks': bl, 'n': n})
        out.append({'k': 'multi', 'w': [w2, w1], 'blocks': bl, 'n': n})
    for f in ['lognormal', 'normal', 'deterministic', 'weibull', 'uniform']:
        for u, du in itertools.product(['g', 'mps2', 'inchps2'], repeat=2):
            out.append({'k': 'units', 'f': f, 'u': u, 'du': du})
    for lo in range(1, 5):
        for perm in itertools.permutations(range(3)):
            out.append({'k': 'cols', 'perm': perm, 'n': 3})
    out += [{'k': 'manyls', 'n': 12}]
    # limit states that are left blank
    for m in (2, 3, 4) if q else (2, 3, 4, 5):
        for bl in (1, 2, 3):
            out.append({'k': 'gap', 'm': m, 'blocks': bl, 'batch': [1, 4, 1000][(m + bl) % 3]})
    out += [{'k': 'large', 'v': v, 'batch': b} for v in range(6) for b in ((7, 1000) if q else (1, 2, 7, 11, 50, 1000))]
    return out


def table(a):
    return flow.cols_dict(a.damage.ds_model.ds_sample)


def check_probs(a, obs, sig):
    """Reported probabilities are the frequencies of the table."""
    p = a.damage.ds_model.probabilities()
    t = table(a)
    obs.check(len(p) == len(t), sig, f'{len(p)} rows for {len(t)} blocks')
    for key, v in t.items():
        row = p.loc[key]
        vv = v[v != -1]
        if len(vv) == 0:
            obs.check(row.isna().all(), sig, f'{key}: {row.to_dict()}')
            continue
        got = {int(c): float(x) for c, x in row.items() if not np.isnan(x) and x != 0}
        want = {int(s): float(np.mean(vv == s)) for s in set(vv)}
        obs.close([got.get(s, 0) for s in sorted({*got, *want})], [want.get(s, 0) for s in sorted({*got, *want})], sig, f'{key}')


def run(sc, obs):
    k = sc['k']
    if k == 'det':
        n = len(LAD)
        marg = [{'cmp': c, 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0} for c in sc['cmps']]
        a = flow.start({'PGA-0-1': ['mps2', LAD]}, marg)
        flow.damage(a, {c: {'type': PGA, 'unit': 'mps2', 'ls': ls} for c, ls in sc['cmps'].items()}, batch=sc['batch'])
        obs.step(4)
        t = table(a)
        obs.eq(sorted(t), sorted((c, '0', '1', '0', '1') for c in sc['cmps']), 'columns')
        for c, ls in sc['cmps'].items():
            want = dr.states([x['t0'] for x in ls], dr.certain(ls), LAD)
            obs.close(t[c, '0', '1', '0', '1'], want, 'state', f'{c} {ls}')
            obs.state(want, [x['t0'] for x in ls])
        check_probs(a, obs, 'probabilities')
    elif k == 'batch':
        rows = [('a', '1', 0), ('b', '2', 1), ('c', '1', 2)]
        dem = {'PGA-1-1': ['mps2', LAD], 'PGA-2-1': ['mps2', LAD[::-1]], 'PGA-1-2': ['mps2', [x * 0.5 for x in LAD]]}
        marg = [{'cmp': c, 'Units': 'EA', 'Location': l, 'Direction': '1', 'Theta_0': 6.0, 'Blocks': sc['blocks'][i]} for c, l, i in rows]
        # a second group of the first component elsewhere
        marg.append({'cmp': 'a', 'Units': 'EA', 'Location': '1', 'Direction': '2', 'Theta_0': 2.0, 'Blocks': 2})
        a = flow.start(dem, marg)
        flow.damage(a, {c: {'type': PGA, 'unit': 'mps2', 'ls': ls} for c, ls in sc['cmps'].items()}, batch=sc['batch'])
        obs.step(4)
        t = table(a)
        want = {}
        for c, l, i in rows:
            ls = sc['cmps'][c]
            for b in range(1, sc['blocks'][i] + 1):
                want[c, l, '1', '0', str(b)] = dr.states([x['t0'] for x in ls], dr.certain(ls), dem[f'PGA-{l}-1'][1])
        for b in (1, 2):
            want['a', '1', '2', '0', str(b)] = dr.states([1.0, 3.5], [1, 2], dem['PGA-1-2'][1])
        obs.eq(sorted(t), sorted(want), 'blocks', f"batch={sc['batch']} blocks={sc['blocks']}")
        for key, w in want.items():
            if key in t:
                obs.close(t[key], w, 'batch-dependence', f"{key} batch={sc['batch']}")
        obs.state(t)
        check_probs(a, obs, 'probabilities')
    elif k == 'frag':
        f, th, n = sc['f'], sc['th'], sc['n']
        tr = None
        if sc['tr']:
            lo, hi = ref.quantile(f, th, None, 0.2), ref.quantile(f, th, None, 0.85)
            tr = (lo, None) if sc['tr'] == 1 else (lo, hi)
        us = [(i + d) / (n + 0.0) for i in range(n + 1) for d in (-0.3, 0.0, 0.3)]
        us = [u for u in us if 0 < u < 1]
        dem = {f'PGA-{i}-1': ['mps2', [ref.quantile(f, th, tr, u)] * n] for i, u in enumerate(us)}
        ls = {'f': f, 't0': th[0], 't1': th[1] if len(th) > 1 else flow.NAN}
        if f == 'multilinear_CDF':
            ls = {'f': f, 't0': ','.join(str(p[0]) for p in th) + '|' + ','.join(str(p[1]) for p in th)}
        if tr:
            ls['lo'], ls['hi'] = tr[0], (flow.NAN if tr[1] is None else tr[1])
        marg = [{'cmp': 'c', 'Units': 'EA', 'Location': f'0--{len(us) - 1}', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': 2}]
        a = flow.start(dem, marg, opts={'Sampling': {'SamplingMethod': sc['meth']}})
        flow.damage(a, {'c': {'type': PGA, 'unit': 'mps2', 'ls': [ls]}}, batch=[1, 3, 1000][n % 3])
        obs.step(4)
        t = table(a)
        for i, u in enumerate(us):
            for b in ('1', '2'):
                v = t['c', str(i), '1', '0', b]
                c = int(np.sum(v == 1))
                obs.check(set(v) <= {0.0, 1.0}, f'frag-values:{f}', v)
                fl = int(np.floor(u * n + 1e-6))
                ce = int(np.ceil(u * n - 1e-6))
                if sc['meth'] == 'LHS_midpoint':
                    d = u * n - fl
                    if abs(d - 0.5) < 1e-6 or abs(d) < 1e-6:
                        ok = fl <= c <= ce
                    else:
                        ok = c == (fl if d < 0.5 else ce)
                else:
                    ok = fl <= c <= ce
                obs.check(ok, f'fragility:{f}', f'{th} tr={tr} P={u} n={n}: exceeded {c} times')
        obs.state(f, th, n, len(us), [t['c', str(i), '1', '0', '1'] for i in range(len(us))])
    elif k == 'nested':
        n, pl = sc['n'], sc['ls']
        grid = sorted({ref.quantile(f, th, None, p) for f, th in pl if f != 'deterministic' for p in (0.07, 0.33, 0.61, 0.93)} | {0.99, 1.01, 1.39, 1.41})
        dem = {f'PGA-{i}-1': ['mps2', [d] * n] for i, d in enumerate(grid)}
        lsl = [{'f': f, 't0': th[0], 't1': th[1] if len(th) > 1 else flow.NAN} for f, th in pl]
        marg = [{'cmp': 'c', 'Units': 'EA', 'Location': f'0--{len(grid) - 1}', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': sc['blocks']}]
        a = flow.start(dem, marg, opts={'Sampling': {'SamplingMethod': 'LHS_midpoint'}})
        flow.damage(a, {'c': {'type': PGA, 'unit': 'mps2', 'ls': lsl}}, batch=sc['batch'])
        obs.step(4)
        t = table(a)
        u = dr.midpoints(n)
        # a deterministic first limit state leaves the second one to its own variable
        for i, d in enumerate(grid):
            exc = []
            for f, th in pl:
                p = (1.0 if d > th[0] else 0.0) if f == 'deterministic' else ref.base_cdf(f, th, d)
                exc.append(u < p)
            if any(abs(ref.base_cdf(f, th, d) * n % 1 - 0.5) < 1e-6 for f, th in pl if f != 'deterministic'):
                continue
            want = np.zeros(n)
            for j, e in enumerate(exc, start=1):
                want[e] = j
            for b in range(1, sc['blocks'] + 1):
                v = t['c', str(i), '1', '0', str(b)]
                obs.eq(np.sort(v), np.sort(want), 'nested', f'{pl} demand={d} n={n}')
        obs.state(t)
    elif k == 'multi':
        n = sc['n']
        ls = [{'t0': 1.0}, {'t0': 2.0}]
        for x, w in zip(ls, sc['w']):
            if w:
                x['w'] = w
        marg = [{'cmp': 'c', 'Units': 'EA', 'Location': '0--2', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': sc['blocks']}]
        dem = {f'PGA-{i}-1': ['mps2', [d] * n] for i, d in enumerate((0.5, 1.5, 2.5))}
        a = flow.start(dem, marg, opts={'Sampling': {'SamplingMethod': 'LHS_midpoint'}})
        flow.damage(a, {'c': {'type': PGA, 'unit': 'mps2', 'ls': ls}}, batch=2)
        obs.step(4)
        t = table(a)
        ids = dr.ds_ids(ls)
        u = dr.midpoints(n)
        for i in range(3):
            if i == 0:
                want = np.zeros(n)
            else:
                w = dr.parse_weights(ls[i - 1].get('w')) or [1.0]
                cum = np.cumsum(w)
                if any(abs((c * n) % 1 - 0.5) < 1e-9 for c in cum[:-1]):
                    continue
                want = np.array([ids[i - 1][int(np.sum(x > cum[:-1]))] for x in u])
            for b in range(1, sc['blocks'] + 1):
                obs.eq(np.sort(t['c', str(i), '1', '0', str(b)]), np.sort(want), 'weights', f'{ls} loc {i}')
        obs.state(t)
    elif k == 'units':
        si = {'g': 9.80665, 'mps2': 1.0, 'inchps2': 0.0254}
        f = sc['f']
        th = {'lognormal': (2.0, 0.4), 'normal': (2.0, 0.3), 'deterministic': (2.0,), 'weibull': (2.0, 1.7), 'uniform': (1.0, 4.0)}[f]
        n = 10
        ps = [0.08, 0.32, 0.58, 0.87]
        cap = [ref.quantile(f, th, None, p) for p in ps] if f != 'deterministic' else [1.0, 1.99, 2.01, 5.0]
        cnt = [round(p * n) for p in ps] if f != 'deterministic' else [0, 0, n, n]
        dem = {f'PGA-{i}-1': [sc['du'], [c * si[sc['u']] / si[sc['du']]] * n] for i, c in enumerate(cap)}
        a = flow.start(dem, [{'cmp': 'c', 'Units': 'EA', 'Location': '0--3', 'Direction': '1', 'Theta_0': 1.0}], opts={'Sampling': {'SamplingMethod': 'LHS_midpoint'}})
        flow.damage(a, {'c': {'type': PGA, 'unit': sc['u'], 'ls': [{'f': f, 't0': th[0], 't1': th[1] if len(th) > 1 else flow.NAN}]}})
        obs.step(4)
        t = table(a)
        obs.eq([int(np.sum(t['c', str(i), '1', '0', '1'])) for i in range(4)], cnt, f'units:{f}', f"{sc['u']} {sc['du']}")
        obs.state(t)
    elif k == 'cols':
        # limit states listed in another column order in the input table
        ls = [{'t0': 1.0}, {'t0': 2.0, 'w': '0|1'}, {'t0': 3.5}]
        df = flow.dmg_df({'c': {'type': PGA, 'unit': 'mps2', 'ls': ls}, 'd': {'type': PGA, 'unit': 'mps2', 'ls': ls[:2]}})
        order = [c for c in df.columns if not c[0].startswith('LS')]
        for i in sc['perm']:
            order += [c for c in df.columns if c[0] == f'LS{i + 1}']
        df = df[order]
        a = flow.start({'PGA-0-1': ['mps2', LAD]}, [{'cmp': c, 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0} for c in 'cd'])
        flow.damage(a, df)
        obs.step(4)
        t = table(a)
        obs.close(t['c', '0', '1', '0', '1'], dr.states([1, 2, 3.5], [1, 3, 4], LAD), 'column-order', sc['perm'])
        obs.close(t['d', '0', '1', '0', '1'], dr.states([1, 2], [1, 3], LAD), 'column-order', sc['perm'])
        obs.state(t)
    elif k == 'gap':
        # every pattern of blank limit states: same as without the blanks
        cmps, plain = {}, {}
        for r, keep in enumerate(itertools.product((0, 1), repeat=sc['m'])):
            if not any(keep):
                continue
            full = [{'t0': c, **({'w': '0|1'} if (r + i) % 3 == 0 else {}), **({'f': 'lognormal', 't1': 1e-9} if (r + i) % 2 else {})}
                    for i, c in enumerate([1.0, 3.5, 2.0, 5.0, 0.25][: sc['m']])]
            cmps[f'g{r}'] = [x if kp else {'t0': flow.NAN} for x, kp in zip(full, keep)]
            plain[f'g{r}'] = [x for x, kp in zip(full, keep) if kp]
        marg = [{'cmp': c, 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': sc['blocks']} for c in cmps]
        lad = [x + 1e-5 for x in LAD]
        a = flow.start({'PGA-0-1': ['mps2', lad]}, marg)
        flow.damage(a, {c: {'type': PGA, 'unit': 'mps2', 'ls': ls} for c, ls in cmps.items()}, batch=sc['batch'])
        obs.step(4)
        t = table(a)
        obs.eq(sorted(t), sorted((c, '0', '1', '0', str(b + 1)) for c in cmps for b in range(sc['blocks'])), 'gap:columns')
        for key, v in t.items():
            ls = plain[key[0]]
            obs.close(v, dr.states([x['t0'] for x in ls], dr.certain(ls), lad), 'gap:state', f'{key} {cmps[key[0]]}')
        obs.state(sc, t)
    elif k == 'large':
        v = sc['v']
        a = large.start(v)
        flow.damage(a, large.parts(v)[0], batch=sc['batch'])
        obs.step(4)
        t = table(a)
        want = large.expected(v)[0]
        obs.eq(sorted(t), sorted(want), 'large:columns', sc)
        for key, w in want.items():
            if key in t:
                obs.close(t[key], w, 'large:state', f'{key} {sc}')
        obs.state(sc, t)
    elif k == 'manyls':
        m = sc['n']
        ls = [{'t0': float(i)} for i in range(1, m + 1)]
        d = [i + 0.5 for i in range(m + 1)]
        a = flow.start({'PGA-0-1': ['mps2', d]}, [{'cmp': 'c', 'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0}])
        flow.damage(a, {'c': {'type': PGA, 'unit': 'mps2', 'ls': ls}})
        obs.step(4)
        obs.close(table(a)['c', '0', '1', '0', '1'], list(range(m + 1)), 'many-limit-states')
        obs.state(m)
