"""C15: capacity adjustments shift exactly the addressed medians."""

import itertools

import numpy as np

from mc import dmgref as dr
from mc import flow, large, ref

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = (
    'every assignment of adjustment operations to performance groups and limit states (and per-realization lists) over the alphabet '
    'is run; damage states are compared with a loop model using the adjusted capacities, on a demand ladder that brackets every adjusted value'
)
BOUND = {
    'quick': '2 components x 2 locations, 2 limit states, operations + - * /, single/ALL/per-LS/list forms, 3 families; similar group names and several quantity sets of one group; every ordered pair of addressed groups over the form alphabet; '
             'capacities with a real spread against plain runs at scaled demands; adjustments in the configuration of complete runs; large buildings',
    'thorough': 'same alphabet with triples of addressed groups',
}
ASSUMPTIONS = ['adjustments refer to capacities in base units (mps2 here)']
CHUNK = 6
PGA = 'Peak Ground Acceleration'
GRP = ['a-1-1', 'a-2-1', 'b-1-1', 'a-1-2']
FORMS = [
    {'ALL': '*1.2'}, {'LS1': '*0.5'}, {'LS2': '/2'}, {'LS1': '+0.75', 'LS2': '-0.5'}, {'ALL': '-0.25'}, {'LS1': '/4', 'LS2': '*3'},
    {'LS3': '*9'},
]
# groups whose names begin or end alike; a-1-1 has two sets of quantities
WIDE = ['a-1-1', 'a-11-1', 'a-1-11', 'aa-1-1', 'a-0-1', 'a.1-1-1', 'a-21-2']
CAPS = {'a': [1.0, 2.0], 'b': [1.5, 2.5]}
OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}


def scenarios(tier):
    out = []
    for fam in ('deterministic', 'lognormal', 'normal'):
        for g, f in itertools.product(GRP, range(len(FORMS))):
            out.append({'k': 'spec', 'fam': fam, 'spec': {g: FORMS[f]}})
        for (g1, g2), f1, f2 in itertools.product(itertools.permutations(GRP, 2), range(len(FORMS)), range(len(FORMS))):
            if tier == 'quick' and (f1 + 2 * f2) % 5:
                continue
            out.append({'k': 'spec', 'fam': fam, 'spec': {g1: FORMS[f1], g2: FORMS[f2]}})
        if tier != 'quick':
            for gs in itertools.permutations(GRP, 3):
                for fs in itertools.product(range(4), repeat=3):
                    out.append({'k': 'spec', 'fam': fam, 'spec': {g: FORMS[f] for g, f in zip(gs, fs)}})
        out.append({'k': 'spec', 'fam': fam, 'spec': {}})
        out.append({'k': 'spec', 'fam': fam, 'spec': {'zz-1-1': {'ALL': '*2'}}})
        lists = [['*1.5', '*0.5', '*1', '+0.2'], ['*0.1', '*10', '/1', '-0.4'], ['+1', '+2', '+3', '+4'], ['*1', '*3', '*0.5', '+0'],
                 ['/1', '/1', '*2', '*0.2'], ['*2', '*0.35'], ['+0', '+2.6'], ['*0.5', '*0.5', '*4']]
        for li, key, bl in itertools.product(lists, ('ALL', 'LS1', 'LS2'), (1, 2)):
            out.append({'k': 'list', 'fam': fam, 'ops': li, 'key': key, 'blocks': bl})
        for g, f in itertools.product(WIDE, range(len(FORMS))):
            out.append({'k': 'wide', 'fam': fam, 'spec': {g: FORMS[f]}})
        for g1, g2 in itertools.permutations(WIDE, 2):
            out.append({'k': 'wide', 'fam': fam, 'spec': {g1: FORMS[0], g2: FORMS[3]}})
    for s in (
        {'a-1-1': {'ALL': '*1.2', 'LS1': '*2'}}, {'a-1-1': {'DS1': '*1.2'}}, {'a-1-1': {'LS1': 1.2}}, {'a-1-1': {'LS1': '^2'}},
        {'a-1-1': {'LS1': '*x'}}, {'a-1-1': {'LS1': ['*1', 2.0]}},
    ):
        out.append({'k': 'bad', 'spec': s})
    for f in ('weibull', 'uniform'):
        out.append({'k': 'ignored', 'f': f})
    for fam, g, key, o, b in itertools.product(('lognormal', 'normal'), GRP, ('ALL', 'LS1', 'LS2'), range(len(SPREAD)), (1, 3)):
        if tier != 'quick' or (len(key) + o + b + GRP.index(g)) % 2:
            out.append({'k': 'spread', 'fam': fam, 'g': g, 'key': key, 'o': o, 'blocks': b})
    out += [{'k': 'config', 'v': v, 'db': db} for v in range(len(CONFIG)) for db in ('Hazus Earthquake - Transportation', 'Hazus Earthquake - Potable Water')]
    out += [{'k': 'large', 'v': v, 'shift': s, 'batch': b} for v in range(6) for s in range(3 if tier == 'quick' else 12) for b in (7, 1000)]
    return out


N = 48
SPREAD = ['*1.6', '/2', '*0.3', '+0.9', '-0.4', [('*1.5', '/2', '*1', '*3.25')[r % 4] for r in range(N)],
          [('+0.5', '-0.25', '+0', '*2')[r // 5 % 4] for r in range(N)]]


def run_spread(sc, obs):
    """Capacities with a real spread: the adjusted capacity at a demand behaves as the plain one at the demand over the factor."""
    fam, g, key, b = sc['fam'], sc['g'], sc['key'], sc['blocks']
    op = SPREAD[sc['o']]
    t1 = {'lognormal': 0.45, 'normal': 0.2}[fam]
    base = [0.3 + (7 * r % N) * 3.4 / N for r in range(N)]
    med = CAPS[g[0]]
    ops = [op] * N if isinstance(op, str) else op
    fac = [[adjust(m, [o]) / m if key in ('ALL', f'LS{i + 1}') else 1.0 for o in ops] for i, m in enumerate(med)]

    def go(dem, spec):
        marg = setup('lognormal', None, blocks=b, ladder=base)[1]
        par = {c: {'type': PGA, 'unit': 'mps2', 'ls': [{'t0': x, 't1': t1, 'f': fam} for x in v]} for c, v in CAPS.items()}
        a = flow.start({k: ['mps2', dem if k == 'PGA-' + g[2:] else base] for k in ('PGA-1-1', 'PGA-2-1', 'PGA-1-2')}, marg)
        flow.damage(a, par, scaling=spec)
        obs.step(4)
        return flow.cols_dict(a.damage.ds_model.ds_sample)

    got = go(base, {g: {key: op}})
    plain = go(base, None)
    runs = [go([d / f for d, f in zip(base, x)], None) for x in fac]
    obs.eq(sorted(got), sorted(plain), 'spread:columns')
    hit = 0
    for k, v in got.items():
        if '-'.join(k[:3]) != g:
            obs.close(v, plain[k], f'spread:others:{fam}', f'{k} {sc}')
            continue
        ex = [np.array(r[k]) >= i + 1 for i, r in enumerate(runs)]
        want = np.where(ex[1], 2.0, np.where(ex[0], 1.0, 0.0))
        hit += int(np.sum(want != np.array(plain[k])))
        obs.close(v, want, f'spread:{fam}', f'{k} {sc}')
    obs.state('spread', got, hit)


CONFIG = [{}, {0: {'ALL': '*1.5'}}, {1: {'LS1': '+1.2'}}, {2: {'LS1': '/2'}, 0: {'LS1': '-0.5'}}, {0: {'LS1': ['*2', '*0.5', '+1', '-0.3', '*1', '/3', '*3']}},
          {1: {'ALL': ['*1', '*1', '*0.1', '*1', '*9', '*1', '+2']}, 3: {'LS1': '*0.4'}}, {0: {'LS2': '*5'}}, {'collapse': {'ALL': '*1e-12'}},
          {0: {'XS1': '*2'}}, {0: {'LS1': '2'}}]


def run_config(sc, obs):
    """Adjustments in the configuration of a complete run."""
    from checks import c28_outputs as c28
    from mc import dlrun

    src = dlrun.src_dmg(1 if 'Transp' in sc['db'] else 2)
    comps = sorted(src)
    lev = [0.5, 1.5, 2.5, 3.5, 1.0, 3.0, 0.1]
    spec = {(f'{comps[k]}-0-1' if isinstance(k, int) else f'{k}-0-1'): v for k, v in CONFIG[sc['v']].items()}
    cfg = {'GeneralInformation': {'AssetName': 'x', 'units': {'length': 'm'}}, 'DL': {
        'Demands': {'DemandFilePath': 'response.csv', 'CoupledDemands': True, 'SampleSize': str(len(lev))},
        'Asset': {'ComponentAssignmentFile': 'CMP.csv', 'ComponentDatabase': sc['db']},
        'Damage': {'DamageProcess': 'None', 'ScalingSpecification': spec}, 'Options': {'Seed': 3, 'PrintLog': False, 'DemandOffset': {'PGA': 0}}}}
    files = {'response.csv': dlrun.demand_csv({'PGA-0-1': lev}),
             'CMP.csv': 'ID,Units,Location,Direction,Theta_0,Blocks,Family\n' + ''.join(f'{k},ea,0,1,2.0,1,\n' for k in comps)}
    res, raw = dlrun.in_child(c28._run, {'config': cfg, 'files': files, 'losses': False, 'kw': {'realizations': len(lev)}})
    obs.step(4)
    if sc['v'] >= len(CONFIG) - 2:
        obs.check(res['end'] != 'ok', 'config:bad-accepted', str(spec))
        return
    if not obs.check(res['end'] == 'ok', 'config:end', f"{sc}: {res['end']}"):
        return
    got = {}
    for col, x in raw['damage'][0].items():
        r = dict(zip(raw['damage_names'], col))
        if r['ds'] == '1':
            got[r['cmp']] = np.array(x, dtype=float)
    for c in comps:
        cap = [src[c]] * len(lev)
        for key, o in spec.get(f'{c}-0-1', {}).items():
            if key in ('ALL', 'LS1'):
                cap = [adjust(x, [o if isinstance(o, str) else o[r]]) for r, x in enumerate(cap)]
        obs.close(got.get(c, np.zeros(len(lev))), [2.0 * (d > x) for d, x in zip(lev, cap)], 'config:quantity', f'{c} {spec}')
    obs.state('config', sc, {k: v.tolist() for k, v in got.items()})


def adjust(cap, ops):
    for op in ops:
        cap = OPS[op[0]](cap, float(op[1:]))
    return cap


def setup(fam, caps_adj, blocks=1, ladder=None, n=None):
    marg = [
        {'cmp': 'a', 'Units': 'EA', 'Location': '1,2', 'Direction': '1', 'Theta_0': 1.0, 'Blocks': blocks},
        {'cmp': 'a', 'Units': 'EA', 'Location': '1', 'Direction': '2', 'Theta_0': 1.0, 'Blocks': 2},
        {'cmp': 'b', 'Units': 'EA', 'Location': '1', 'Direction': '1', 'Theta_0': 1.0},
    ]
    dem = {k: ['mps2', ladder] for k in ('PGA-1-1', 'PGA-2-1', 'PGA-1-2')}
    t1 = {'deterministic': flow.NAN, 'lognormal': 1e-7, 'normal': 1e-7}[fam]
    par = {c: {'type': PGA, 'unit': 'mps2', 'ls': [{'t0': x, 't1': t1, 'f': fam} for x in v]} for c, v in CAPS.items()}
    return dem, marg, par


def run_large(sc, obs):
    """Many groups with an adjustment of their own and up to 12 limit states."""
    v, sh = sc['v'], sc['shift']
    comps, _ = large.parts(v)
    grp = list(dict.fromkeys(k[:3] for k, _, _ in large.groups(v)))
    spec, caps = {}, {}
    for j, g in enumerate(grp):
        t0 = [ls['t0'] for ls in comps[g[0]]['ls']]
        m = len(t0)
        cap = [[x] * large.N for x in t0]
        kind = (j + sh) % 6
        per = {}
        if kind == 1:
            per = {'ALL': '*1.3'}
        elif kind == 2:
            per = {f'LS{1 + (j + i) % m}': ('*0.7', '+1.5', '/2', '-0.25')[(i + j) % 4] for i in range(3)}
        elif kind == 3:
            per = {f'LS{m}': [f'{"*+"[i % 2]}{0.5 + ((3 * i + j) % 7) / 4}' for i in range(large.N)]}
        elif kind == 4:
            per = {'ALL': [f'{"/*"[i % 2]}{0.5 + ((5 * i + j) % 9) / 4}' for i in range(large.N)]}
        elif kind == 5:
            per = {f'LS{i + 1}': f'*{1 + (i + j) % 3 * 0.2}' for i in range(m)}
        for key, op in per.items():
            for i in range(m):
                if key in ('ALL', f'LS{i + 1}'):
                    cap[i] = [adjust(c, [op if isinstance(op, str) else op[r]]) for r, c in enumerate(cap[i])]
        if per:
            spec['-'.join(g)] = per
        caps[g] = cap
    a = large.start(v)
    flow.damage(a, comps, batch=sc['batch'], scaling=spec)
    obs.step(4)
    t = flow.cols_dict(a.damage.ds_model.ds_sample)
    dem = large.demand(large.sizes(v)[0])
    st, _, _ = large.expected(v)
    obs.eq(sorted(t), sorted(st), 'large:columns', sc)
    for key, got in t.items():
        g = key[:3]
        x = large.used(v, dem, comps, *g)
        ids = dr.certain(comps[g[0]]['ls'])
        want = [dr.state([c[r] for c in caps[g]], ids, x[r]) for r in range(large.N)]
        obs.close(got, want, 'large:state', lambda key=key, g=g: f"{key} {spec.get('-'.join(g))} {sc}")
    obs.state('large', t)


def run(sc, obs):
    if sc['k'] == 'large':
        return run_large(sc, obs)
    if sc['k'] == 'spread':
        return run_spread(sc, obs)
    if sc['k'] == 'config':
        return run_config(sc, obs)
    if sc['k'] == 'spec':
        spec = sc['spec']
        caps = {}
        for g in GRP:
            c = list(CAPS[g[0]])
            for key, op in spec.get(g, {}).items():
                for i in (0, 1):
                    if key in ('ALL', f'LS{i + 1}'):
                        c[i] = adjust(c[i], [op])
            caps[g] = c
        pts = sorted({x for v in [*caps.values(), *CAPS.values()] for x in v})
        lad = [p * f for p in pts for f in (0.999, 1.001)]
        dem, marg, par = setup(sc['fam'], caps, ladder=lad)
        a = flow.start(dem, marg)
        flow.damage(a, par, scaling=spec, batch=2)
        obs.step(4)
        t = flow.cols_dict(a.damage.ds_model.ds_sample)
        for key, v in t.items():
            g = '-'.join(key[:3])
            obs.close(v, dr.states(caps[g], [1, 2], lad), f"scaling:{sc['fam']}", f'{key} spec={spec} caps={caps[g]}')
        obs.state(t)
        # the stored parameters are not touched, so a plain run is the plain result
        b = flow.damage(flow.start(dem, marg), par)
        a.damage.calculate()
        obs.step(5)
        obs.eq(flow.cols_dict(a.damage.ds_model.ds_sample), flow.cols_dict(b.damage.ds_model.ds_sample) if sc['fam'] == 'deterministic' else flow.cols_dict(a.damage.ds_model.ds_sample), 'sticky', spec)
        for key, v in flow.cols_dict(a.damage.ds_model.ds_sample).items():
            obs.close(v, dr.states(CAPS[key[0]], [1, 2], lad), 'sticky', f'{key} after {spec}')
    elif sc['k'] == 'wide':
        spec, fam = sc['spec'], sc['fam']
        caps = {}
        for g in WIDE:
            c = [1.0, 2.0]
            for key, op in spec.get(g, {}).items():
                for i in (0, 1):
                    if key in ('ALL', f'LS{i + 1}'):
                        c[i] = adjust(c[i], [op])
            caps[g] = c
        pts = sorted({x for v in [*caps.values(), [1.0, 2.0]] for x in v})
        lad = [p * f for p in pts for f in (0.999, 1.001)]
        t1 = flow.NAN if fam == 'deterministic' else 1e-7
        par = {c: {'type': PGA, 'unit': 'mps2', 'ls': [{'t0': x, 't1': t1, 'f': fam} for x in (1.0, 2.0)]} for c in ('a', 'aa', 'a.1')}
        marg = [{'cmp': c, 'Units': 'EA', 'Location': l, 'Direction': d, 'Theta_0': 1.0, 'Blocks': 2}
                for c, l, d in [g.split('-') for g in [*WIDE, 'a-1-1']]]
        a = flow.start({'PGA-' + g.split('-', 1)[1]: ['mps2', lad] for g in WIDE}, marg)
        flow.damage(a, par, scaling=spec)
        obs.step(4)
        t = flow.cols_dict(a.damage.ds_model.ds_sample)
        obs.eq(len(t), 2 * (len(WIDE) + 1), 'wide-columns')
        for key, v in t.items():
            obs.close(v, dr.states(caps['-'.join(key[:3])], [1, 2], lad), f'wide:{fam}', f'{key} spec={spec}')
        obs.state(t)
    elif sc['k'] == 'list':
        n = len(sc['ops'])
        for i in range(8):
            d = [0.3, 0.9, 1.3, 1.9, 2.4, 3.5, 5.5, 12.0][i]
            lad = [d] * n
            dem, marg, par = setup(sc['fam'], None, blocks=sc['blocks'], ladder=lad)
            a = flow.start(dem, marg)
            flow.damage(a, par, scaling={'a-1-1': {sc['key']: sc['ops']}})
            obs.step(4)
            t = flow.cols_dict(a.damage.ds_model.ds_sample)
            for key, v in t.items():
                want = []
                for r in range(n):
                    c = list(CAPS[key[0]])
                    if key[:3] == ('a', '1', '1'):
                        for j in (0, 1):
                            if sc['key'] in ('ALL', f'LS{j + 1}'):
                                c[j] = adjust(c[j], [sc['ops'][r]])
                    want.append(dr.state(c, [1, 2], d))
                obs.close(v, want, f"list:{sc['fam']}", f'{key} {sc} demand={d}')
            obs.state(t)
    elif sc['k'] == 'bad':
        dem, marg, par = setup('lognormal', None, ladder=[1.0, 2.0])
        a = flow.start(dem, marg)
        try:
            flow.damage(a, par, scaling=sc['spec'])
        except (ValueError, TypeError):
            obs.check(True, 'bad')
        else:
            obs.fail('bad-accepted', sc['spec'])
        obs.step()
    else:
        f = sc['f']
        th = (2.0, 1.7) if f == 'weibull' else (1.0, 4.0)
        d = [ref.quantile(f, th, None, p) for p in (0.15, 0.55, 0.85)]
        n = 10
        a = flow.start({f'PGA-{i}-1': ['mps2', [x] * n] for i, x in enumerate(d)}, [{'cmp': 'a', 'Units': 'EA', 'Location': '0--2', 'Direction': '1', 'Theta_0': 1.0}], opts={'Sampling': {'SamplingMethod': 'LHS_midpoint'}})
        flow.damage(a, {'a': {'type': PGA, 'unit': 'mps2', 'ls': [{'f': f, 't0': th[0], 't1': th[1]}]}}, scaling={'a-1-1': {'ALL': '*100'}})
        obs.step(4)
        t = flow.cols_dict(a.damage.ds_model.ds_sample)
        cnt = [int(np.sum(t['a', str(i), '1', '0', '1'])) for i in range(3)]
        obs.check(all(abs(c - p * n) <= 0.5001 for c, p in zip(cnt, (0.15, 0.55, 0.85))), 'unsupported-family-scaled', cnt)
        obs.state(t)
