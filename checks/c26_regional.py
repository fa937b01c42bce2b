"""C26: regional simulations do not depend on how the work is divided."""

from __future__ import annotations

import contextlib
import io
import itertools
import json
import math
import os
import re
import shutil
from pathlib import Path

import numpy as np
import pandas as pd

from mc import dlrun, pel

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = (
    'bounded-exhaustive exploration of complete regional simulations (own small model library with sharp capacities): all orders of intensity measures in the '
    'configuration and in the files, chunk sizes, numbers of workers, orders in which finished parts are read, subsets and orders of the inventory, numbers '
    'of neighbours and realizations; demands, damage states, costs and times of every building and realization compared with a direct calculation'
)
BOUND = {
    'quick': 'inventories of 1 to 6 buildings; 1 to 3 intensity measures in every order (configuration x files), chunks of 1..6 buildings x 1 worker x 6 reading '
             'orders, 2 and 3 workers for 3 chunk sizes, 33 filters, 2 methods, neighbours 1..5, 1003 and 2003 buildings with unmodified chunks',
    'thorough': 'the same with all 24 reading orders, all permutations of 4 buildings, and workers 2..4 for all chunk sizes',
}
ASSUMPTIONS = [
    'capacities have a dispersion of 1e-9 and consequences are deterministic, so that results do not depend on the random numbers of a run',
    'the number of buildings per chunk is a constant (1000): it is replaced in a private copy of the module when it can be identified there; independent of '
    'that, inventories of 1003 and 2003 buildings are processed with the unmodified module',
    'the operating system may list files of a folder in any order (stand-in for os.listdir and os.scandir)',
]
CHUNK = 2
HORIZON = 600

EQ, HW = 'Hazus Earthquake - Buildings', 'Hazus Hurricane Wind - Buildings'
# component: (intensity measure, thresholds in the unit of the library)
MODELS = {
    EQ: {
        'LF.C1.PC': ('PGA', 'g', (0.2, 0.35, 0.5, 0.8)),
        'LF.W1.HC': ('PGA', 'g', (0.25, 0.4, 0.6, 0.9)),
        'LF.S1.MC': ('SA_0.3', 'g', (0.5, 0.9, 1.4, 2.0)),
        'LF.URM': ('SA_1.0', 'mps2', (2.0, 5.0, 9.0, 14.0)),
    },
    HW: {
        'WA.1': ('PWS', 'mph', (60.0, 90.0, 120.0, 150.0)),
        'WB.2': ('PWS', 'mph', (70.0, 80.0, 130.0, 160.0)),
        'FL.3': ('PIH', 'ft', (1.0, 2.0, 4.0, 8.0)),
    },
}
DEMAND = {'PGA': 'Peak Ground Acceleration', 'SA_0.3': 'Spectral Acceleration|0.3', 'SA_1.0': 'Spectral Acceleration|1.0', 'PWS': 'Peak Gust Wind Speed',
          'PIH': 'Peak Inundation Height'}
UNIT = {'g': 9.80665, 'mps2': 1.0, 'mph': 0.44704, 'mps': 1.0, 'ft': 0.3048, 'm': 1.0, 'inchps2': 0.0254}
OCC = {'RES1': 1.0, 'RES3': 1.3, 'COM4': 2.0}
COST = (0.02, 0.1, 0.5, 1.0)
TIME = (2.0, 20.0, 90.0, 200.0)
SCRIPT = '''
import pandas as pd
from regional_helper import component

def auto_populate(aim):
    gi = aim['GeneralInformation']
    comp = pd.DataFrame({'Units': ['ea'], 'Location': ['1'], 'Direction': ['1'], 'Theta_0': [1], 'Family': ['N/A']}, index=[component(gi)])
    return dict(gi), {'Asset': {}, 'Losses': {'Repair': {'DecisionVariables': {'Cost': True, 'Time': %s}}}}, comp
'''


def consequences(method):
    ids = {f'LF.{o}': f for o, f in OCC.items()} if method == EQ else {c: 1.0 + 0.25 * i for i, c in enumerate(MODELS[HW])}
    return ids


def library():
    """Files of the model library."""
    out = {}
    for m, cmps in MODELS.items():
        frag = ['ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional'
                + ''.join(f',LS{k}-Family,LS{k}-Theta_0,LS{k}-Theta_1' for k in range(1, 5))]
        frag += [f'{c},0,{DEMAND[im]},{u},0,0' + ''.join(f',lognormal,{t},1e-9' for t in th) for c, (im, u, th) in cmps.items()]
        cons = ['ID,Incomplete,Quantity-Unit,DV-Unit' + ''.join(f',DS{k}-Family,DS{k}-Theta_0,DS{k}-Theta_1' for k in range(1, 5))]
        for c, f in consequences(m).items():
            cons.append(f'{c}-Cost,0,1 EA,loss_ratio' + ''.join(f',,{v * f!r},' for v in COST))
            cons.append(f'{c}-Time,0,1 EA,day' + ''.join(f',,{v * f!r},' for v in TIME))
        out[m] = {'fragility.csv': '\n'.join(frag) + '\n', 'consequence_repair.csv': '\n'.join(cons) + '\n', 'pelicun_config.py': SCRIPT % (m == EQ),
                  'regional_helper.py': "def component(gi):\n    return gi['StructureType']\n"}
    return out


_READY: list = []


def ensure():
    import pelicun

    if _READY:
        return
    root = Path(pelicun.__file__).parent
    res = root / 'resources'
    paths = json.loads((res / 'dlml_resource_paths.json').read_text())
    for name, files in library().items():
        d = res / 'DamageAndLossModelLibrary' / paths[name]
        d.mkdir(parents=True, exist_ok=True)
        for f, text in files.items():
            (d / f).write_text(text)
    src = root / 'tools' / 'regional_sim.py'
    text = src.read_text()
    if len(re.findall(r'\b1000\b', text)) == 1:
        src.write_text(re.sub(r'\b1000\b', "int(os.environ.get('VERIF_CHUNK', '1000'))", text))
        os.environ['VERIF_CHUNKS'] = '1'
    os.environ['PYTHONPATH'] = str(root.parent)
    os.environ['JOBLIB_TEMP_FOLDER'] = str(pel.SCRATCH)
    _READY.append(1)


def prepare(tier):  # noqa: ARG001
    ensure()


# -- inputs --------------------------------------------------------------------
GRID = [(-122.30, 37.80), (-122.20, 37.81), (-122.29, 37.91), (-122.18, 37.93), (-122.05, 37.85)]
TYPES = {EQ: ['LF.C1.PC', 'LF.W1.HC', 'LF.S1.MC', 'LF.URM'], HW: ['WA.1', 'WB.2', 'FL.3']}
BLD = [(-122.27, 37.82), (-122.21, 37.83), (-122.24, 37.88), (-122.20, 37.81), (-122.10, 37.90), (-122.28, 37.90)]
OCCS = ['RES3', 'COM4', 'RES3', 'RES1', 'COM4', 'RES1']
IMS = {'PGA': (0.12, 0.75, 'g'), 'SA_0.3': (0.3, 1.9, 'g'), 'SA_1.0': (1.0, 13.0, 'mps2'), 'PWS': (45.0, 155.0, 'mph'), 'PIH': (0.4, 7.0, 'ft')}


def im_value(im, g, r, n):
    lo, hi, _ = IMS[im]
    k = list(IMS).index(im)
    t = ((g * 7 + r * 5 + k * 3 + (g * r) % 4) % 17) / 16
    return round(lo + (hi - lo) * t, 4) + 0.0007 * g + 0.00013 * r


def inventory(sc):
    rows = []
    for j, b in enumerate(sc['blds']):
        lon, lat = BLD[b % 6]
        if b >= 6:
            lon, lat = lon + 0.00001 * b, lat - 0.00002 * (b % 7)
        ty = TYPES[sc['method']]
        # only components whose intensity measure is available
        ty = [t for t in ty if MODELS[sc['method']][t][0] in sc['ims']]
        rows.append({'id': sc.get('ids', sc['blds'])[j], 'Latitude': lat, 'Longitude': lon, 'StructureType': ty[(b + b // 3) % len(ty)],
                     'OccupancyClass': OCCS[b % 6], 'ReplacementCost': 1000.0 * (b + 1)})
    return rows


def expected(sc):
    """{id: {im: [...]}}, damage, cost, time of every building."""
    rows = inventory(sc)
    n_file = sc.get('rows', 4)
    nd, nr = sc.get('samples', n_file), sc.get('real', 4)
    avail = min(n_file, nd)
    low = set(sc.get('calm', ()))
    grid = GRID[:sc.get('ngrid', 5)]
    out = {}
    keep = sc.get('keep')
    for row in rows:
        if keep is not None and row['id'] not in keep:
            continue
        d = [math.hypot(row['Longitude'] - x, row['Latitude'] - y) for x, y in grid]
        near = sorted(range(len(grid)), key=lambda i: d[i])[: sc.get('k', 3)]
        zero = [i for i in near if d[i] == 0]
        w = {i: 1 / d[i] ** 2 for i in near} if not zero else {i: 1.0 * (i in zero) for i in near}
        tot = sum(w.values())
        dem = {im: [sum(w[i] * _val(sc, im, i, r % avail, low) for i in near) / tot for r in range(nd)] for im in sc['ims']}
        im, u, th = MODELS[sc['method']][row['StructureType']]
        f = UNIT[sc['ims'][im]] / UNIT[u]
        ds = [sum(dem[im][r % nd] * f > t for t in th) for r in range(nr)]
        loss = consequences(sc['method'])[f"LF.{row['OccupancyClass']}" if sc['method'] == EQ else row['StructureType']]
        out[row['id']] = {
            'dem': dem, 'ds': ds, 'cost': [0.0 if k == 0 else COST[k - 1] * loss for k in ds], 'time': [0.0 if k == 0 else TIME[k - 1] * loss for k in ds],
        }
    return out


def _val(sc, im, g, r, low):
    v = im_value(im, g, r, 0)
    if g in low:
        v *= 0.01
    return v * UNIT[IMS[im][2]] / UNIT[sc['ims'][im]]


def write(where, sc):
    low = set(sc.get('calm', ()))
    n = sc.get('rows', 4)
    grid = GRID[:sc.get('ngrid', 5)]
    names = [f'GP_{(g * 3) % 5}.csv' for g in range(len(grid))]
    cols = sc.get('cols') or list(sc['ims'])
    ev = where / 'event'
    ev.mkdir()
    for g, name in enumerate(names):
        ks = cols if not (sc.get('mixed') and g % 2) else cols[::-1]
        data = {'time': range(n)} if sc.get('extra') else {}
        data.update({im: [repr(_val(sc, im, g, r, low)) for r in range(n)] for im in ks})
        pd.DataFrame(data).to_csv(ev / name, index=False)
    pd.DataFrame({'GP_file': names, 'Longitude': [x for x, _ in grid], 'Latitude': [y for _, y in grid]}).to_csv(ev / 'EventGrid.csv', index=False)
    inv = pd.DataFrame(inventory(sc))
    inv.to_csv(where / 'inventory.csv', index=False)
    app = {'assetSourceFile': 'inventory.csv', 'pathToSource': str(where)}
    if sc.get('filter') is not None:
        app['filter'] = sc['filter']
    cfg = {
        'Applications': {
            'RegionalMapping': {'Buildings': {'ApplicationData': {'neighbors': sc.get('k', 3), 'samples': sc.get('samples', n)}}},
            'DL': {'Buildings': {'ApplicationData': {'Realizations': sc.get('real', 4), 'DL_Method': sc['method']}}},
            'Assets': {'Buildings': {'ApplicationData': app}},
        },
        'RegionalEvent': {'eventFile': 'EventGrid.csv', 'eventFilePath': str(ev), 'units': sc['ims']},
    }
    (where / 'config.json').write_text(json.dumps(cfg))


class permuted:
    """Folders are listed in a given order."""

    def __init__(self, k):
        self.k = k

    def order(self, names):
        names = sorted(names, key=str)
        if self.k is None or len(names) < 2:
            return names
        if len(names) <= 4:
            perms = list(itertools.permutations(names))
            return list(perms[self.k % len(perms)])
        r = self.k % len(names)
        names = names[r:] + names[:r]
        return names[::-1] if (self.k // len(names)) % 2 else names

    def __enter__(self):
        self.l, self.s = os.listdir, os.scandir

        def listdir(*a):
            return self.order(self.l(*a))

        class Scan:
            def __init__(s, *a):
                with self.s(*a) as it:
                    entries = {e.name: e for e in it}
                s.items = iter([entries[n] for n in self.order(entries)])

            def __iter__(s):
                return s.items

            def __next__(s):
                return next(s.items)

            def __enter__(s):
                return s

            def __exit__(s, *x):
                return False

            def close(s):
                pass

        os.listdir, os.scandir = listdir, Scan

    def __exit__(self, *x):
        os.listdir, os.scandir = self.l, self.s
        return False


def simulate(where, sc):
    """In a child process."""
    os.chdir(where)
    os.environ['VERIF_CHUNK'] = str(sc.get('chunk', 1000))
    import pelicun.tools.regional_sim as rs

    err = io.StringIO()
    out = {'end': 'ok'}
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
        ctx = permuted(sc.get('perm')) if sc.get('cores', 1) == 1 and sc.get('perm') is not None else contextlib.nullcontext()
        try:
            with ctx:
                rs.regional_sim('config.json', num_cores=sc.get('cores', 1))
        except Exception as e:  # noqa: BLE001
            import traceback
            out['end'] = type(e).__name__
            out['text'] = traceback.format_exc()[-1500:]
    out['files'] = {p.name: p.read_text() for p in sorted(where.glob('*.csv')) if p.name != 'inventory.csv'}
    if sc.get('cores', 1) > 1:
        from joblib.externals.loky import get_reusable_executor

        get_reusable_executor().shutdown(wait=True, kill_workers=True)
    return out


def close(a, b):
    return abs(a - b) <= 1e-8 * max(1.0, abs(b))


def compare(obs, sc, res, want, sig):
    if not obs.check(res['end'] == 'ok', f'{sig}:failed', res.get('text', '')):
        return
    ids = [r['id'] for r in inventory(sc) if sc.get('keep') is None or r['id'] in sc['keep']]
    if sc.get('keep') is not None:
        ids = list(sc['keep'])
    nd, nr = sc.get('samples', sc.get('rows', 4)), sc.get('real', 4)
    f = res['files']
    names = ['damage.csv', 'demand.csv', 'repair_costs.csv'] + (['repair_times.csv'] if sc['method'] == EQ else [])
    if not obs.check(sorted(f) == names, f'{sig}:files', sorted(f)):
        return
    dem = pd.read_csv(io.StringIO(f['demand.csv']), index_col=0, dtype=str)
    cols = [f'{im}-{b}-1' for b in ids for im in sc['ims']]
    if obs.check(sorted(dem.columns) == sorted(cols), f'{sig}:demand columns', list(dem.columns)):
        rows = [str(i) for i in range(nd)]
        obs.check([str(i) for i in dem.index if str(i) != 'Units'] == rows, f'{sig}:demand rows', list(dem.index))
        bad = []
        for b in ids:
            for im in sc['ims']:
                got = [float(dem.loc[i, f'{im}-{b}-1']) for i in dem.index if str(i) != 'Units']
                if len(got) != nd or not all(close(x, y) for x, y in zip(got, want[b]['dem'][im])):
                    bad.append((b, im, got, want[b]['dem'][im]))
                if 'Units' in dem.index and dem.loc['Units', f'{im}-{b}-1'] != sc['ims'][im]:
                    bad.append((b, im, dem.loc['Units', f'{im}-{b}-1']))
        obs.check(not bad, f'{sig}:demand', bad[:2])
        obs.check('Units' in dem.index, f'{sig}:demand units', list(dem.index))
    for name, key in (('damage.csv', 'ds'), ('repair_costs.csv', 'cost'), ('repair_times.csv', 'time')):
        if name not in names:
            continue
        df = pd.read_csv(io.StringIO(f[name]), index_col=0)
        if not obs.check(list(df.index) == ids, f'{sig}:{key} buildings', f'{list(df.index)[:20]} instead of {ids[:20]}'):
            continue
        obs.check([str(c) for c in df.columns] == [str(i) for i in range(nr)], f'{sig}:{key} realizations', list(df.columns))
        bad = [(b, list(df.loc[b]), want[b][key]) for b in ids if not (len(df.loc[b]) == nr and all(close(x, y) for x, y in zip(df.loc[b], want[b][key])))]
        obs.check(not bad, f'{sig}:{key}', bad[:3])


def run(sc, obs):
    ensure()
    where = pel.scratch('reg')
    try:
        write(where, sc)
        res = dlrun.in_child(simulate, where, sc, timeout=500)
        obs.step()
        if sc.get('reject'):
            obs.check(res['end'] == 'ValueError', 'rejected', res)
            obs.check(res['files'] == {}, 'rejected:files', list(res['files']))
            obs.outcomes.add('rejected')
            return
        want = expected(sc)
        compare(obs, sc, res, want, sc['kind'])
        obs.state(want if len(want) < 50 else sc)
        for v in want.values():
            obs.outcomes.update(f'DS{k}' for k in v['ds'])
    finally:
        shutil.rmtree(where, ignore_errors=True)


E3 = {'PGA': 'g', 'SA_0.3': 'g', 'SA_1.0': 'mps2'}
H2 = {'PWS': 'mph', 'PIH': 'ft'}


def order(d, keys):
    return {k: d[k] for k in keys}


def scenarios(tier):
    th = tier == 'thorough'
    six = list(range(6))
    base = {EQ: {'method': EQ, 'blds': six, 'ims': E3}, HW: {'method': HW, 'blds': six, 'ims': H2}}
    # real chunks of the unmodified module
    for n, cores in ((1003, 2), (2003, 3)) if not th else ((1003, 2), (2003, 3), (1000, 1), (1001, 1)):
        for m in (EQ, HW):
            if n == 2003 and m == EQ and not th:
                continue
            yield {'kind': 'large', **base[m], 'blds': [(i * 7) % n for i in range(n)] if n % 7 else list(range(n)), 'cores': cores, 'chunk': 1000}
    # workers
    for m in (EQ, HW):
        for cores in (2, 3, 4) if th else (2, 3):
            for chunk in (1, 2, 3, 4, 5, 6) if th else (1, 2, 4):
                yield {'kind': 'workers', **base[m], 'cores': cores, 'chunk': chunk}
    # orders of intensity measures
    for m, all_ims in ((EQ, E3), (HW, H2)):
        for r in range(1, len(all_ims) + 1):
            for ks in itertools.permutations(all_ims, r):
                for cols in itertools.permutations(ks):
                    for mixed in (False, True) if r > 1 else (False,):
                        yield {'kind': 'measures', **base[m], 'ims': order(all_ims, ks), 'cols': list(cols), 'mixed': mixed, 'extra': mixed, 'chunk': 4}
        yield {'kind': 'measures', **base[m], 'cols': list(all_ims)[::-1], 'extra': True, 'k': 1}
    # units
    for u in ('mps2', 'inchps2', 'g'):
        for w in ('g', 'inchps2'):
            yield {'kind': 'units', **base[EQ], 'ims': {'SA_0.3': u, 'PGA': w, 'SA_1.0': u}}
    # chunk sizes and reading orders
    for m in (EQ, HW):
        for chunk in range(1, 8):
            for perm in [None, *range(24 if th else 6)]:
                yield {'kind': 'chunks', **base[m], 'chunk': chunk, 'perm': perm}
    # inventories: subsets, orders, ids
    for m in (EQ, HW):
        for n in range(1, 7):
            for b0 in six if n < 3 else (0, 3):
                blds = [(b0 + i) % 6 for i in range(n)]
                yield {'kind': 'inventory', **base[m], 'blds': blds, 'ids': [10 * b + (b % 3) for b in blds], 'chunk': 2}
        for blds in itertools.permutations(range(4)):
            if th or blds[0] in {1, 3}:
                yield {'kind': 'inventory', **base[m], 'blds': list(blds), 'ids': [(5 * b + 7) % 23 for b in blds], 'chunk': 3}
    # filters
    for m in (EQ, HW):
        for flt, keep in (
            ('0', [0]), ('3', [3]), ('0-5', six), ('5, 0', [0, 5]), ('1-2,4', [1, 2, 4]), ('4,1-2', [1, 2, 4]), (' 2 - 3 ', [2, 3]), ('2,2,2', [2]),
            ('1-3,2-4', [1, 2, 3, 4]), ('', None), ('3,', [3]), ('5,4,3,2,1,0', six),
        ):
            for chunk in (1, 1000):
                yield {'kind': 'filter', **base[m], 'blds': [4, 0, 5, 2, 1, 3], 'filter': flt, 'keep': keep, 'chunk': chunk}
        for flt, keep in (('3-27', range(3, 28)), ('10-12,25-29,2', [2, 10, 11, 12, *range(25, 30)]), ('0-29', range(30)), ('29,9-18', [*range(9, 19), 29])):
            yield {'kind': 'filter', **base[m], 'blds': [(7 * i + 4) % 30 for i in range(30)], 'filter': flt, 'keep': list(keep), 'chunk': 12}
        for flt in ('6', '0-6', '1,x', '3-1', '1;2', '0.5'):
            yield {'kind': 'filter', **base[m], 'filter': flt, 'reject': True}
    # events: neighbours, realizations, buildings without damage
    for m in (EQ, HW):
        for k in range(1, 6):
            for ng in range(k, 6):
                yield {'kind': 'neighbours', **base[m], 'k': k, 'ngrid': ng, 'chunk': 4}
        for rows in (1, 3, 4):
            for samples in (1, 2, 3, 7):
                for real in (1, 3, 8):
                    yield {'kind': 'realizations', **base[m], 'rows': rows, 'samples': samples, 'real': real, 'chunk': 4}
        for r in range(1, 6):
            for calm in itertools.combinations(range(5), r):
                for chunk in (1, 6):
                    yield {'kind': 'calm', **base[m], 'calm': list(calm), 'k': 1, 'chunk': chunk}
    # wrong configuration
    for m in (EQ, HW):
        yield {'kind': 'missing', **base[m], 'cols': list(base[m]['ims'])[:1], 'reject': True}
