"""C28: exactly the requested outputs are produced and they agree."""

from __future__ import annotations

import copy
import itertools
import json
import math
import shutil

from mc import dlrun as d
from mc import pel

PROPERTY = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of output requests, formats and settings; every configuration is executed on the real '
             'DL_calculation and the complete contents of the output folder are compared with a reference built from the '
             'samples of the finished assessment')
RULE = ('every single output x every format request, every set of stages, all but one output, every combination of the output '
        'settings for the tables they affect, every override by the caller, every combination of output flags of '
        'auto-populated runs, configurations with and without damage and losses, output folders with earlier results and '
        'files of the user; a state is the set of files left in the output folder')
BOUND = {'quick': '14 outputs, 5 format requests, 3 settings, 32 flag combinations, 6 building models up to 13 stories, up to 1200 realizations',
         'thorough': 'additionally every pair of outputs, every format request for all stage sets'}
ASSUMPTIONS = ['built-in models replaced with a small library', 'DL_summary files are always provided']
CHUNK = 4
HORIZON = 200

SINGLES = [('Demand', 'Sample'), ('Demand', 'Statistics'), ('Asset', 'Sample'), ('Asset', 'Statistics'),
           *[('Damage', x) for x in ('Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics')],
           *[('Loss', x) for x in ('Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics',
                                   'AggregateSample', 'AggregateStatistics')]]
STEM = {'Demand': 'DEM', 'Asset': 'CMP', 'Damage': 'DMG', 'Loss': 'DV_repair'}
TAIL = {'Sample': '_sample.zip', 'Statistics': '_stats.csv', 'GroupedSample': '_grp.zip',
        'GroupedStatistics': '_grp_stats.csv', 'AggregateSample': '_agg.zip', 'AggregateStatistics': '_agg_stats.csv'}
STAGES = ('Demand', 'Asset', 'Damage', 'Loss')
SUMMARY = ('DL_summary.csv', 'DL_summary_stats.csv')
FORMATS = ('default', 'csv', 'json', 'both', 'none')
FMT = {'csv': {'CSV': True, 'JSON': False}, 'json': {'CSV': False, 'JSON': True},
       'both': {'CSV': True, 'JSON': True}, 'none': {'CSV': False, 'JSON': False}}


def fname(stage, out):
    return STEM[stage] + TAIL[out]


def scenarios(tier):
    out = []

    def add(reqs, fmt='default', settings=None, model='p58', **kw):
        out.append({'reqs': reqs, 'fmt': fmt, 'settings': settings, 'model': model, **kw})

    for s in SINGLES:
        for f in FORMATS:
            add([s], f)
    full = [list(s) for s in SINGLES]
    for model in ('p58', 'hz', 'blocks'):
        for f in FORMATS:
            add(full, f, model=model)
        for cds, sim, agg in itertools.product((False, True), repeat=3):
            add([s for s in full if s[0] != 'Demand'], 'both', {
                'CondenseDS': cds, 'SimpleIndexInJSON': sim, 'AggregateColocatedComponentResults': agg}, model=model)
        for k in ('CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults'):
            add(full, 'both', {k: True}, model=model)
    for i in range(len(full)):
        add(full[:i] + full[i + 1:], 'both')
        add([full[i]], 'both', explicit_false=True)
    for k in range(5):
        for st in itertools.combinations(STAGES, k):
            for f in (('both',) if tier == 'quick' else FORMATS):
                add([s for s in full if s[0] in st], f, stages=True)
    if tier != 'quick':
        for a, b in itertools.combinations(full, 2):
            add([a, b], 'both')
    # formats prescribed by the caller
    for f in FORMATS:
        for kw in ([], ['csv'], ['json'], ['csv', 'json'], 'csv', 'json', 'csv,json'):
            add([('Loss', 'AggregateSample'), ('Demand', 'Statistics')], f, override=kw)
    # nothing said about outputs
    for model in ('p58', 'hz', 'nolosses', 'nodamage'):
        for kw in (None, ['csv'], ['json']):
            add(None, model=model, override=kw)
    for f in ('csv', 'both'):
        add([s for s in full if s[0] not in ('Loss',)], f, model='nolosses')
        add([s for s in full if s[0] in ('Demand', 'Asset')], f, model='nodamage')
    # realizations
    for where in ('demands-int', 'demands-str', 'options', 'options-wins'):
        add(full, 'csv', sample=where)
    # large buildings and large samples
    for model in ('tall', 'many', 'both'):
        for f, st in (('both', None), ('both', {'SimpleIndexInJSON': True, 'CondenseDS': True}), ('csv', {'CondenseDS': True, 'AggregateColocatedComponentResults': True})):
            add(full, f, st, model=model)
    # auto-population
    for det in (True, False):
        for loss in (True, False):
            add(None, model='auto', detailed=det, losses=loss, flags=None)
        for fl in itertools.product((True, False), repeat=4):
            add(None, model='auto', detailed=det, losses=True, flags=list(fl))
        for kw in (['csv'], ['json'], []):
            add(None, model='auto', detailed=det, losses=True, flags=None, override=kw)
    # output folder with other files in it
    for f in ('csv', 'json', 'both'):
        for reqs in ([full[0]], full):
            for here in (False, True):
                add(reqs, f, stale=True, here=here)
    # a failing run must not remove files of the user either
    add(full, 'csv', stale=True, fail=True)
    return out


USER = {'notes.txt': 'mine', 'DEM_sample_old.csv': 'a', 'DL_summary.xlsx': 'b', 'my_DL_summary.csv': 'c',
        'DEM_stats.csv.bak': 'd', 'sub/DEM_stats.csv': 'e', 'results.json': '{}', 'DV_repair.csv': 'f',
        'DEM_sample.txt': 'g', 'dem_stats.CSV': 'h', 'CMP_model.csv': 'i'}
ALL_OUT = [fname(*s) for s in SINGLES] + list(SUMMARY)
JSONS = [f[:-3] + 'json' for f in ALL_OUT]


BLOCKS = d.cmp_csv([
    ('B.1', 'ea', '1,2', '1,2', 3, 0.2, 'normal'),
    ('B.1', 'ea', '1', '1', 2, '', ''),
    ('C.2', 'ea', '1--roof', 0, 2, '', ''),
    ('D.3', 'ea', 2, '1,2', 4, '', ''),
])


def build(sc):
    """Configuration, input files and call arguments."""
    model = sc['model']
    kw: dict = {}
    files = {'response.csv': d.demands(n=9), 'CMP.csv': BLOCKS if model == 'blocks' else d.CMP}
    n = 9
    if model == 'auto':
        base = d.p58_config()
        base['DL']['Damage'] = {'DamageProcess': 'FEMA P-58'}
        if not sc['losses']:
            base['DL'].pop('Losses')
        rows = [('B.1', 'ea', '1,2', '1', 3, ''), ('C.2', 'ea', '1', '0', 2, '')]
        files['model/pelicun_config.py'] = d.auto_script(base, rows)
        files.pop('CMP.csv')
        c = d.auto_config()
        kw.update(realizations=n, detailed_results=sc['detailed'])
        if sc['flags'] is not None:
            im, edp, dm, dv = sc['flags']
            c['outputs'] = {'IM': im, 'EDP': edp, 'DM': dm, 'DV': dv}
    else:
        if model == 'hz':
            c = d.hz_config()
            files['CMP.csv'] = d.cmp_csv([('STR.W1.L', 'ea', 1, '1,2', 1, '', ''), ('NSA.L', 'ea', '1,2', '0', 1, '', '')])
        else:
            c = d.p58_config()
        if model in ('tall', 'many', 'both'):
            st, n = {'tall': (13, 10), 'many': (2, 1200), 'both': (11, 120)}[model]
            c['DL']['Asset']['NumberOfStories'] = str(st)
            files['response.csv'] = d.demands(n=max(n, 80), stories=st)
            if st > 2:
                files['CMP.csv'] = d.cmp_csv([('B.1', 'ea', f'1--{st}', '1,2', 3, 0.2, 'normal'), *[('B.1', 'ea', str(i % 3 + 1), '1', 2 + i, '', '') for i in range(12)],
                                              ('C.2', 'ea', 'all', 0, 2, '', ''), ('D.3', 'ea', f'2,{st}', '1,2', 4, '', '')])
        c['DL']['Demands']['SampleSize'] = n
        if model in ('nolosses', 'nodamage'):
            c['DL'].pop('Losses')
        if model == 'nodamage':
            c['DL'].pop('Damage')
        if sc['reqs'] is not None:
            o: dict = {}
            if sc.get('explicit_false'):
                for s, x in SINGLES:
                    (o.setdefault(s, {}) if s != 'Loss' else o.setdefault('Loss', {}).setdefault('Repair', {}))[x] = False
            for s, x in sc['reqs']:
                (o.setdefault(s, {}) if s != 'Loss' else o.setdefault('Loss', {}).setdefault('Repair', {}))[x] = True
            if sc['fmt'] != 'default':
                o['Format'] = dict(FMT[sc['fmt']])
            if sc['settings'] is not None:
                o['Settings'] = dict(sc['settings'])
            c['DL']['Outputs'] = o
        smp = sc.get('sample')
        if smp == 'demands-str':
            c['DL']['Demands']['SampleSize'] = '13'
            n = 13
        elif smp == 'demands-int':
            c['DL']['Demands']['SampleSize'] = n = 14
        elif smp == 'options':
            c['DL']['Demands'].pop('SampleSize')
            c['DL']['Options']['Sampling'] = {'SampleSize': 15}
            n = 15
        elif smp == 'options-wins':
            c['DL']['Options']['Sampling'] = {'SampleSize': 16}
            n = 16
        if sc.get('fail'):
            c['DL']['Losses']['Repair']['MapApproach'] = 'Other'
    if sc.get('override') is not None:
        kw['output_format'] = sc['override']
    if sc.get('here'):
        kw['output_path'] = None
    pre = {}
    if sc.get('stale'):
        pre.update(USER)
        pre.update({f: 'stale' for f in ALL_OUT + JSONS})
    root = '' if sc.get('here') else 'out/'
    files.update({root + k: v for k, v in pre.items()})
    return {'config': c, 'files': files, 'kw': kw}, n


def expected(sc):
    """(requested outputs, csv, json, settings, extra files)."""
    settings = {'CondenseDS': False, 'SimpleIndexInJSON': False, 'AggregateColocatedComponentResults': False}
    pbe = {'CondenseDS': False, 'SimpleIndexInJSON': False, 'AggregateColocatedComponentResults': True}
    extra = set()
    reqs = sc['reqs']
    csv, js = True, False
    if sc['model'] == 'auto':
        extra = {'CMP_QNT.csv'}
        reqs = list(SINGLES)
        csv, js = True, True
        settings = {k: True for k in settings}
        if not sc['detailed']:
            reqs = [r for r in reqs if r not in (('Demand', 'Statistics'), ('Asset', 'Statistics'),
                                                 ('Damage', 'Sample'), ('Damage', 'Statistics'))]
            csv = False
        if not sc['losses']:
            reqs = [r for r in reqs if r[0] != 'Loss']
        if sc['flags'] is not None:
            im, edp, dm, dv = sc['flags']
            if not im and not edp:
                reqs = [r for r in reqs if r[0] != 'Demand']
            if not dm:
                reqs = [r for r in reqs if r[0] != 'Damage']
            if not dv:
                reqs = [r for r in reqs if r[0] != 'Loss']
    elif reqs is None:
        reqs = [r for r in SINGLES if not (r[0] == 'Loss' and sc['model'] in ('nolosses', 'nodamage'))
                and not (r[0] == 'Damage' and sc['model'] == 'nodamage')]
        csv, js = True, True
        settings = pbe
    else:
        if sc['fmt'] != 'default':
            csv, js = FMT[sc['fmt']]['CSV'], FMT[sc['fmt']]['JSON']
        elif not reqs:
            # an empty output section counts as none
            reqs, csv, js = list(SINGLES), True, True
        if sc['settings'] is None:
            settings = pbe
        else:
            settings.update(sc['settings'])
    if sc.get('override') is not None:
        csv, js = 'csv' in sc['override'], 'json' in sc['override']
    return [tuple(r) for r in reqs], csv, js, settings, extra


# -- reference tables ------------------------------------------------------
def stats(cols: dict) -> dict:
    """Statistics of every column, computed the long way."""
    out = {}
    for k, vals in cols.items():
        v = sorted(x for x in vals if not math.isnan(x))
        n = len(v)
        st = {'count': float(n)}
        mean = math.fsum(v) / n if n else math.nan
        st['mean'] = mean
        st['std'] = math.sqrt(math.fsum((x - mean) ** 2 for x in v) / (n - 1)) if n > 1 else math.nan
        st['log_std'] = math.nan
        if n and v[0] > 0:
            lv = [math.log(x) for x in v]
            lm = math.fsum(lv) / n
            st['log_std'] = math.sqrt(math.fsum((x - lm) ** 2 for x in lv) / (n - 1)) if n > 1 else math.nan
        st['min'] = v[0] if n else math.nan
        for p in (0.001, 0.023, 0.10, 0.159, 0.5, 0.841, 0.90, 0.977, 0.999):
            name = f'{p * 100:g}%'
            if n:
                h = (n - 1) * p
                lo = int(math.floor(h))
                hi = min(lo + 1, n - 1)
                st[name] = v[lo] + (h - lo) * (v[hi] - v[lo])
            else:
                st[name] = math.nan
        st['max'] = v[-1] if n else math.nan
        out[k] = st
    return out


def group(cols: dict, key) -> dict:
    """Sum over columns with the same key; NaN only if all are."""
    out: dict = {}
    for k, v in cols.items():
        out.setdefault(key(k), []).append(v)
    return {k: [(math.nan if all(map(math.isnan, xs)) else math.fsum(x for x in xs if not math.isnan(x)))
                for xs in zip(*vs)] for k, vs in out.items()}


def reference(raw: dict, settings: dict) -> dict:
    """{file: (columns {label tuple: values or stats}, units or None)}."""
    tabs: dict = {}

    def two(stage, a, b, cols, units):
        tabs[fname(stage, a)] = (cols, units)
        tabs[fname(stage, b)] = (stats(cols), units)

    agg = settings['AggregateColocatedComponentResults']
    two('Demand', 'Sample', 'Statistics', *raw['demand'])

    def col(tab, names, levels):
        ix = [names.index(x) for x in levels]
        cols = group(tab[0], lambda k: tuple(k[i] for i in ix))
        units = {}
        for k, u in tab[1].items():
            units.setdefault(tuple(k[i] for i in ix), u)
        return cols, units

    cmp = raw['asset']
    if agg:
        cmp = col(cmp, raw['asset_names'], ['cmp', 'loc', 'dir'])
    two('Asset', 'Sample', 'Statistics', *cmp)
    if raw['damage'] is not None:
        dmg, names = raw['damage'], raw['damage_names']
        if agg:
            names2 = ['cmp', 'loc', 'dir', 'ds']
            dmg = col(dmg, names, names2)
            names = names2
        two('Damage', 'Sample', 'Statistics', *dmg)
        cld = col(dmg, names, ['cmp', 'loc', 'ds'])
        if settings['CondenseDS']:
            gov: dict = {}
            for (c, l, s), v in cld[0].items():
                old = gov.get((c, l), [math.nan] * len(v))
                gov[c, l] = [o if math.isnan(x) else max(int(s) if x > 0 else 0, 0 if math.isnan(o) else o)
                             for x, o in zip(v, old)]
            units = {}
            for (c, l, _s), u in cld[1].items():
                units.setdefault((c, l), u)
            grp = {k: [float(x) for x in v] for k, v in gov.items()}, units
        else:
            grp = col(cld, ['cmp', 'loc', 'ds'], ['cmp'])
        two('Damage', 'GroupedSample', 'GroupedStatistics', *grp)
    if raw['loss'] is not None:
        los, names = raw['loss'], raw['loss_names']
        if agg:
            names2 = [x for x in ('dv', 'loss', 'dmg', 'ds', 'loc', 'dir') if x in names]
            los = col(los, names, names2)
            names = names2
        two('Loss', 'Sample', 'Statistics', *los)
        two('Loss', 'GroupedSample', 'GroupedStatistics', *col(los, names, ['dv', 'loss', 'dmg']))
        two('Loss', 'AggregateSample', 'AggregateStatistics', raw['agg'], None)
    summ = dict(raw['agg'] or {})
    if raw['damage'] is not None:
        n = raw['n']
        for c in ('collapse', 'irreparable'):
            summ[(c,)] = [0.0] * n
            for k, v in raw['damage'][0].items():
                nm = dict(zip(raw['damage_names'], k))
                if nm['cmp'] == c and nm['ds'] == '1':
                    summ[(c,)] = [a + (0.0 if math.isnan(b) else b) for a, b in zip(summ[(c,)], v)]
    tabs['DL_summary.csv'] = (summ, None)
    tabs['DL_summary_stats.csv'] = (stats(summ), None)
    return tabs


# -- running -----------------------------------------------------------------
def _frame(df):
    return {(k if isinstance(k, tuple) else (k,)): [float(x) for x in v]
            for k, v in zip([tuple(map(str, c)) if isinstance(c, tuple) else (str(c),) for c in df.columns],
                            df.to_numpy(dtype=float).T.tolist())}


def _units(s):
    return {tuple(map(str, k)): str(v) for k, v in s.items()}


def _run(spec):
    """The run and the samples of its assessment."""
    from pelicun import assessment as am

    made = []
    init = am.AssessmentBase.__init__

    def record(self, *a, **k):
        init(self, *a, **k)
        made.append(self)

    am.AssessmentBase.__init__ = record
    w = pel.scratch('c28')
    try:
        res = d.execute(w / 'r', spec)
        if spec['kw'].get('output_path', 1) is None:
            res['files'] = {k: v for k, v in d.listing(w / 'r').items()
                            if k not in ('cfg.json', 'pelicun_log.txt', 'pelicun_log_warnings.txt')}
        raw = None
        if made and res['end'] == 'ok':
            a = made[-1]
            with pel.quiet():
                raw = {'damage': None, 'loss': None, 'agg': None}
                s, u = a.demand.save_sample(save_units=True)
                raw['demand'] = _frame(s), _units(u)
                raw['n'] = len(s)
                s, u = a.asset.save_cmp_sample(save_units=True)
                raw['asset'], raw['asset_names'] = (_frame(s), _units(u)), list(s.columns.names)
                if a.damage.ds_model.sample is not None:
                    s, u = a.damage.save_sample(save_units=True)
                    raw['damage'], raw['damage_names'] = (_frame(s), _units(u)), list(s.columns.names)
                if spec['losses']:
                    s, u = a.loss.save_sample(save_units=True)
                    raw['loss'], raw['loss_names'] = (_frame(s), _units(u)), list(s.columns.names)
                    g = a.loss.aggregate_losses(future=True)
                    raw['agg'] = _frame(g[0] if isinstance(g, tuple) else g)
        return res, raw
    finally:
        am.AssessmentBase.__init__ = init
        shutil.rmtree(w, ignore_errors=True)


def _num(x):
    return math.nan if x in ('', None) else float(x)


def same(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def _key(label):
    """Label of a column without empty trailing levels."""
    t = tuple(label)
    while len(t) > 1 and t[-1] == '':
        t = t[:-1]
    return t


def check_csv(obs, name, text, ref):
    import csv as _csv

    cols, units = ref
    rows = list(_csv.reader(text.splitlines()))
    head = [_key(h.split('-')) for h in rows[0][1:]]
    want = {_key(k): v for k, v in cols.items()}
    if not obs.check(sorted(head) == sorted(want), f'columns:{name}', f'{sorted(head)[:20]} instead of {sorted(want)[:20]}'):
        return
    index = [r[0] for r in rows[1:]]
    data = rows[1:]
    if units is not None:
        if not obs.check('Units' in index, f'units:{name}', 'no units'):
            return
        i = index.index('Units')
        u = dict(zip(head, data[i][1:]))
        w = {_key(k): v for k, v in units.items()}
        obs.check(all(u[k] == w[k] for k in want), f'units:{name}', f'{u} instead of {w}')
        data = data[:i] + data[i + 1:]
        index = index[:i] + index[i + 1:]
    first = next(iter(want.values()), [])
    widx = list(first) if isinstance(first, dict) else [str(i) for i in range(len(first))]
    if not obs.check([_rowname(x) for x in index] == [_rowname(x) for x in widx], f'rows:{name}', f'{index} instead of {widx}'):
        return
    bad = []
    for r, ix, wx in zip(data, index, widx):
        for k, x in zip(head, r[1:]):
            w = want[k][wx] if isinstance(want[k], dict) else want[k][int(wx)]
            if not same(_num(x), w):
                bad.append((ix, k, x, w))
    obs.check(not bad, f'values:{name}', f'{len(bad)} cells differ (row, column, got, want): {bad[:5]}')


def _rowname(x):
    try:
        return repr(float(str(x).rstrip('%'))) + ('%' if str(x).endswith('%') else '')
    except ValueError:
        return str(x)


def check_json(obs, name, text, ref, simple):
    cols, units = ref
    data = json.loads(text)
    if units is not None:
        w = {'-'.join(k): v for k, v in units.items() if k in cols}
        obs.check(data.pop('Units', None) == w, f'json-units:{name}', lambda: f'units differ from {w}')
    flat: dict = {}

    def walk(x, path, depth):
        want = flat_want
        if path in want:
            flat[path] = x
        elif isinstance(x, dict):
            for k, v in x.items():
                walk(v, (*path, k), depth + 1)
        else:
            flat[path] = x

    flat_want = {(('-'.join(k),) if simple else _key(k)): v for k, v in cols.items()}
    walk(data, (), 0)
    if simple:
        flat = {((k[0]) if False else k): v for k, v in flat.items()}
    if not obs.check(set(flat) == set(flat_want), f'json-columns:{name}',
                     lambda: f'{sorted(flat)[:12]} instead of {sorted(flat_want)[:12]}'):
        return
    bad = []
    for k, w in flat_want.items():
        g = flat[k]
        if isinstance(w, dict):
            if not isinstance(g, dict) or [_rowname(x) for x in g] != [_rowname(x) for x in w]:
                bad.append((k, g, w))
                continue
            pairs = zip(g.values(), w.values())
        else:
            if not isinstance(g, list) or len(g) != len(w):
                bad.append((k, g, w))
                continue
            pairs = zip(g, w)
        for a, b in pairs:
            if isinstance(a, str) or a is None or not same(float(a), b):
                bad.append((k, a, b))
    obs.check(not bad, f'json-values:{name}', lambda: f'{len(bad)} differ (column, got, want): {str(bad[:5])[:1500]}')


def run(sc, obs):
    spec, n = build(sc)
    spec['losses'] = (sc['losses'] if sc['model'] == 'auto' else sc['model'] not in ('nolosses', 'nodamage')) and not sc.get('fail')
    res, raw = d.in_child(_run, spec)
    obs.step()
    files = res['files']
    obs.state(sorted(files))
    user = USER if sc.get('stale') else {}
    for k, v in user.items():
        obs.check(files.get(k) == v, 'user-file', f'{k} of the user was removed or changed')
    if sc.get('fail'):
        obs.check(res['end'] != 'ok', 'end', res['end'])
        return
    if not obs.check(res['end'] == 'ok', f"end:{sc['model']}", res['end']):
        return
    reqs, csv, js, settings, extra = expected(sc)
    main = [fname(*r) for r in reqs]
    want = set(extra) | set(SUMMARY) | set(user)
    if sc.get('here'):
        want |= {'response.csv', 'CMP.csv'}
    if csv:
        want |= set(main)
    if js:
        want |= {f[:-3] + 'json' for f in (*main, *SUMMARY)}
    got = set(files)
    obs.check(not (want - got), 'missing', f'missing {sorted(want - got)}')
    obs.check(not (got - want), 'additional', f'additional {sorted(got - want)}')
    obs.eq(raw['n'], n, 'realizations')
    ref = reference(raw, settings)
    for f in sorted(got & want):
        base = f
        if f.endswith('.json'):
            base = next((x for x in ref if x[:-3] + 'json' == f), None)
        if base not in ref or f in user:
            continue
        if f.endswith('.json'):
            check_json(obs, base, files[f], ref[base], settings['SimpleIndexInJSON'])
        else:
            check_csv(obs, base, d.text_of(files, f), ref[base])
