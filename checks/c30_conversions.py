"""C30: table and label conversions are lossless and value preserving."""

import itertools
import json
import math

import numpy as np
import pandas as pd

from mc import flow, pel
from mc.lossref import U

PROPERTY = 'C30'
LEVEL = 'model_checking'
RULE = (
    'all label sets (one to three labels, one to three levels, ragged ones included) on both axes of tables and series, all pairs of units of the '
    'library, all small tables saved and loaded in both orientations, and the malformed inputs of each conversion; a state is a distinct converted object'
)
BOUND = {
    'quick': 'labels over a 6-letter alphabet, 3 levels, 3 labels; 80x80 unit pairs x 3 value types; tables up to 3x3 with 4 unit patterns',
    'thorough': 'label sets of up to 4 labels, all unit pairs with and without category',
}
ASSUMPTIONS = ['the kind of each unit is written down in the check; units of the miscellaneous group are not told apart']
CHUNK = 60
HORIZON = 120

KIND = {
    'time': 'sec minute hour day', 'length': 'm mm cm km in inch ft mile', 'area': 'm2 mm2 cm2 km2 in2 inch2 ft2 mile2',
    'volume': 'm3 in3 inch3 ft3', 'velocity': 'cmps mps mph inps inchps ftps', 'acceleration': 'mps2 inps2 inchps2 ftps2 g',
    'mass': 'kg ton lb', 'force': 'N kN lbf kip kips', 'line_force': 'Npm kNpm lbpft kippft kipspft', 'pressure': 'Pa kPa MPa GPa psi ksi Mpsi',
    'misc': 'A V kV ea unitless rad C USD_2011 USD loss_ratio worker_day EA SF LF TN AP CF KV J MJ',
}
KINDOF = {u: k for k, us in KIND.items() for u in us.split()}
AB = ['a', 'b.1', '10', '2', 'c d', 'x_y']


def label_sets(tier):
    top = 3 if tier == 'quick' else 4
    out = []
    # multi-level labels
    for lv in (2, 3):
        pool = list(itertools.product(AB, repeat=lv))
        pool = pool[:: (5 if lv == 2 else 23)] + [tuple([''] * 0 + ['a'] * (lv - 1) + [''])]
        for m in range(1, top + 1):
            sets = list(itertools.permutations(pool, m)) if m < 3 else list(itertools.combinations(pool, m))
            out += [list(map(list, s)) for s in sets]
        out.append([list(pool[1]), list(pool[1])])  # repeated labels
    return out


def scenarios(tier):
    out = []
    ls = label_sets(tier)
    for i in range(0, len(ls), 20):
        out.append({'k': 'multi', 'sets': ls[i:i + 20]})
    simple = []
    for m in (1, 2, 3):
        for c in itertools.product(['a', 'a-b', '1-2-3', 'a-10-1', '12', 'b.1-x_y', 'q-', '7-7-7'], repeat=m):
            simple.append(list(c))
    for i in range(0, len(simple), 20):
        out.append({'k': 'simple', 'sets': simple[i:i + 20]})
    units = sorted(KINDOF)
    for u in units:
        out.append({'k': 'units', 'u': u})
    out.append({'k': 'library'})
    for which in ('missing', 'notjson', 'dup', 'dup2', 'notdict', 'notfloat', 'list'):
        out.append({'k': 'badlib', 'which': which})
    # tables through the file format
    for rows, cols, lv, ori, pat, to in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3), (0, 1), range(4), ('file', 'memory')):
        out.append({'k': 'table', 'r': rows, 'c': cols, 'lv': lv, 'ori': ori, 'pat': pat, 'to': to})
    for w in ('suffix', 'nofactors', 'unknown-unit', 'type', 'nofile', 'loadsuffix', 'axis-simple', 'axis-multi', 'axis-mult', 'nomatch', 'values', 'unknown', 'category', 'bool'):
        out.append({'k': 'bad', 'w': w})
    for n in (1, 2, 3, 7):
        for kind in ('series', 'frame', 'array1', 'array2'):
            for p in range(4):
                out.append({'k': 'describe', 'n': n, 'kind': kind, 'p': p})
    for keys in itertools.product(range(3), repeat=4):
        out.append({'k': 'dedupe', 'keys': list(keys)})
    for axis, cond in itertools.product((0, 1), itertools.product(('', 'a', 'b', 'zz'), ('', '1', '2'))):
        out.append({'k': 'multiply', 'axis': axis, 'cond': list(cond)})
    vals = ['null', '{}', '[]', '[1]', '[1, 2]', '0', '1.5', 'NaN', '"x"', '""', 'false', '{"a": 1}', '[[]]']
    for v, w in itertools.product(vals, vals):
        out.append({'k': 'paths', 'v': v, 'w': w})
    for xs in itertools.permutations(['0', '1', '2.5', '1e1'], 3):
        out.append({'k': 'interp', 'xs': sorted(xs, key=float), 'ys': list(xs)})
    for vs in itertools.product(['1', '2.5', 'a', '', 'N/A', 'NULL', 'x1'], repeat=3):
        out.append({'k': 'parse', 'v': list(vs)})
    out.append({'k': 'scalars'})
    for sets in ([['a'], ['b', 'c']], [['a'], ['a']], [[], ['x']], [['a', 'a']], [['a', 'b'], ['c', 'b']]):
        out.append({'k': 'invert', 'sets': sets})
    for lv, c, r in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        for idx in ('num', 'txt'):
            out.append({'k': 'todict', 'lv': lv, 'c': c, 'r': r, 'idx': idx})
    return out


def raises(obs, fn, kinds, sig, msg=''):
    obs.step()
    try:
        r = fn()
    except kinds:
        obs.check(True, sig)
        return
    except Exception as e:  # noqa: BLE001
        obs.fail(sig, f'{msg}: {type(e).__name__} instead of {kinds}: {e}')
        return
    obs.fail(sig, f'{msg}: accepted, result {r!r}'[:600])


def same_table(obs, got, want_vals, sig, msg):
    obs.close(np.asarray(got.to_numpy(), dtype=float), want_vals, sig, msg, rtol=0, atol=0)


def holders(labels, names, multi):
    """The objects that carry these labels on an axis."""
    n = len(labels)
    ix = pd.MultiIndex.from_tuples([tuple(x) for x in labels], names=names) if multi else pd.Index(labels)
    val = np.arange(n * 2, dtype=float).reshape(n, 2) + 0.5
    yield 'frame0', pd.DataFrame(val, index=ix, columns=['p', 'q']), 0, val
    yield 'frame1', pd.DataFrame(val.T, columns=ix, index=['p', 'q']), 1, val.T
    yield 'series', pd.Series(val[:, 0], index=ix), 0, val[:, 0]


def axis_of(o, axis):
    return o.columns if axis == 1 else o.index


def run(sc, obs):
    from pelicun import base

    k = sc['k']
    if k == 'multi':
        for labels in sc['sets']:
            lv = len(labels[0])
            for names in (None, ['cmp', 'loc', 'dir'][:lv]):
                for name, o, axis, val in holders(labels, names, True):
                    for inplace in (False, True):
                        src = o.copy()
                        keep = src.copy()
                        s = base.convert_to_SimpleIndex(src, axis=axis, inplace=inplace)
                        obs.step()
                        want = ['-'.join(t) for t in labels]
                        obs.eq(axis_of(s, axis).tolist(), want, 'simple-labels', f'{name} {labels}')
                        obs.check(axis_of(s, axis).nlevels == 1, 'simple-levels')
                        same_table(obs, s, val, 'simple-values', f'{name} {labels}')
                        if inplace:
                            obs.check(s is src, 'simple-inplace', 'a copy was returned')
                        else:
                            obs.check(axis_of(src, axis).equals(axis_of(keep, axis)) and src.equals(keep), 'simple-input', 'input modified')
                        src2 = s.copy()
                        m = base.convert_to_MultiIndex(src2, axis=axis, inplace=inplace)
                        obs.step()
                        obs.eq([list(x) for x in axis_of(m, axis).tolist()], labels, 'multi-labels', f'{name} {labels}')
                        same_table(obs, m, val, 'multi-values', f'{name} {labels}')
                        if not inplace:
                            obs.eq(axis_of(src2, axis).tolist(), want, 'multi-input', 'input modified')
                        if axis == 1:
                            obs.eq(m.index.tolist(), ['p', 'q'], 'other-axis')
                        # a hierarchical label is left alone
                        again = base.convert_to_MultiIndex(m, axis=axis)
                        obs.eq([list(x) for x in axis_of(again, axis).tolist()], labels, 'multi-again')
            obs.state('multi', labels)
        return
    if k == 'simple':
        for labels in sc['sets']:
            parts = [x.split('-') for x in labels]
            mx = max(len(p) for p in parts)
            want = [p + [''] * (mx - len(p)) for p in parts]
            for name, o, axis, val in holders(labels, None, False):
                keep = o.copy()
                m = base.convert_to_MultiIndex(o, axis=axis)
                obs.step()
                if mx == 1:
                    obs.eq(axis_of(m, axis).tolist(), labels, 'flat-labels', labels)
                else:
                    obs.eq([list(x) for x in axis_of(m, axis).tolist()], want, 'split-labels', f'{name} {labels}')
                same_table(obs, m, val, 'split-values', f'{name} {labels}')
                obs.check(o.equals(keep) and axis_of(o, axis).equals(axis_of(keep, axis)), 'split-input', 'input modified')
                s = base.convert_to_SimpleIndex(m, axis=axis)
                obs.step()
                if len({len(p) for p in parts}) == 1:
                    obs.eq(axis_of(s, axis).tolist(), labels, 'join-labels', f'{name} {labels}')
                else:
                    obs.eq(axis_of(s, axis).tolist(), ['-'.join(p) for p in want], 'join-ragged', f'{name} {labels}')
                same_table(obs, s, val, 'join-values', f'{name} {labels}')
            obs.state('simple', labels)
        return
    if k == 'units':
        u = sc['u']
        vals = [0.0, 1.0, -2.5, 1e6, 3.0]
        for v in sorted(KINDOF):
            same = KINDOF[u] == KINDOF[v]
            for x in (2.5, list(vals), np.array(vals), np.array([vals, vals]), [1, 2]):
                keep = np.array(x, dtype=float)
                if not same:
                    raises(obs, lambda x=x, v=v: base.convert_units(x, u, v), (ValueError,), 'units:kinds', f'{u} -> {v}')
                    for c in (KINDOF[u], KINDOF[v]):
                        raises(obs, lambda x=x, v=v, c=c: base.convert_units(x, u, v, c), (ValueError,), 'units:kinds-category', f'{u} -> {v} as {c}')
                    break
                f = U[u] / U[v]
                for cat in (None, KINDOF[u]):
                    r = base.convert_units(x, u, v, cat)
                    obs.step()
                    obs.check(type(r) is type(x) or (isinstance(x, float) and isinstance(r, float)), 'units:type', f'{type(x)} -> {type(r)}')
                    obs.close(np.array(r, dtype=float), keep * f, 'units:value', f'{u} -> {v}', rtol=1e-9)
                    b = base.convert_units(r, v, u, cat)
                    obs.close(np.array(b, dtype=float), keep, 'units:back', f'{u} -> {v} -> {u}', rtol=1e-12)
                    obs.close(np.array(x, dtype=float), keep, 'units:input', 'input modified', rtol=0, atol=0)
            obs.state(u, v, same)
        for bad in ('nonsense', '', 'FT'):
            raises(obs, lambda bad=bad: base.convert_units(1.0, u, bad), (ValueError,), 'units:unknown', bad)
            raises(obs, lambda bad=bad: base.convert_units(1.0, bad, u), (ValueError,), 'units:unknown', bad)
        return
    if k == 'library':
        flat = base.parse_units()
        nest = base.parse_units(preserve_categories=True)
        obs.step(2)
        for u, f in U.items():
            obs.check(u in flat, 'library:missing', u)
            if u in flat:
                obs.close(flat[u], f, 'library:factor', u, rtol=1e-9)
        obs.eq({u: f for c in nest.values() for u, f in c.items()}, flat, 'library:forms')
        flat['m'] = 5.0
        nest['length']['m'] = 7.0
        obs.eq(base.parse_units()['m'], 1.0, 'library:shared')
        d = pel.scratch()
        for i, lib in enumerate([{'x': {'u1': 1.5, 'u2': 2}, 'y': {'u3': '4.5'}}, {'x': {}}, {'q': {'u': 1e-9}}]):
            p = d / f'u{i}.json'
            p.write_text(json.dumps(lib))
            obs.eq(base.parse_units(str(p)), {a: float(b) for c in lib.values() for a, b in c.items()}, 'library:custom')
            obs.eq(base.parse_units(str(p), preserve_categories=True), {c: {a: float(b) for a, b in v.items()} for c, v in lib.items()}, 'library:custom-categories')
            obs.step(2)
        obs.state('library')
        return
    if k == 'badlib':
        d = pel.scratch()
        p = d / 'u.json'
        txt = {'notjson': 'abc', 'dup': '{"a": {"x": 1, "x": 2}}', 'dup2': '{"a": {"x": 1}, "b": {"x": 2}}', 'notdict': '{"a": 1}',
               'notfloat': '{"a": {"x": "one"}}', 'list': '{"a": {"x": [1]}}'}.get(sc['which'])
        if txt is not None:
            p.write_text(txt)
        raises(obs, lambda: base.parse_units(str(p)), (FileNotFoundError, ValueError, TypeError), f'badlib:{sc["which"]}')
        obs.state('badlib', sc['which'])
        return
    globals()[f'run_{k}'](sc, obs)


def unit_row(pat, n):
    return [['m'] * n, ['ft', 'inch', 'kip'][:n], [None, 'ft', None][:n], ['kip', 'kip', 'ft'][:n]][pat]


def run_table(sc, obs):
    from pelicun import base, file_io

    r, c, lv, ori, pat = sc['r'], sc['c'], sc['lv'], sc['ori'], sc['pat']
    nvar, nval = (c, r) if ori == 0 else (r, c)
    fac = base.parse_units()
    labs = [('D', '10', '2'), ('B', '1', '1'), ('A', '3', '12')][:nvar]
    labs = [x[:lv] for x in labs]
    val = np.array([[(-1.0) ** i * (1.5 + i * 7 + j) for j in range(nval)] for i in range(nvar)])
    ix = pd.MultiIndex.from_tuples(labs) if lv > 1 else pd.Index([x[0] for x in labs])
    un = pd.Series(unit_row(pat, nvar), index=ix, name='Units', dtype=object)
    other = [f'v{j}' for j in range(nval)]
    df = pd.DataFrame(val.T, columns=ix, index=range(nval)) if ori == 0 else pd.DataFrame(val, index=ix, columns=other)
    keep = df.copy()
    ukeep = un.copy()
    if all(x is None for x in un):
        return
    if sc['to'] == 'file':
        p = pel.scratch() / 't.csv'
        ret = file_io.save_to_csv(df, p, un, fac, ori)
        obs.check(ret is None, 'table:returns')
        src = str(p)
    else:
        src = file_io.save_to_csv(df, None, un, fac, ori)
        if isinstance(src, pd.DataFrame):
            smp = src
            axis_vals = smp.drop(index='Units') if ori == 0 else smp.drop(columns='Units')
            a = axis_vals if ori == 1 else axis_vals.T
            got = {str(x): np.asarray(a.loc[x], dtype=float) for x in a.index}
            want = {'-'.join(t): val[i] / (fac[un.iloc[i]] if un.iloc[i] else 1.0) for i, t in enumerate(labs)}
            obs.eq(sorted(got), sorted(want), 'table:labels', sc)
            for x, w in want.items():
                if x in got:
                    obs.close(got[x], w, 'table:saved-values', f'{x} {sc}')
    obs.step()
    obs.check(df.equals(keep) and un.equals(ukeep), 'table:input', f'inputs modified {sc}')
    if isinstance(src, pd.DataFrame):
        sk = src.copy()
    ld, lu = file_io.load_data(src, fac, ori, reindex=ori == 0, return_units=True)
    obs.step()
    if isinstance(src, pd.DataFrame):
        obs.check(src.equals(sk), 'table:load-input', 'input modified by loading')
    a = ld.T if ori == 0 else ld
    got = {(x if isinstance(x, tuple) else (str(x),)): np.asarray(a.loc[x], dtype=float) for x in a.index}
    obs.eq(sorted(got), sorted(labs), 'table:loaded-labels', sc)
    for i, t in enumerate(labs):
        if t in got:
            obs.close(got[t], val[i], 'table:loaded-values', f'{t} {sc}', rtol=1e-12)
    gu = {(x if isinstance(x, tuple) else (str(x),)): u for x, u in lu.items() if not pd.isna(u)}
    obs.eq(gu, {t: un.iloc[i] for i, t in enumerate(labs) if un.iloc[i]}, 'table:loaded-units', sc)
    if ori == 1:
        obs.eq(sorted(ld.columns), sorted(other), 'table:columns')
    # without factors the values are those of the file
    raw = file_io.load_data(src, None, ori, reindex=ori == 0)
    a = raw.T if ori == 0 else raw
    for i, t in enumerate(labs):
        kk = t if lv > 1 else t[0]
        obs.close(np.asarray(a.loc[kk], dtype=float), val[i] / (fac[un.iloc[i]] if un.iloc[i] else 1.0), 'table:raw-values', f'{t} {sc}', rtol=1e-12)
    # saving without units changes nothing
    p = pel.scratch() / 'n.csv'
    file_io.save_to_csv(df, p)
    back = file_io.load_data(str(p), None, ori, reindex=ori == 0)
    a = back.T if ori == 0 else back
    for i, t in enumerate(labs):
        kk = t if lv > 1 else t[0]
        obs.close(np.asarray(a.loc[kk if kk in a.index else int(kk)], dtype=float), val[i], 'table:no-units', f'{t} {sc}', rtol=0)
    obs.state(sc['lv'], ori, pat, r, c)


def run_bad(sc, obs):
    from pelicun import base, file_io

    w = sc['w']
    df = pd.DataFrame({'a-1': [1.0, 2.0], 'b-1': [3.0, 4.0]})
    mi = pd.DataFrame([[1.0, 2.0]], columns=pd.MultiIndex.from_tuples([('a', '1'), ('b', '1')], names=['x', 'y']))
    un = pd.Series({'a-1': 'm', 'b-1': 'ft'})
    d = pel.scratch()
    fac = base.parse_units()
    E = Exception
    f = {
        'suffix': (lambda: file_io.save_to_csv(df, d / 'x.txt'), (ValueError,)),
        'nofactors': (lambda: file_io.save_to_csv(df, None, un), (ValueError,)),
        'unknown-unit': (lambda: file_io.save_to_csv(df, None, pd.Series({'a-1': 'zz', 'b-1': 'm'}), fac), (E,)),
        'type': (lambda: file_io.load_data(5), (TypeError,)),
        'nofile': (lambda: file_io.load_data(str(d / 'no.csv')), (FileNotFoundError,)),
        'loadsuffix': (lambda: file_io.load_data(str(d / 'x.dat')), (E,)),
        'axis-simple': (lambda: base.convert_to_SimpleIndex(df, axis=2), (ValueError,)),
        'axis-multi': (lambda: base.convert_to_MultiIndex(df, axis=2), (ValueError,)),
        'axis-mult': (lambda: base.multiply_factor_multiple_levels(mi, {'x': 'a'}, 2.0, axis=2), (ValueError,)),
        'nomatch': (lambda: base.multiply_factor_multiple_levels(mi, {'x': 'q'}, 2.0, axis=1), (ValueError,)),
        'values': (lambda: base.convert_units('1.0', 'm', 'ft'), (TypeError,)),
        'unknown': (lambda: base.convert_units(1.0, 'm', 'zz'), (ValueError,)),
        'category': (lambda: base.convert_units(1.0, 'm', 'ft', 'zz'), (ValueError,)),
        'bool': (lambda: base.str2bool('maybe'), (E,)),
    }[w]
    if w == 'loadsuffix':
        (d / 'x.dat').write_text('a\n1\n')
    raises(obs, f[0], f[1], f'bad:{w}')
    if w == 'suffix':
        obs.check(not (d / 'x.txt').exists(), 'bad:suffix-written')
    if w == 'nomatch':
        obs.eq(mi.to_numpy().tolist(), [[1.0, 2.0]], 'bad:nomatch-modified')
        base.multiply_factor_multiple_levels(mi, {'x': 'q'}, 2.0, axis=1, raise_missing=False)
        obs.eq(mi.to_numpy().tolist(), [[1.0, 2.0]], 'bad:nomatch-modified')
    obs.state('bad', w)


def run_describe(sc, obs):
    from pelicun import base

    n = sc['n']
    base_v = [[1.0, 2.0, 4.0, 8.0, 3.0, 5.0, 9.0], [-1.0, 2.0, 0.0, 5.0, 5.0, 5.0, 2.0], [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [7.0] * 7][sc['p']][:n]
    v2 = [float(x) ** 2 + 0.25 for x in base_v]
    kind = sc['kind']
    data = {'series': pd.Series(base_v, name='q'), 'frame': pd.DataFrame({'q': base_v, 'r': v2}), 'array1': np.array(base_v),
            'array2': np.array([base_v, v2]).T}[kind]
    keep = data.copy()
    for pct in (None, (0.25, 0.5), (0.1, 0.5, 0.9)):
        out = base.describe(data) if pct is None else base.describe(data, pct)
        obs.step()
        obs.check(np.array_equal(np.asarray(data), np.asarray(keep)), 'describe:input', 'input modified')
        cols = {'series': ['q'], 'frame': ['q', 'r'], 'array1': [0], 'array2': [0, 1]}[kind]
        obs.eq(list(out.columns), cols, 'describe:columns')
        for c, v in zip(cols, (base_v, v2)):
            s = out[c]
            m = sum(v) / n
            sd = math.sqrt(sum((x - m) ** 2 for x in v) / (n - 1)) if n > 1 else flow.NAN
            obs.close([s['count'], s['mean'], s['min'], s['max']], [n, m, min(v), max(v)], 'describe:moments', f'{v}')
            obs.close(s['std'], sd, 'describe:std', f'{v}')
            if min(v) > 0:
                lg = [math.log(x) for x in v]
                ml = sum(lg) / n
                sl = math.sqrt(sum((x - ml) ** 2 for x in lg) / (n - 1)) if n > 1 else flow.NAN
                obs.close(s['log_std'], sl, 'describe:log', f'{v}')
            else:
                obs.check(pd.isna(s['log_std']), 'describe:log-undefined', f'{v}: {s["log_std"]}')
            for p in pct or (0.001, 0.023, 0.10, 0.159, 0.5, 0.841, 0.90, 0.977, 0.999):
                t = sorted(v)
                h = (n - 1) * p
                lo = math.floor(h)
                q = t[lo] + (t[min(lo + 1, n - 1)] - t[lo]) * (h - lo)
                lab = f'{100 * p:.10g}%'
                obs.check(lab in s.index, 'describe:percentile-label', f'{lab} not in {list(s.index)}')
                if lab in s.index:
                    obs.close(s[lab], q, 'describe:percentile', f'{lab} of {v}')
        obs.state(out)


def run_dedupe(sc, obs):
    from pelicun import base

    pool = [('a', '1'), ('a', '2'), ('b', '10')]
    ix = pd.MultiIndex.from_tuples([pool[i] for i in sc['keys']], names=['cmp', 'loc'])
    df = pd.DataFrame({'v': [1.0, 2.0, 3.0, 4.0], 's': list('wxyz')}, index=ix)
    keep = df.copy()
    for dt in (str, int):
        out = base.dedupe_index(df) if dt is str else base.dedupe_index(df, dtype=int)
        obs.step()
        obs.check(df.equals(keep), 'dedupe:input')
        obs.eq(list(out.index.names), ['cmp', 'loc', 'uid'], 'dedupe:names')
        obs.check(out.index.is_unique, 'dedupe:unique', out.index.tolist())
        rows = sorted((x[0], x[1], int(x[2]), r['v'], r['s']) for x, (_, r) in zip(out.index, out.iterrows()))
        want = []
        cnt: dict = {}
        for j, i in enumerate(sc['keys']):
            u = cnt.get(i, 0)
            cnt[i] = u + 1
            want.append((*pool[i], u, float(j + 1), 'wxyz'[j]))
        obs.eq(rows, sorted(want), 'dedupe:rows', sc)
        obs.check(all(isinstance(x[2], dt if dt is str else (int, np.integer)) for x in out.index), 'dedupe:type')
    obs.state(sc['keys'])


def run_multiply(sc, obs):
    from pelicun import base

    ix = pd.MultiIndex.from_tuples([(a, b) for a in 'ab' for b in '12'], names=['x', 'y'])
    val = np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0], [7.0, 8.0]])
    df = pd.DataFrame(val.copy(), index=ix, columns=['p', 'q'])
    if sc['axis'] == 1:
        df = df.T.copy()
    cond = {n: v for n, v in zip('xy', sc['cond']) if v}
    mask = np.array([all(dict(zip('xy', t))[n] == v for n, v in cond.items()) for t in ix])
    want = np.where(mask[:, None], val * 3.0, val)
    if not mask.any():
        raises(obs, lambda: base.multiply_factor_multiple_levels(df, cond, 3.0, axis=sc['axis']), (ValueError,), 'multiply:missing', cond)
        want = val
    else:
        base.multiply_factor_multiple_levels(df, cond, 3.0, axis=sc['axis'])
        obs.step()
    obs.close(df.to_numpy() if sc['axis'] == 0 else df.to_numpy().T, want, 'multiply:values', f'{cond} axis {sc["axis"]}')
    obs.state(sc)


def _load(v):
    return json.loads(v)


def run_paths(sc, obs):
    from pelicun import base

    v, w = _load(sc['v']), _load(sc['w'])

    def empty(x):
        return x is None or (isinstance(x, float) and math.isnan(x)) or (isinstance(x, (dict, list)) and len(x) == 0)

    d = {'a': {'b': v, 'k': 1}, 'z': 3}
    obs.eq(base.get(d, 'a/b'), v, 'paths:get')
    obs.eq(base.get(d, '/a/b/'), v, 'paths:get-slash')
    obs.eq(base.get(d, 'a/no', default=w), w, 'paths:default')
    obs.eq(base.get(d, 'z/no/deeper', default=w), w, 'paths:default-deep')
    obs.eq(base.get(None, 'a', default=w), w, 'paths:none')
    obs.eq(base.is_unspecified(d, 'a/b'), empty(v), 'paths:unspecified', f'{v!r}')
    obs.eq(base.is_specified(d, 'a/b'), not empty(v), 'paths:specified', f'{v!r}')
    obs.check(base.is_unspecified(d, 'a/x') and base.is_unspecified(d, 'q/x/y'), 'paths:missing')
    obs.step(8)
    e = json.loads(json.dumps(d))
    base.update(e, 'a/b', w, only_if_empty_or_none=True)
    obs.eq(e, {'a': {'b': w if empty(v) else v, 'k': 1}, 'z': 3}, 'paths:update-if-empty', f'{v!r} {w!r}')
    e = json.loads(json.dumps(d))
    base.update(e, 'a/b', w)
    obs.eq(e, {'a': {'b': w, 'k': 1}, 'z': 3}, 'paths:update')
    base.update(e, 'n/m/o', v)
    obs.eq(e, {'a': {'b': w, 'k': 1}, 'z': 3, 'n': {'m': {'o': v}}}, 'paths:create')
    obs.step(3)
    obs.state(sc)


def run_interp(sc, obs):
    from pelicun import base

    x = [float(t) for t in sc['xs']]
    y = [float(t) for t in sc['ys']]
    f = base.stringterpolation(','.join(sc['ys']) + '|' + ','.join(sc['xs']))
    obs.step()
    for i in range(2):
        for t in (0.0, 0.25, 0.5, 1.0):
            q = x[i] + t * (x[i + 1] - x[i])
            obs.close(f(np.array([q]))[0], y[i] + t * (y[i + 1] - y[i]), 'interp', f'{sc} at {q}')
    obs.state(sc)


def run_parse(sc, obs):
    from pelicun import base

    v = sc['v']
    df = pd.DataFrame({'c': v, 'd': ['1', '2', '3'], 'e': ['x', 'y', 'z']})
    keep = df.copy()
    o = base.with_parsed_str_na_values(df)
    obs.check(df.equals(keep), 'parse:input')
    na = {'', 'N/A', 'NULL'}
    for i, x in enumerate(v):
        if x in na:
            obs.check(pd.isna(o['c'].iloc[i]), 'parse:na', x)
        else:
            obs.eq(o['c'].iloc[i], x, 'parse:kept')
    obs.eq(o['e'].tolist(), ['x', 'y', 'z'], 'parse:other')
    k2 = o.copy()
    t = base.convert_dtypes(o)
    obs.step(2)
    obs.check(o.equals(k2), 'parse:input')
    if all(x in na or x[0].isdigit() for x in v):
        obs.close(t['c'].to_numpy(dtype=float), [flow.NAN if x in na else float(x) for x in v], 'parse:numeric', v)
    else:
        for i, x in enumerate(v):
            if x not in na:
                obs.eq(str(t['c'].iloc[i]), x, 'parse:text', v)
    obs.close(t['d'].to_numpy(dtype=float), [1, 2, 3], 'parse:numbers')
    obs.eq(t['e'].tolist(), ['x', 'y', 'z'], 'parse:strings')
    obs.state(v)


def run_scalars(sc, obs):
    from pelicun import base

    for t in ('yes', 'true', 'True', 'TRUE', 't', 'y', '1', True):
        obs.check(base.str2bool(t) is True, 'bool', t)
    for t in ('no', 'false', 'False', 'f', 'n', '0', False):
        obs.check(base.str2bool(t) is False, 'bool', t)
    na = ['', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL', 'NaN', 'None',
          'n/a', 'nan', 'null']
    for t in na:
        obs.check(base.check_if_str_is_na(t) is True, 'na', t)
    other = ['a', '0', '1', 'ALL', 'none', 'x NA', 'NAN1', 'N', 'nil', ' a', 'EA', 'False', '-', 'DS1']
    for t in [*other, 0, 1, 0.0, None, True, False, ('NA',), ['NA']]:
        obs.check(base.check_if_str_is_na(t) is False, 'na:other', t)
    for x, y in itertools.product(na, other):
        df = pd.DataFrame([[x, y, 1.5], [y, x, 2.5]], columns=['p', 'q', 'r'])
        o = base.with_parsed_str_na_values(df)
        obs.eq(o.isna().to_numpy().tolist(), [[True, False, False], [False, True, False]], 'na:table', f'{x!r} {y!r}')
        obs.eq([o.iloc[0, 1], o.iloc[1, 0], *o['r']], [y, y, 1.5, 2.5], 'na:table', f'{x!r} {y!r}')
    for t in ('1', '2.5', '-3e2', 'abc', ''):
        w = float(t) if t not in ('abc', '') else None
        obs.eq(base.float_or_None(t), w, 'float', t)
    for t, w in (('1', 1), ('-7', -7), ('2.5', None), ('abc', None), ('', None)):
        obs.eq(base.int_or_None(t), w, 'int', t)
    for t, w in (('a.b.txt', ('a.b', '.txt')), ('/x/y.z/q', ('q', '')), ('/x/log.log', ('log', '.log'))):
        obs.eq(list(base.split_file_name(t)), list(w), 'split', t)
    obs.eq(base.dict_raise_on_duplicates([('a', 1), ('b', 2)]), {'a': 1, 'b': 2}, 'dict')
    raises(obs, lambda: base.dict_raise_on_duplicates([('a', 1), ('b', 2), ('a', 1)]), (ValueError,), 'dict-dup')
    obs.step(30)
    obs.state('scalars')


def run_invert(sc, obs):
    from pelicun import base

    d = {f'k{i}': v for i, v in enumerate(sc['sets'])}
    flat = [x for v in d.values() for x in v]
    if len(set(flat)) != len(flat):
        raises(obs, lambda: base.invert_mapping(d), (ValueError,), 'invert:duplicates', d)
    else:
        obs.eq(base.invert_mapping(d), {x: k for k, v in d.items() for x in v}, 'invert')
        obs.step()
    obs.state(sc)


def run_todict(sc, obs):
    from pelicun.tools.DL_calculation import convert_df_to_dict

    lv, c, r = sc['lv'], sc['c'], sc['r']
    labs = [('D', 'e', '2'), ('B', 'e', '1'), ('D', 'f', '12')][:c]
    labs = [x[:lv] for x in labs]
    if len(set(labs)) != len(labs):
        labs = [(f'{x[0]}{i}', *x[1:]) for i, x in enumerate(labs)]
    ix = pd.MultiIndex.from_tuples(labs) if lv > 1 else pd.Index([x[0] for x in labs])
    rows = list(range(r)) if sc['idx'] == 'num' else ['mean', 'std', '10%'][:r]
    val = np.arange(r * c, dtype=float).reshape(r, c) + 0.25
    df = pd.DataFrame(val, index=rows, columns=ix)
    keep = df.copy()
    for axis in (1, 0):
        d = convert_df_to_dict(df if axis == 1 else df.T, axis)
        obs.step()
        n = 0
        for j, t in enumerate(labs):
            x = d
            for s in t:
                x = x.get(s, {}) if isinstance(x, dict) else {}
            w = list(val[:, j]) if sc['idx'] == 'num' else {q: val[i, j] for i, q in enumerate(rows)}
            obs.eq(x, w, 'todict', f'{t} {sc}')

        def leaves(x):
            if isinstance(x, dict):
                return sum(leaves(v) for v in x.values())
            return len(x) if isinstance(x, list) else 1

        obs.eq(leaves(d), r * c, 'todict:size', sc)
    raises(obs, lambda: convert_df_to_dict(df, 2), (ValueError,), 'todict:axis')
    obs.check(df.equals(keep), 'todict:input')
    obs.state(sc)
