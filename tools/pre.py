"""Preamble of the demonstrations: offline pelicun from the current folder."""
import atexit, datetime, os, shutil, sys, tempfile, warnings

REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
for v in ('GITHUB_TOKEN', 'PELICUN_GITHUB_API_URL', 'PELICUN_GITHUB_RAW_URL', 'DLML_REPO_OWNER', 'DLML_REPO_NAME'):
    os.environ.pop(v, None)
os.makedirs(TMP + '/dlml')
open(TMP + '/dlml/model_files.txt', 'w').close()
with open(TMP + '/dlml/.dlml_cache.json', 'w') as f:
    f.write('{"last_version_check": "%s"}' % datetime.datetime.now().isoformat())
os.environ['DLML_DATA_DIR'] = TMP + '/dlml'
sys.path.insert(0, REPO)
os.chdir(TMP)
warnings.simplefilter('ignore')
import numpy as np  # noqa
import pandas as pd  # noqa
from pelicun.assessment import Assessment, DLCalculationAssessment  # noqa

warnings.simplefilter('ignore')
nan = float('nan')


def asmt(**o):
    return Assessment({'PrintLog': False, 'Verbose': False, 'Seed': 1, **o})


def table(rows, index, cols):
    mi = pd.MultiIndex.from_tuples(cols) if isinstance(cols[0], tuple) else cols
    idx = pd.MultiIndex.from_tuples(index) if isinstance(index[0], tuple) else index
    return pd.DataFrame(rows, index=idx, columns=mi, dtype=object).infer_objects()


def demands(**cols):
    """demands(PFA_1_1=('mps2', [..]))"""
    d = {k.replace('_', '-'): [u, *map(float, v)] for k, (u, v) in cols.items()}
    n = len(next(iter(d.values()))) - 1
    return pd.DataFrame(d, index=['Units', *range(n)], dtype=object)


def comps(*rows):
    """comps((cmp, units, loc, dir, theta0, blocks), ...)"""
    return {'marginals': pd.DataFrame(
        [r[1:] for r in rows], index=[r[0] for r in rows],
        columns=['Units', 'Location', 'Direction', 'Theta_0', 'Blocks'])}


def damage_table(**rows):
    """damage_table(A=('Peak Floor Acceleration', 'mps2', [(family, t0, t1), ...]))"""
    m = max(len(r[2]) for r in rows.values())
    cols = [('Demand', 'Directional'), ('Demand', 'Offset'), ('Demand', 'Type'), ('Demand', 'Unit'), ('Incomplete', '')]
    for i in range(1, m + 1):
        cols += [(f'LS{i}', x) for x in ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights')]
    out = []
    for t, u, ls, *rest in rows.values():
        r = [rest[0] if rest else 1, rest[1] if len(rest) > 1 else 1 if t in ('Peak Floor Acceleration', 'Peak Floor Velocity') else 0, t, u, 0]
        for x in ls:
            r += [*x[:3], x[3] if len(x) > 3 else nan]
        out.append(r + [nan] * (len(cols) - len(r)))
    return table(out, list(rows), cols)


def consequence_table(*rows):
    """consequence_table((id, dv, dv unit, quantity unit, [(family, t0, t1), ...]), ...)"""
    m = max(len(r[4]) for r in rows)
    cols = [('DV', 'Unit'), ('Quantity', 'Unit'), ('Incomplete', '')]
    for i in range(1, m + 1):
        cols += [(f'DS{i}', x) for x in ('Family', 'Theta_0', 'Theta_1')]
    out = []
    for _i, _d, u, q, ds in rows:
        r = [u, q, 0]
        for x in ds:
            r += list(x)
        out.append(r + [nan] * (len(cols) - len(r)))
    return table(out, [(r[0], r[1]) for r in rows], cols)


def states(a):
    """{(cmp, loc, dir, uid, block): [damage state per realization]}"""
    s = a.damage.ds_model.ds_sample
    return {tuple(map(str, c)): s[c].to_list() for c in s.columns}
