"""
Complete runs of ``DL_calculation`` in their own processes.

A private copy of the package under test gets a small damage and loss model
library (the real one is downloaded at run time and not available offline),
so that the built-in names ("FEMA P-58", ...) resolve.  Every run happens in
a child process: the process that starts the runs never runs pelicun itself.
"""

from __future__ import annotations

import io
import json
import os
import pickle
import shutil
import signal
import sys
import traceback
import zipfile
from pathlib import Path

from mc import pel

# ---------------------------------------------------------------------------
# model library
P58 = """ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional,LS1-Family,LS1-Theta_0,LS1-Theta_1,LS1-DamageStateWeights,LS2-Family,LS2-Theta_0,LS2-Theta_1,LS2-DamageStateWeights
B.1,0,Peak Interstory Drift Ratio,unitless,0,1,lognormal,0.01,0.4,,lognormal,0.02,0.4,
C.2,0,Peak Floor Acceleration,g,0,0,lognormal,0.4,0.5,0.6 | 0.4,,,,
D.3,0,Peak Interstory Drift Ratio,unitless,0,1,lognormal,0.012,0.3,,,,,
"""
P58C = """ID,Incomplete,Quantity-Unit,DV-Unit,DS1-Family,DS1-Theta_0,DS1-Theta_1,DS2-Family,DS2-Theta_0,DS2-Theta_1
B.1-Cost,0,1 EA,USD_2011,lognormal,"100,80|1,10",0.3,normal,250,0.2
B.1-Time,0,1 EA,worker_day,,2,,,5,
C.2-Cost,0,1 EA,USD_2011,lognormal,30,0.3,lognormal,70,0.4
C.2-Time,0,1 EA,worker_day,,0.5,,,1.5,
D.3-Cost,0,1 EA,USD_2011,,11,,,,
D.3-Time,0,1 EA,worker_day,lognormal,0.3,0.2,,,
"""


def _hz(cid, dem, unit, th, direc, offs):
    r = f'{cid},0,{dem},{unit},{offs},{direc}'
    for t in th:
        r += f',lognormal,{t},0.5,'
    return r + '\n'


HZ = (
    'ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional'
    + ''.join(f',LS{k}-Family,LS{k}-Theta_0,LS{k}-Theta_1,LS{k}-DamageStateWeights' for k in range(1, 5))
    + '\n'
    + _hz('STR.W1.L', 'Peak Interstory Drift Ratio', 'unitless', (0.004, 0.008, 0.012, 0.02), 0, 0).rstrip('\n')
    + '\n'
    + _hz('STR.C1.L', 'Peak Interstory Drift Ratio', 'unitless', (0.005, 0.01, 0.015, 0.024), 0, 0)
    + _hz('NSA.L', 'Peak Floor Acceleration', 'g', (0.2, 0.3, 0.5, 0.8), 0, 0)
    + _hz('LF.W1', 'Peak Ground Acceleration', 'g', (0.2, 0.3, 0.4, 0.6), 0, 0)
    + _hz('LF.C1', 'Peak Ground Acceleration', 'g', (0.22, 0.33, 0.44, 0.66), 0, 0)
)


def _hz5(text):
    """The last limit state leads to DS4 or DS5."""
    out = []
    for i, line in enumerate(text.splitlines()):
        if i and line.startswith(('STR', 'LF')):
            line = line[:-1] + ',0.7 | 0.3' if line.endswith(',') else line
        out.append(line)
    return '\n'.join(out) + '\n'


HZ = _hz5(HZ)


def _hzc():
    h = 'ID,Incomplete,Quantity-Unit,DV-Unit' + ''.join(f',DS{k}-Family,DS{k}-Theta_0,DS{k}-Theta_1' for k in range(1, 6))
    rows = [h]
    for cid, f in (('STR.RES1', 1.0), ('STR.COM1', 1.5), ('NSA.RES1', 0.6), ('NSA.COM1', 0.7), ('LF.RES1', 1.1), ('LF.COM1', 1.2)):
        rows.append(f'{cid}-Cost,0,1 EA,loss_ratio' + ''.join(f',,{v * f},' for v in (0.01, 0.05, 0.2, 0.5, 0.6)))
        rows.append(f'{cid}-Time,0,1 EA,day' + ''.join(f',,{v * f},' for v in (1, 10, 50, 120, 240)))
    return '\n'.join(rows) + '\n'


# sources that define some of the same components: bit k of the number of a component says whether source k + 1 defines it
def src_dmg(k):
    return {f'Q.{c}': float(k) for c in range(8) if c >> (k - 1) & 1}


def src_loss(k):
    """{(component, decision variable): loss}"""
    return {(f'Q.{c}', dv): 10.0 * k + c + 100.0 * i for c in range(8) for i, dv in enumerate(('Cost', 'Time')) if (3 * c + 5 + i) % 8 >> (k - 1) & 1}


def _src(k):
    f = 'ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional,LS1-Family,LS1-Theta_0,LS1-Theta_1\n'
    f += ''.join(f'{i},0,Peak Ground Acceleration,mps2,0,1,,{v},\n' for i, v in src_dmg(k).items())
    c = 'ID,Incomplete,Quantity-Unit,DV-Unit,DS1-Family,DS1-Theta_0,DS1-Theta_1\n'
    c += ''.join(f"{i}-{dv},0,1 EA,{'loss_ratio' if dv == 'Cost' else 'hour'},,{v},\n" for (i, dv), v in src_loss(k).items())
    return f, c


_SURGE = """ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional,DV-Unit,Quantity-Unit,LossFunction-Family,LossFunction-Theta_0,LossFunction-Theta_1
Q.8-Cost,0,Peak Ground Acceleration,mps2,0,1,loss_ratio,1 EA,,"0,8|0,8",
Q.9-Cost,0,Peak Ground Acceleration,mps2,0,1,loss_ratio,1 EA,,"0,4|0,8",
"""
# losses of wind (rows) and flood (columns) together
WIND_FLOOD = '\n'.join(
    ','.join(str(round(w + f - w * f * (0.7 + 0.3 * w), 9)) for f in (0.0, 0.15, 0.5, 1.0)) for w in (0.0, 0.1, 0.35, 0.6, 1.0)) + '\n'
LIBRARY = {
    'FEMA P-58': {'fragility.csv': P58, 'consequence_repair.csv': P58C},
    'Hazus Earthquake - Buildings': {'fragility.csv': HZ, 'consequence_repair.csv': _hzc()},
    'Hazus Earthquake - Transportation': {'fragility.csv': _src(1)[0], 'consequence_repair.csv': _src(1)[1]},
    'Hazus Earthquake - Potable Water': {'fragility.csv': _src(2)[0], 'consequence_repair.csv': _src(2)[1]},
    'Hazus Hurricane Storm Surge - Buildings': {'loss_repair.csv': _SURGE},
    'Hazus Hurricane Wind': {'combine_wind_flood.csv': WIND_FLOOD},
}


def make_package(root: Path) -> Path:
    """Copy the package under test and give the copy a model library."""
    dst = root / 'pkg'
    shutil.copytree(
        pel.REPO / 'pelicun', dst / 'pelicun', symlinks=False,
        ignore=shutil.ignore_patterns('tests', '__pycache__', 'DamageAndLossModelLibrary'),
    )
    res = dst / 'pelicun' / 'resources'
    paths = json.loads((res / 'dlml_resource_paths.json').read_text())
    for name, files in LIBRARY.items():
        d = res / 'DamageAndLossModelLibrary' / paths[name]
        d.mkdir(parents=True, exist_ok=True)
        for f, text in files.items():
            (d / f).write_text(text)
    return dst


# ---------------------------------------------------------------------------
# running something in a child process
def in_child(fn, *args, timeout: int = 140):
    """Result of ``fn(*args)`` computed in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:  # noqa: BLE001
                out = ('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child process ended without a result')
    kind, res = pickle.loads(data)
    if kind == 'error':
        raise RuntimeError(res)
    return res


def parallel(fn, items, jobs: int = 8) -> list:
    """[in_child(fn, x) for x in items], several at a time."""
    todo = list(enumerate(items))
    run: dict = {}
    out: dict = {}
    while todo or run:
        while todo and len(run) < jobs:
            i, x = todo.pop(0)
            p = pel.scratch('par') / 'result'
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.alarm(140)
                    try:
                        res = ('ok', fn(x))
                    except BaseException as e:  # noqa: BLE001
                        res = ('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
                    p.write_bytes(pickle.dumps(res))
                    code = 0
                finally:
                    os._exit(code)
            run[pid] = (i, p)
        pid, _ = os.waitpid(-1, 0)
        if pid in run:
            i, p = run.pop(pid)
            kind, res = pickle.loads(p.read_bytes())
            if kind == 'error':
                raise RuntimeError(res)
            out[i] = res
    return [out[i] for i in range(len(out))]


def read_out(p: Path):
    """Content of an output file (zip archives: their members)."""
    if p.suffix == '.zip':
        with zipfile.ZipFile(p) as z:
            return {n: z.read(n).decode() for n in sorted(z.namelist())}
    return p.read_bytes().decode('utf-8', 'replace')


def listing(d: Path) -> dict:
    """{relative path: content} of a directory."""
    return {str(p.relative_to(d)): read_out(p) for p in sorted(d.rglob('*')) if p.is_file()}


# ---------------------------------------------------------------------------
# run descriptions
def demand_csv(cols: dict, coupled_rows=None) -> str:
    n = len(next(iter(cols.values())))
    lines = [',' + ','.join(cols)]
    for i in range(n):
        lines.append(f'{i},' + ','.join(repr(v[i]) for v in cols.values()))
    return '\n'.join(lines) + '\n'


def cmp_csv(rows) -> str:
    lines = [',Units,Location,Direction,Theta_0,Theta_1,Family']
    for r in rows:
        lines.append(','.join(str(x) if ',' not in str(x) else f'"{x}"' for x in r))
    return '\n'.join(lines) + '\n'


def wave(lo, hi, n, k):
    """Deterministic, non-monotone values."""
    return [round(lo + (hi - lo) * (((i * (2 * k + 3)) % n) + 0.5) / n, 6) for i in range(n)]


def demands(n=12, stories=2, extra=()):
    cols = {}
    k = 0
    for s in range(1, stories + 1):
        for d in (1, 2):
            cols[f'1-PID-{s}-{d}'] = wave(0.004, 0.03, n, k)
            k += 1
    for s in range(stories + 1):
        for d in (1, 2):
            cols[f'1-PFA-{s}-{d}'] = wave(2.0, 9.0, n, k)
            k += 1
    for name in extra:
        cols[name] = wave(1.0, 12.0, n, k)
        k += 1
    return demand_csv(cols)


def prepare_dir(where: Path, spec: dict) -> None:
    """Write the input files of a run."""
    where.mkdir(parents=True, exist_ok=True)
    for name, text in spec.get('files', {}).items():
        p = where / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(text)
    (where / 'cfg.json').write_text(json.dumps(spec['config']))


def execute(where: Path, spec: dict, *, fresh: bool = True) -> dict:
    """
    One run in this process.  Input in ``where``, outputs in ``where/out``.

    Returns how it ended and the files it left.
    """
    if fresh:
        prepare_dir(where, spec)
    from pelicun.tools import DL_calculation

    cwd = os.getcwd()
    os.chdir(where)
    kw = {
        'config_path': 'cfg.json', 'demand_file': 'response.csv', 'output_path': 'out',
        'realizations': 20, 'auto_script_path': None, 'custom_model_dir': None,
        'output_format': None, 'detailed_results': True, 'coupled_edp': False,
    }
    kw.update(spec.get('kw', {}))
    try:
        with pel.quiet():
            try:
                DL_calculation.run_pelicun(**kw)
                end = 'ok'
            except SystemExit as e:
                end = f'SystemExit:{e.code}'
            except Exception as e:  # noqa: BLE001
                end = f'{type(e).__name__}:{e}'
    finally:
        os.chdir(cwd)
    files = listing(where / 'out') if (where / 'out').exists() else {}
    ap = {p.name: json.loads(p.read_text()) for p in where.glob('*_ap.json')}
    return {'end': end, 'files': files, 'ap': ap}


def text_of(files: dict, name: str) -> str | None:
    """CSV text of an output (inside the archive for .zip files)."""
    x = files.get(name)
    if isinstance(x, dict):
        return next(iter(x.values()))
    return x


def table(text: str):
    import pandas as pd

    return pd.read_csv(io.StringIO(text), index_col=0)


# ---------------------------------------------------------------------------
CMP = cmp_csv([
    ('B.1', 'ea', '1,2', '1,2', 3, 0.2, 'normal'),
    ('C.2', 'ea', '1--roof', 0, 2, '', ''),
    ('D.3', 'ea', 2, '1', 4, '', ''),
])


def p58_config(**over) -> dict:
    """Component based assessment with collapse and irreparable damage."""
    c = {
        'GeneralInformation': {'AssetName': 'b', 'units': {'length': 'm'}},
        'DL': {
            'Demands': {
                'DemandFilePath': 'response.csv', 'SampleSize': '20',
                'Calibration': {'ALL': {'DistributionFamily': 'lognormal'}},
                'InferResidualDrift': {'method': 'FEMA P-58', '1': 0.004, '2': 0.005},
            },
            'Asset': {'ComponentAssignmentFile': 'CMP.csv', 'ComponentDatabase': 'FEMA P-58',
                      'NumberOfStories': '2', 'OccupancyType': 'RES1'},
            'Damage': {
                'DamageProcess': 'FEMA P-58',
                'CollapseFragility': {'DemandType': 'PID', 'CapacityDistribution': 'lognormal',
                                      'CapacityMedian': 0.045, 'Theta_1': 0.4},
                'IrreparableDamage': {'DriftCapacityMedian': 0.02, 'DriftCapacityLogStd': 0.3},
            },
            'Losses': {'Repair': {
                'ConsequenceDatabase': 'FEMA P-58', 'MapApproach': 'Automatic',
                'DecisionVariables': {'Cost': True, 'Time': True},
                'ReplacementCost': {'Unit': 'USD_2011', 'Median': 5000, 'Distribution': 'lognormal', 'Theta_1': 0.2},
                'ReplacementTime': {'Unit': 'worker_day', 'Median': 90},
            }},
            'Options': {'Seed': 11, 'PrintLog': False},
        },
    }
    for k, v in over.items():
        put(c, k.replace('__', '/'), v)
    return c


def hz_config(occ='RES1', process='Hazus Earthquake - Buildings') -> dict:
    c = p58_config()
    d = c['DL']
    d['Asset'].update(ComponentDatabase='Hazus Earthquake - Buildings', OccupancyType=occ, NumberOfStories='1')
    d['Damage'] = {'DamageProcess': process}
    d['Demands'].pop('InferResidualDrift')
    d['Losses']['Repair'] = {'ConsequenceDatabase': 'Hazus Earthquake - Buildings', 'MapApproach': 'Automatic',
                             'DecisionVariables': {'Cost': True, 'Time': True}}
    return c


def put(c: dict, path: str, val) -> None:
    """Set or (with None) remove a nested entry."""
    keys = path.split('/')
    for k in keys[:-1]:
        c = c.setdefault(k, {})
    if val is None:
        c.pop(keys[-1], None)
    else:
        c[keys[-1]] = val


AUTO = '''
import pandas as pd

def auto_populate(aim):
    gi = dict(aim['GeneralInformation'])
    dl = %r
    comp = pd.DataFrame(%r, index=%r)
    return gi, dl, comp
'''


def auto_config(**gi) -> dict:
    return {
        'GeneralInformation': {'AssetName': 'b', 'units': {'length': 'm'}, **gi},
        'assetType': 'Buildings',
        'Applications': {'DL': {'ApplicationData': {
            'DL_Method': 'User-provided Models', 'custom_model_dir': 'model'}}},
    }


def auto_script(base: dict, cmp_rows) -> str:
    dl = json.loads(json.dumps(base['DL']))
    dl.pop('Demands', None)
    dl['Asset'].pop('ComponentAssignmentFile', None)
    dl.pop('Outputs', None)
    cols = ('Units', 'Location', 'Direction', 'Theta_0', 'Family')
    data = {c: [r[1 + i] for r in cmp_rows] for i, c in enumerate(cols)}
    return AUTO % (dl, data, [r[0] for r in cmp_rows])
