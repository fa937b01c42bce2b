"""Reference model for loss calculations (boring, per realization)."""

from __future__ import annotations

import math

import numpy as np

from mc import ref

# unit factors written down independently of the implementation's tables
U = {
    'EA': 1.0, 'USD_2011': 1.0, 'USD': 1.0, 'ton': 1000.0, 'worker_day': 1.0, 'loss_ratio': 1.0, 'kg': 1.0, 'g': 9.80665, 'inps2': 0.0254, 'ftps2': 0.3048, 'inchps2': 0.0254, 'mm': 0.001, 'ftps': 0.3048, 'inps': 0.0254, 'mph': 0.44704, 'lb': 0.453592, 'J': 1.0, 'MJ': 1e6,
    'unitless': 1.0, 'm': 1.0, 'm2': 1.0, 'cm': 0.01, 'cm2': 1e-4,
    'ft': 0.3048, 'ft2': 0.3048**2, 'in': 0.0254, 'in2': 0.0254**2, 'inch': 0.0254, 'inch2': 0.0254**2,
    'mps2': 1.0, 'rad': 1.0, 'mps': 1.0, 'cmps': 0.01, 'day': 86400.0, 'hour': 3600.0,
    'sec': 1.0, 'minute': 60.0,
}

# (any unit of the library can be used for something, whatever its name)
OTHER = {
    'mm2': 1e-6, 'km2': 1e6, 'mile2': 1609.344**2, 'SF': 0.3048**2, 'LF': 0.3048, 'km': 1000.0, 'mile': 1609.344, 'inchps': 0.0254, 'test_two': 2.0, 'test_three': 3.0,
    'ea': 1.0, 'AP': 1.0, 'kV': 1000.0, 'KV': 1000.0, 'TN': 1000.0, 'CF': 0.0004719474432, 'm3': 1.0, 'in3': 0.0254**3, 'inch3': 0.0254**3, 'ft3': 0.3048**3,
    'N': 1.0, 'kN': 1000.0, 'lbf': 4.4482179868, 'kip': 4448.2179868, 'kips': 4448.2179868, 'Npm': 1.0, 'kNpm': 1000.0, 'lbpft': 14.5939, 'kippft': 14593.9,
    'kipspft': 14593.9, 'Pa': 1.0, 'kPa': 1e3, 'MPa': 1e6, 'GPa': 1e9, 'psi': 6894.751669043338, 'ksi': 6894751.669043338, 'Mpsi': 6894751669.043338, 'A': 1.0,
    'V': 1.0, 'C': 1.0,
}
for _k, _v in OTHER.items():
    U.setdefault(_k, _v)


def uf(u: str) -> float:
    """'10 ft2' -> factor."""
    parts = u.split()
    if len(parts) == 1:
        return U[parts[0]]
    return float(parts[0]) * U[parts[1]]


def parse_fn(t0):
    """'y1,y2|x1,x2' -> (ys, xs)."""
    y, x = t0.split('|')
    return [float(v) for v in y.split(',')], [float(v) for v in x.split(',')]


def interp_clamped(x: float, xs, ys) -> float:
    """Linear between, constant outside."""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    raise AssertionError


def eco_quantities(dmg: dict, floors: bool, states: bool) -> dict:
    """
    dmg {(cmp,loc,dir,uid,ds): values (NaN = no information)} -> same keys,
    total quantity that decides the unit consequence.
    """
    out = {}
    for k in dmg:
        tot = None
        for k2, v2 in dmg.items():
            if k2[0] != k[0]:
                continue
            if not floors and k2[1] != k[1]:
                continue
            if not states and k2[4] != k[4]:
                continue
            v = np.nan_to_num(np.asarray(v2, dtype=float), nan=0.0)
            tot = v if tot is None else tot + v
        out[k] = tot
    return out


def unit_median(spec: dict, unit: str, qunit: str, total) -> np.ndarray:
    """Median consequence per base unit of quantity for each realization."""
    f, q = uf(unit), uf(qunit)
    if isinstance(spec['t0'], str) and '|' in spec['t0']:
        ys, xs = parse_fn(spec['t0'])
        return np.array([interp_clamped(t, [x * q for x in xs], [y * f / q for y in ys]) for t in total])
    return np.full(len(total), float(spec['t0']) * f / q)


def deviation_levels(spec: dict, n: int):
    """Sorted deviations of a midpoint LHS sample, or None if deterministic."""
    fam = spec.get('f')
    if not isinstance(fam, str) or fam == 'deterministic':
        return None
    out = []
    for i in range(n):
        p = (i + 0.5) / n
        if fam == 'lognormal':
            out.append(math.exp(spec['t1'] * ref.phi_inv(p)))
        elif fam == 'normal':
            # relative to the mean, truncated at zero
            c = spec['t1']
            pa = ref.phi((0.0 - 1.0) / c)
            out.append(1.0 + c * ref.phi_inv(pa + p * (1 - pa)))
        else:
            raise KeyError(fam)
    return np.array(out)


def match_levels(ratios, levels, rtol=1e-7) -> bool:
    """Every observed ratio is a distinct level (multiset inclusion)."""
    r = np.sort(np.asarray(ratios, dtype=float))
    j = 0
    for v in r:
        while j < len(levels) and levels[j] < v * (1 - rtol) - 1e-12:
            j += 1
        if j >= len(levels) or abs(levels[j] - v) > rtol * abs(v) + 1e-9:
            return False
        j += 1
    return True
