"""Observable state of an assessment, and objects that belong to the caller."""

from __future__ import annotations

import copy
import hashlib
from pathlib import Path

import numpy as np
import pandas as pd


def fp(x, depth=0):
    """Fingerprint (exact values, labels, order and names)."""
    if isinstance(x, pd.DataFrame):
        return ('DF', fp(x.columns), fp(x.index), tuple(fp_array(x.iloc[:, i]) for i in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ('S', str(x.name), fp(x.index), fp_array(x))
    if isinstance(x, pd.Index):
        return ('I', tuple(map(str, x.names)), tuple(repr(tuple(map(str, v)) if isinstance(v, tuple) else v) for v in x))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, fp_array(pd.Series(x.ravel())))
    if isinstance(x, dict):
        return ('D', tuple((repr(k), fp(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fp(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return repr(x.item())
    if x is None or isinstance(x, (str, int, float, bool, Path)):
        return repr(x)
    if type(x).__module__.startswith('pelicun'):
        return obj(x, depth + 1)
    return f'<{type(x).__name__}>'


def fp_array(s):
    if s.dtype.kind in 'fiub':
        return s.dtype.kind + hashlib.sha1(s.to_numpy().tobytes()).hexdigest()[:12]
    return hashlib.sha1(repr([v.item() if isinstance(v, np.generic) else v for v in s.to_numpy(dtype=object).tolist()]).encode()).hexdigest()[:12]


def slots(x):
    names: list = []
    for c in type(x).__mro__:
        s = c.__dict__.get('__slots__', ())
        names += [s] if isinstance(s, str) else list(s)
    names += list(getattr(x, '__dict__', {}))
    return sorted(set(names))


SKIP = {'log', 'rng', 'unit_conversion_factors', 'anchor', 'RV_set', 'f_map', 'defaults'}


def obj(x, depth=0):
    """Public attributes of an object of the library."""
    if depth > 6:
        return '...'
    return (type(x).__name__, tuple((n, fp(getattr(x, n), depth)) for n in slots(x) if not n.startswith('_') and n not in SKIP and hasattr(x, n)))


def observable(a) -> dict:
    """Everything a user can look at in an assessment."""
    out = {'stories': fp(a.stories), 'factors': fp(a.unit_conversion_factors), 'options': obj(a.options)}
    for name in ('demand', 'asset', 'damage', 'loss'):
        m = getattr(a, name)
        for n in slots(m):
            if n.startswith('_') or n in SKIP or not hasattr(m, n):
                continue
            out[f'{name}.{n}'] = fp(getattr(m, n))
    out['loss.sample'] = fp(a.loss.sample)
    out['loss.decision_variables'] = fp(a.loss.decision_variables)
    # the state of the generator decides what is sampled next
    out['rng'] = hashlib.sha1(repr(a.options.rng.bit_generator.state).encode()).hexdigest()[:12]
    return out


def diff(a: dict, b: dict) -> list:
    return sorted(k for k in {*a, *b} if a.get(k) != b.get(k))


class Caller:
    """Keeps the objects that were passed in and compares them later."""

    def __init__(self) -> None:
        self.objs: list = []

    def __call__(self, x, name):
        self.objs.append((name, x, fp(x)))
        return x

    def changed(self):
        return [n for n, x, f in self.objs if fp(x) != f]


def deep(x):
    return copy.deepcopy(x)
