"""C29: nearest-neighbour interpolation and resampling."""

from __future__ import annotations

import itertools
import math

import numpy as np

from mc import pel  # noqa: F401

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = (
    'bounded-exhaustive enumeration of grids, target positions, numbers of neighbours, weights, shapes of the known values, numbers of realizations and '
    'seeds; every resampled value and every expected value compared with all outcomes that a direct search for the nearest neighbours admits'
)
BOUND = {
    'quick': '12 grids in 1 to 3 dimensions with up to 9 points (ties and repeated points included), all positions of a half-spaced lattice around them, '
             'k = 1..n, 3 weights, 5 shapes of the known values, 5 sample sizes, 4 seeds',
    'thorough': 'the same with 24 grids, also with 12 and 40 points, quarter-spaced lattices and seeds 0..15',
}
ASSUMPTIONS = [
    'when several grid points are equally far, any choice among them is accepted',
    'the distance that replaces zero distance is negligible compared to the spacing of the grid',
    'chosen frequencies of the neighbours over 2000 realizations (seeds fixed) within 6.5 standard deviations of the documented probabilities',
]
CHUNK = 20
HORIZON = 120
WEIGHTS = ('distance2', 'distance1', 'uniform')


def grids(tier):
    g = {
        'line2': [[0.0], [1.0]],
        'line3': [[0.0], [1.0], [3.0]],
        'line4': [[-1.0], [0.5], [0.75], [2.0]],
        'same': [[0.0, 0.0], [0.0, 0.0], [1.0, 1.0]],
        'sq4': [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]],
        'skew4': [[0.0, 0.0], [1.03, 0.07], [-0.11, 0.97], [1.21, 1.13]],
        'row5': [[0.0, 0.0], [0.4, 0.1], [0.9, -0.2], [1.5, 0.3], [2.3, 0.0]],
        'sq9': [[float(i), float(j)] for i in range(3) for j in range(3)],
        'skew9': [[i + 0.13 * j + 0.01 * i * i, j - 0.07 * i + 0.02 * j * j] for i in range(3) for j in range(3)],
        'geo6': [[-122.4 + 0.01 * i, 37.7 + 0.013 * j + 0.001 * i] for i in range(2) for j in range(3)],
        'cube8': [[i + 0.1 * j, j - 0.07 * k, k + 0.05 * i] for i in range(2) for j in range(2) for k in range(2)],
        'one': [[0.3, 0.4]],
    }
    if tier == 'thorough':
        for n in (12, 40):
            g[f'gen{n}'] = [[(7 * i) % 13 + 0.01 * i, (5 * i) % 11 - 0.02 * i] for i in range(n)]
        for k in list(g):
            g['r' + k] = g[k][::-1]
    return g


def positions(src, tier):
    src = np.array(src)
    lo, hi = src.min(0), src.max(0)
    span = np.where(hi > lo, hi - lo, 1.0)
    steps = (-0.5, 0.0, 0.25, 0.5, 0.77, 1.0, 1.6) if tier == 'thorough' else (-0.4, 0.0, 0.5, 0.77, 1.3)
    if src.shape[1] == 3:
        steps = steps[1::2]
    out = [(lo + np.array(s) * span).tolist() for s in itertools.product(steps, repeat=src.shape[1])]
    return out + src.tolist()


def values(shape, n, alt=0, style=None):
    """Known values; every entry tells where it comes from."""
    v = _values(shape, n, alt)
    if style == 'int':
        return (v * 4).astype(int)
    return v * {None: 1.1, 'tiny': 1.1e-13, 'negative': -1.1, 'mixed': np.array([1.1, -1.3] * n)[:n].reshape(-1, *[1] * (v.ndim - 1))}[style]


def _values(shape, n, alt):
    if shape == '1':
        return np.array([100.0 * (i + 1) for i in range(n)])
    nf = {'2a': 1, '2b': 3, '3a': 1, '3b': 2}[shape]
    if shape[0] == '2':
        return np.array([[100.0 * (i + 1) + 10 * f + alt for f in range(nf)] for i in range(n)])
    return np.array([[[100.0 * (i + 1) + 10 * f + 0.5 * r + alt for r in range(4)] for f in range(nf)] for i in range(n)])


def weights_of(d, weight):
    d = np.array(d)
    if weight == 'uniform':
        return np.full(len(d), 1 / len(d))
    p = 2 if weight == 'distance2' else 1
    z = d <= 1e-15
    w = z.astype(float) if z.any() else 1 / d**p
    return w / w.sum()


def neighbour_sets(src, t, k):
    """All admissible sets of the k nearest points (ties at the end)."""
    d = [math.dist(p, t) for p in src]
    order = sorted(range(len(d)), key=lambda i: d[i])
    tol = 1e-9 * max(1.0, max(d))
    last = d[order[k - 1]]
    sure = [i for i in order if d[i] < last - tol]
    tied = [i for i in order if abs(d[i] - last) <= tol]
    return d, [sure + list(c) for c in itertools.combinations(tied, k - len(sure))]


def run(sc, obs):
    from pelicun.tools.NNR import NNR

    src = [list(map(float, p)) for p in sc['src']]
    tgt = [list(map(float, p)) for p in sc['tgt']]
    k, weight, shape, size, seed = sc['k'], sc['w'], sc['shape'], sc['size'], sc['seed']
    n = len(src)
    style = sc.get('vals')
    known = values(shape, n, style=style)
    S, T = np.array(src), np.array(tgt)
    if sc.get('flat'):
        S, T = S[:, 0], T[:, 0]
    keep = [x.copy() for x in (S, T, known)]
    kw = {'n_neighbors': k, 'weight': weight}
    if size is not None:
        kw['sample_size'] = size
    if seed is not None:
        kw['seed'] = seed
    if k > n:
        try:
            NNR(T, S, known, **kw)
        except ValueError:
            obs.outcomes.add('rejected')
        else:
            obs.fail('more neighbours than points', 'accepted')
        return
    out = NNR(T, S, known, **kw)
    obs.step()
    obs.check(all(np.array_equal(a, b) for a, b in zip(keep, (S, T, known))), 'inputs changed', 'inputs changed')
    nf = 1 if shape == '1' else known.shape[1]
    if size is None:
        want = (len(tgt),) if shape == '1' else (len(tgt), nf) if shape[0] == '2' else (len(tgt), nf, 4)
    else:
        want = (len(tgt), nf, size)
    if not obs.check(out.shape == want, f'shape:{shape}', f'{out.shape} instead of {want}'):
        return
    for ti, t in enumerate(tgt):
        d, sets = neighbour_sets(src, t, k)
        if size is None:
            ok = False
            for s in sets:
                w = weights_of([d[i] for i in s], weight)
                ref = np.tensordot(w, known[s], axes=(0, 0))
                ok = ok or np.allclose(out[ti], ref, rtol=1e-8, atol=1e-9 * np.abs(known).max())
            obs.check(ok, f'expected:{weight}:{shape[0]}', f'{out[ti]} at {t}; neighbours {sets}, last candidate {ref}')
            continue
        # every realization comes from one neighbour
        chosen = []
        table = known.reshape(n, nf, 1) if known.ndim < 3 else known
        idx = np.arange(size) % table.shape[2]
        for r, hit in enumerate((table[:, :, idx] == out[ti][None]).all(axis=1).T):
            src_i = np.flatnonzero(hit)
            if not len(src_i):
                obs.fail(f'sample:{shape[0]}:mixed', f'realization {r} at {t}: {out[ti][:, r]}')
            chosen.append(int(src_i[0]) if len(src_i) else None)
        obs.compared += 1
        used = {c for c in chosen if c is not None}
        fit = [s for s in sets if used <= set(s)]
        obs.check(fit != [], 'sample:not a neighbour', f'{sorted(used)} at {t}; neighbours {sets}')
        # impossible choices: farther neighbours when one is at the place itself
        if weight != 'uniform':
            zero = [i for i in range(n) if d[i] == 0]
            if zero:
                obs.check(used <= set(zero), 'sample:coincident', f'{sorted(used)} at {t}, where {zero} are')
        if size >= 1000 and len(fit) == 1:
            w = weights_of([d[i] for i in fit[0]], weight)
            for i, p in zip(fit[0], w):
                c = sum(x == i for x in chosen)
                obs.check(abs(c - size * p) <= 6.5 * math.sqrt(size * p * (1 - p)) + 1e-6, f'sample:probability:{weight}',
                          f'neighbour {i} of {t} chosen {c} of {size} times, probability {p}')
    if size is not None and seed is not None:
        again = NNR(T, S, known, **kw)
        obs.check(np.array_equal(out, again), 'sample:reproducible', 'two results with one seed')
        alt = known if shape == '1' else 2.0 * known
        third = NNR(T, S, alt, **kw)
        obs.check(np.array_equal(third, out if shape == '1' else 2.0 * out), 'sample:choice depends on values', 'other neighbours for other values')
        if size >= 100 and k > 1 and n > 1:
            other = NNR(T, S, known, **{**kw, 'seed': seed + 100})
            mixed = any(len({tuple(np.atleast_1d(out[i][0, r])) for r in range(0, size, 4)}) > 1 for i in range(len(tgt)))
            obs.check(not mixed or not np.array_equal(other, out), 'sample:seed without effect', 'the same result with another seed')
        if len(tgt) > 1 and size >= 100 and k > 1:
            # targets at the same distances from the same points are not perfectly dependent
            same = [i for i in range(1, len(tgt)) if tgt[i] == tgt[0]]
            if same and max(weights_of(sorted(math.dist(p, tgt[0]) for p in src)[:k], weight)) < 0.75:
                rows = {out[i].tobytes() for i in (0, *same)}
                obs.check(len(rows) == 1 + len(same), 'sample:targets share choices',
                          f'{1 + len(same)} targets at one place have {len(rows)} different series of neighbours')
    obs.state(sc['grid'], k, weight, shape, size, np.round(out.reshape(len(tgt), -1)[:3, :1], 6).tolist())
    obs.outcomes.add('expected' if size is None else 'resampled')


def scenarios(tier):
    th = tier == 'thorough'
    for name, src in grids(tier).items():
        tgt = positions(src, tier)
        n = len(src)
        flats = (False, True) if len(src[0]) == 1 else (False,)
        for k in [*range(1, min(n, 9) + 1), *([n] if n > 9 else []), n + 1]:
            for w in WEIGHTS:
                for shape in ('1', '2a', '2b', '3a', '3b'):
                    for flat in flats:
                        base = {'grid': name, 'src': src, 'k': k, 'w': w, 'shape': shape, 'flat': flat}
                        yield {**base, 'tgt': tgt, 'size': None, 'seed': None}
                        yield {**base, 'tgt': tgt[:1], 'size': None, 'seed': 3}
                        if k <= min(n, 4) and not flat:
                            for style in ('int', 'tiny', 'negative', 'mixed'):
                                yield {**base, 'tgt': tgt, 'size': None, 'seed': None, 'vals': style}
                                yield {**base, 'tgt': tgt[::3], 'size': 7, 'seed': 1, 'vals': style}
                        for size in (1, 3, 9):
                            for seed in range(16) if th else (0, size, 4):
                                yield {**base, 'tgt': tgt[:: 1 if seed == 0 else 5], 'size': size, 'seed': seed}
                        if shape in {'1', '2b', '3b'} and not flat:
                            yield {**base, 'tgt': [*tgt[1:8:2], tgt[1], tgt[1]], 'size': 2000, 'seed': 0}
                        yield {**base, 'tgt': tgt[::-2], 'size': 5, 'seed': None}
                        if shape in {'1', '3b'} and 1 < k <= n and not flat:
                            for seed in (0, 3):
                                yield {**base, 'tgt': [tgt[1]] * 45, 'size': 120, 'seed': seed}
