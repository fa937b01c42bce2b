"""Boring reference model of damage evaluation (dictionaries and loops)."""

from __future__ import annotations

import numpy as np


def parse_weights(w):
    if w is None or (isinstance(w, float) and np.isnan(w)):
        return None
    return [float(x) for x in str(w).replace(' ', '').split('|')]


def ds_ids(ls_list):
    """List (per limit state) of the damage state ids it can lead to."""
    out, nxt = [], 1
    for ls in ls_list:
        w = parse_weights(ls.get('w'))
        k = 1 if w is None else len(w)
        out.append(list(range(nxt, nxt + k)))
        nxt += k
    return out


def certain(ls_list):
    """The one damage state per limit state (weights must be degenerate)."""
    out = []
    for ids, ls in zip(ds_ids(ls_list), ls_list):
        w = parse_weights(ls.get('w'))
        if w is None:
            out.append(ids[0])
        else:
            assert sorted(w)[-1] == 1.0
            out.append(ids[w.index(1.0)])
    return out


def state(caps, dss, demand):
    """Highest exceeded limit state decides."""
    res = 0
    for c, d in zip(caps, dss):
        if demand > c:
            res = d
    return res


def states(caps, dss, demand):
    return np.array([state(caps, dss, x) for x in demand], dtype=float)


def midpoints(n):
    return (np.arange(n) + 0.5) / n


def run_process(state, process):
    """
    Apply a damage process.

    state: {(cmp, loc, dir, uid, block): array of ds}; changed in place.
    Tasks run in the order of their number; the worst state among all
    instances of the source (at one location for -LOC) triggers the event.
    """
    for key in sorted(process, key=lambda t: int(t.split('_')[0])):
        src = key.split('_')[1]
        loc_match = src.endswith('-LOC')
        if loc_match:
            src = src[: -len('-LOC')]
        cmps = {k[0] for k in state}
        if src not in cmps:
            continue
        for ev, targets in process[key].items():
            ds = int(ev[2:])
            for tg in targets if isinstance(targets, list) else [targets]:
                tc, te = tg.split('_')
                if tc != 'ALL' and tc not in cmps:
                    continue
                new = -1 if te == 'NA' else int(te[2:])
                locs = sorted({k[1] for k in state if k[0] == src}) if loc_match else [None]
                for loc in locs:
                    inst = [v for k, v in state.items() if k[0] == src and loc in (None, k[1])]
                    hit = np.max(np.array(inst), axis=0) == ds
                    for k in state:
                        if loc is not None and k[1] != loc:
                            continue
                        if (tc == 'ALL' and k[0] != src) or k[0] == tc:
                            state[k][hit] = new
    return state


def quantities(state, qty, nblocks):
    """
    Damaged quantities.

    qty, nblocks: {(cmp, loc, dir, uid): array / int}
    Returns {(cmp, loc, dir, uid, ds): array}; NaN where the group was removed.
    """
    out: dict = {}
    for k, v in state.items():
        pg = k[:4]
        share = np.asarray(qty[pg], dtype=float) / nblocks[pg]
        for ds in sorted({int(x) for x in v if x != -1}):
            out.setdefault((*pg, str(ds)), np.zeros(len(v)))
        for i, x in enumerate(v):
            if x != -1:
                out[(*pg, str(int(x)))][i] += share[i]
    for key in out:
        blocks = np.array([v for k, v in state.items() if k[:4] == key[:4]])
        gone = (blocks == -1).all(axis=0)
        out[key][gone] = np.nan
    return out
