"""
Explorer core: exhaustive enumeration of scenarios on the real code.

A check module provides

* ``PROPERTY``   the property id,
* ``LEVEL``      evidence level,
* ``RULE``       one sentence: how scenarios are made / what is non-trivial,
* ``ASSUMPTIONS`` list of strings,
* ``scenarios(tier)``  a *deterministic, finite* iterable of JSON-able
  scenarios; the run visits every single one of them,
* ``run(sc, obs)``     executes one scenario on the implementation, compares
  it with the reference model and reports through ``obs``.

``obs`` (class Obs) collects violations, API calls (transitions) and canonical
state digests.  Nothing is sampled: the runner distributes the enumerated list
over worker processes and merges.  Every violation is written out as a JSON
replay artefact; ``run.py <ID> --replay FILE`` re-executes just that scenario.
"""

from __future__ import annotations

import fnmatch
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


class Horizon(BaseException):
    """Raised when one scenario exceeds its horizon (non-termination)."""


class Mismatch(Exception):
    """Raised by comparison helpers; recorded as a violation."""


def canon(x, nd=9):
    """Canonical, hashable-by-repr form of an observation."""
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        return (
            'DF',
            [canon(c, nd) for c in x.columns.tolist()],
            [canon(c, nd) for c in x.index.tolist()],
            [[canon(v, nd) for v in row] for row in x.to_numpy(dtype=object).tolist()],
        )
    if isinstance(x, pd.Series):
        return (
            'S',
            [canon(c, nd) for c in x.index.tolist()],
            [canon(v, nd) for v in x.to_numpy(dtype=object).tolist()],
        )
    if isinstance(x, np.ndarray):
        return [canon(v, nd) for v in x.tolist()]
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return float(f'%.{nd}g' % x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): canon(v, nd) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v, nd) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [canon(v, nd) for v in x]
    if x is None or isinstance(x, (bool, int, str)):
        return x
    return repr(x)


def digest(x) -> str:
    """Short hash of the canonical form."""
    return hashlib.sha1(repr(canon(x)).encode()).hexdigest()[:16]


class Obs:
    """Collector handed to ``run``."""

    def __init__(self) -> None:
        self.violations: list[tuple[str, str]] = []
        self.states: set[str] = set()
        self.transitions = 0
        self.compared = 0
        self.outcomes: set[str] = set()

    # -- coverage ---------------------------------------------------------
    def step(self, n: int = 1) -> None:
        """Count ``n`` calls into the implementation."""
        self.transitions += n

    def state(self, *x) -> None:
        """Record a canonical state that was visited."""
        self.states.add(digest(x))

    # -- verdicts ---------------------------------------------------------
    def fail(self, sig: str, msg: str) -> None:
        """Record a violation. ``sig`` identifies the failing input/site."""
        self.violations.append((sig, str(msg)[:4000]))

    def check(self, ok, sig: str, msg='') -> bool:
        """Assert-like."""
        self.compared += 1
        if not ok:
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(ok)

    def eq(self, got, want, sig: str, msg: str = '') -> bool:
        """Exact comparison on canonical forms."""
        self.compared += 1
        a, b = canon(got), canon(want)
        if a != b:
            self.fail(sig, f'{msg}: got {short(a)} want {short(b)}')
            return False
        return True

    def close(self, got, want, sig: str, msg: str = '', rtol=1e-8, atol=1e-10) -> bool:
        """Numeric comparison, NaN equal to NaN."""
        import numpy as np

        self.compared += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(sig, f'{msg}: not numeric: got {short(got)} want {short(want)}')
            return False
        if g.shape != w.shape:
            self.fail(sig, f'{msg}: shape {g.shape} want {w.shape}; got {short(g.tolist())} want {short(w.tolist())}')
            return False
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            if g.size > 12:
                bad = np.argwhere(~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
                diff = [(tuple(map(int, b)), float(g[tuple(b)]), float(w[tuple(b)])) for b in bad[:6]]
                self.fail(sig, f'{msg}: {len(bad)} of {g.size} cells differ; (position, got, want): {diff}')
            else:
                self.fail(sig, f'{msg}: got {short(g.tolist())} want {short(w.tolist())}')
            return False
        return True


def short(x, n=1500) -> str:
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------------------
_MOD = None
# checks whose runs need the built-in model library
LIBRARY_CHECKS = ('C12', 'C14', 'C15', 'C18', 'C19', 'C20', 'C23', 'C26', 'C27', 'C28', 'C33')
_HORIZON = 150


def _alarm(*_a):
    raise Horizon


def run_one(mod, sc):
    """Run one scenario, mapping exceptions to violations."""
    obs = Obs()
    # processor time decides, so that a busy machine raises no alarm; the wall clock only ends a scenario that sleeps
    horizon = getattr(mod, 'HORIZON', _HORIZON)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, horizon)
    signal.alarm(max(horizon, min(5 * horizon, 800)))
    try:
        mod.run(sc, obs)
    except Horizon:
        obs.fail('horizon', 'scenario did not terminate within its horizon')
    except Mismatch as e:
        obs.fail('mismatch', str(e))
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        site = ''
        for fr in tb:
            if '/pelicun/' in fr.filename:
                site = f'{Path(fr.filename).name}:{fr.name}'
        obs.fail(
            f'exception:{type(e).__name__}:{site}',
            ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
        )
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return obs


def _worker(args):
    start, chunk = args
    out = []
    states: set[str] = set()
    trans = comp = 0
    for k, sc in enumerate(chunk):
        o = run_one(_MOD, sc)
        states |= o.states
        trans += o.transitions
        comp += o.compared
        if o.violations:
            out.append((start + k, sc, o.violations))
    return out, states, trans, comp, len(chunk)


def load_known(prop: str) -> list[dict]:
    p = VERIF / 'known_findings.json'
    if not p.exists():
        return []
    data = json.loads(p.read_text())
    return [f for f in data.get('findings', []) if f['property'] == prop]


def main(argv=None) -> int:
    """Entry point of run.py."""
    global _MOD
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 2
        elif argv[i] == '--jobs':
            jobs = int(argv[i + 1])
            i += 2
        elif argv[i] == '--only':
            only = argv[i + 1]
            i += 2
        else:
            raise SystemExit(f'unknown argument {argv[i]}')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    from mc import pel

    pel.setup(library=prop in LIBRARY_CHECKS)
    modfile = next((VERIF / 'checks').glob(f'{prop.lower()}_*.py'))
    mod = importlib.import_module(f'checks.{modfile.stem}')
    _MOD = mod
    assert mod.PROPERTY == prop
    known = load_known(prop)

    if replay:
        art = json.loads(Path(replay).read_text())
        o = run_one(mod, art['scenario'])
        for sig, msg in o.violations:
            print(f'[{sig}] {msg}')
        if o.violations:
            print(f'VIOLATION property={prop} replay={replay}')
            return 1
        print('replay: no violation')
        return 0

    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    scs = list(mod.scenarios(tier))
    if only:
        scs = [s for s in scs if only in json.dumps(s)]
    # own the nondeterminism: the same scenario run twice must observe the
    # same states before anything this run says is believed
    n = len(scs)
    chunk = max(1, min(getattr(mod, 'CHUNK', 25), n // (jobs * 4) or 1))
    tasks = [(k, scs[k : k + chunk]) for k in range(0, n, chunk)]
    bad, states, trans, comp, done = [], set(), 0, 0, 0
    # a run that has its answer, or no time left for a quick answer, stops early and says so
    budget = 840 if tier == 'quick' else float('inf')
    patience = 0 if os.environ.get('VERIF_FAST') else 420 if tier == 'quick' else float('inf')
    cut = found = False

    def listed(sc, sig):
        return any(fnmatch.fnmatchcase(sig, f['sig']) and ('scenario' not in f or f['scenario'] == sc) for f in known)

    if jobs > 1 and len(tasks) > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(jobs) as pool:
            for out, st, tr, co, dn in pool.imap_unordered(_worker, tasks):
                bad += out
                states |= st
                trans += tr
                comp += co
                done += dn
                late = time.time() - t0
                found = found or any(not listed(sc, sig) for _, sc, vs in out for sig, _ in vs)
                if late > budget or (found and late > patience):
                    cut = done < n
                    break
    else:
        for t in tasks:
            out, st, tr, co, dn = _worker(t)
            bad += out
            states |= st
            trans += tr
            comp += co
            done += dn
    bad.sort(key=lambda t: t[0])

    # separate listed findings from new violations
    hits: dict[int, int] = {}
    fresh = []
    for k, sc, vs in bad:
        for sig, msg in vs:
            for j, f in enumerate(known):
                if fnmatch.fnmatchcase(sig, f['sig']) and (
                    'scenario' not in f or f['scenario'] == sc
                ):
                    hits[j] = hits.get(j, 0) + 1
                    break
            else:
                fresh.append((k, sc, sig, msg))
    for j in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {known[j]['what']} [{hits[j]} scenario(s)]")

    replays = []
    shown: dict[str, int] = {}
    for k, sc, sig, msg in fresh:
        shown[sig] = shown.get(sig, 0) + 1
        if shown[sig] > 1 or len(replays) >= 12:
            continue
        d = Path(os.environ.get('VERIF_REPLAY_DIR', VERIF / 'evidence' / 'replay'))
        d.mkdir(parents=True, exist_ok=True)
        h = hashlib.sha1(json.dumps([sc, sig], sort_keys=True).encode()).hexdigest()[:10]
        p = d / f'{prop}-{h}.json'
        p.write_text(json.dumps({'property': prop, 'scenario': sc, 'sig': sig, 'message': msg,
                                 'how': f'python run.py {prop} --replay {p}'}, indent=1))
        replays.append((p, sig, msg, sc))

    wall = time.time() - t0
    samples = [scs[0], scs[n // 2], scs[-1]] if n else []
    cov = {
        'samples': samples,
        'exhaustive': not cut,
        'bound': getattr(mod, 'BOUND', {}).get(tier, '') if isinstance(getattr(mod, 'BOUND', ''), dict) else getattr(mod, 'BOUND', ''),
        'oracle_comparisons': comp,
    }
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(states), transitions=trans, traces_validated_against_impl=done, rule=mod.RULE)
    else:
        cov.update(evaluations=done, distinct_nontrivial=len(states), implementation_calls=trans, rule=mod.RULE)
    ev = {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'thorough',
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    if not only:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=str))
    print(
        f'{prop} tier={tier} scenarios={done} states={len(states)} '
        f'api_calls={trans} comparisons={comp} violations={len(fresh)} wall={wall:.1f}s'
    )
    assert done == n or cut
    if cut:
        print(f'stopped early: {done} of {n} scenarios explored')
    if fresh:
        for sig, c in sorted(shown.items(), key=lambda t: -t[1])[:20]:
            print(f'  {c:6d} x {sig}')
        for p, sig, msg, sc in replays:
            print(f'--- [{sig}] scenario={short(sc, 600)}\n{msg[:1500]}')
        for p, *_ in replays:
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    return 0
