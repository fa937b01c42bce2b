"""C24: an interrupted model library download never corrupts the library."""

from __future__ import annotations

import itertools
import shutil

from mc import dlmlsim as ds

PROPERTY = 'C24'
LEVEL = 'fault_enumeration'
TECHNIQUE = (
    'exhaustive crash-point and fault enumeration on the real code: every network request, body chunk and file system change of every explored '
    'operation is a step; at each step the process ends (with nothing later reaching the disk) or the step fails in every listed way; '
    'the resulting disk states are deduplicated and each is checked and continued'
)
RULE = (
    'initial library x operation x every step x every fault of that step; every resulting disk state is observed by a new process without network, '
    'and the operation is repeated and other versions are installed from it with network; second faults during the repetition'
)
BOUND = {
    'quick': '6 initial libraries, 28 operations; all single faults; a second crash, file error or lost connection at every step of the repetition from every state left by a crash or file error in 3 of them',
    'thorough': '6 initial libraries x 13 operations; all single faults; a second fault at every step of the repetition in all of them, a third one in 2 of them',
}
ASSUMPTIONS = [
    'a process that ends leaves everything it flushed or closed before (no loss of power)',
    'file replacement and removal are atomic; a write reaches the disk completely, by half, or not at all',
    'the server delivers complete bodies or a broken connection',
]
CHUNK = 1
HORIZON = 900

INITIAL = {
    'none': [],
    'v1.0.0': [('update', 'v1.0.0', True)],
    'v1.9.0': [('update', 'v1.9.0', True)],
    'v1.10.0': [('update', 'v1.0.0', True), ('update', 'v1.10.0', True)],
    'v1.0.0 no cache': [('update', 'v1.0.0', False)],
    'checked': [('update', 'v1.0.0', True), ('import',)],
}
OPS = [
    ('import',),
    ('update', None, True),
    ('update', 'v1.0.0', True),
    ('update', 'v1.9.0', True),
    ('update', 'v1.10.0', True),
    ('update', 'v1.9.1', True),
    ('update', 'commit ' + ds.sha('c4')[:7], True),
    ('update', 'commit latest', True),
    ('update', None, False),
    ('update', 'v1.0.0', False),
    ('update', 'v1.10.0', False),
    ('update', 'stable', True),
    ('check',),
]
QUICK = [
    ('none', 0), ('none', 2), ('none', 8), ('none', 6),
    ('v1.0.0', 1), ('v1.0.0', 3), ('v1.0.0', 4), ('v1.0.0', 5), ('v1.0.0', 6), ('v1.0.0', 7), ('v1.0.0', 10), ('v1.0.0', 0), ('v1.0.0', 9),
    ('v1.9.0', 2), ('v1.9.0', 4), ('v1.9.0', 5), ('v1.9.0', 11), ('v1.9.0', 12),
    ('v1.10.0', 2), ('v1.10.0', 3), ('v1.10.0', 8), ('v1.10.0', 0), ('v1.10.0', 1),
    ('v1.0.0 no cache', 3), ('v1.0.0 no cache', 10), ('checked', 0), ('checked', 1), ('checked', 4),
]
ALL = ['crash', 'oserror', 'reset', *ds.NET_FAULTS, 'api-out']
DEEP = [('none', 0), ('v1.0.0', 4), ('v1.10.0', 2)]


def scenarios(tier):
    pairs = QUICK if tier == 'quick' else list(itertools.product(INITIAL, range(len(OPS))))
    for ini, k in pairs:
        deep = 1
        if (ini, k) in DEEP or tier != 'quick':
            deep = 2
        if tier != 'quick' and (ini, k) in DEEP[:2]:
            deep = 3
        yield {'initial': ini, 'op': list(OPS[k]), 'depth': deep, 'second': ['crash', 'oserror', 'connect'] if tier == 'quick' else ALL}


class Lib:
    """The library directory of a scenario and the oracle on it."""

    def __init__(self, sc, obs):
        self.obs = obs
        self.world = ds.World()
        self.dir = ds.scratch()
        self.root = self.dir / 'library'
        self.env = ds.Env(self.world, self.root)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def go(self, snap, op, plan=None, down=False):
        """Run op from the disk state; outcome and new disk state."""
        ds.restore(self.root, snap)
        self.env.down = down
        self.obs.step()
        o = ds.execute(self.env, op, plan)
        self.env.down = False
        new = ds.snapshot(self.root)
        self.obs.state(ds.relative(new, self.env.now))
        return o, new

    def commit_of(self, claim):
        if claim is None:
            return None
        if str(claim).startswith('commit-'):
            return self.world.resolve(claim[7:])
        return self.world.tags.get(claim)

    def content(self, snap, c):
        """'' if every model file of commit c has its content, else what differs."""
        vis = ds.visible(snap)
        for f, data in self.world.library(c).items():
            if vis.get(f) != data:
                return f'{f}: {"missing" if f not in vis else vis[f][:20]!r} want {data[:20]!r}'
        return ''

    def consistent(self, snap, claim):
        """Does the library hold what it claims to? '' or the problem."""
        if claim is not None:
            c = self.commit_of(claim)
            if c is None:
                return f'claims unknown version {claim!r}'
            return self.content(snap, c)
        if any(not self.content(snap, c) for c in self.world.tree):
            return ''
        return 'mixture of versions'

    def observe(self, snap):
        """What a new process without network sees: (installed, error, claim, disk)."""
        o, s2 = self.go(snap, ('import',), down=True)
        if not o.ok:
            return False, o.error, None, s2
        q, s3 = self.go(s2, ('check',), down=True)
        if not q.ok:
            return True, q.error, None, s3
        return True, None, q.result.get('current_version'), s3

    def target(self, op):
        """Commit and name an operation installs."""
        w = self.world
        t = op[1] if op[0] == 'update' else None
        if op[0] == 'import' or t in (None, 'latest'):
            return w.tags[w.latest], w.latest
        if t == 'commit latest':
            return w.head, 'commit-' + ds.sha(w.head)[:7]
        if t.startswith('commit '):
            return w.resolve(t[7:]), 'commit-' + t[7:]
        return w.tags[t], t

    def installed(self, snap, op, before, o, where):
        """After op reported success: the library is what was asked for."""
        obs = self.obs
        ok, err, claim, _ = self.observe(snap)
        if not obs.check(ok and err is None, f'after success:{where}:library unusable', f'{err!r}'):
            return
        if op[0] == 'update' or not before[0]:
            c, name = self.target(op)
            bad = self.content(snap, c)
            if bad and self.fallback(o, snap, claim):
                return
            obs.check(not bad, f'after success:{where}:wrong content', bad)
            if claim is not None:
                obs.check(claim == name, f'after success:{where}:claims another version', f'{claim!r} want {name!r}')
        else:
            bad = self.consistent(snap, claim)
            obs.check(not bad, f'after success:{where}:inconsistent', bad)
            # a check that could not be saved may lose the version, not the library
            obs.check(claim in {before[2], None if o is not None and o.fired else before[2]}, f'after success:{where}:claim changed', f'{claim!r} want {before[2]!r}')

    def fallback(self, o, snap, claim):
        """The tag could not be looked up and the branch of the release was used instead."""
        if o is None or not o.api_out:
            return False
        if self.content(snap, self.world.head):
            return False
        self.obs.fail('tag lookup unavailable:branch content under the version of the release', f'claims {claim!r}, holds the head of main')
        return True


def complete(lib, obs, snap, op, where, seen):
    """With network: repeating the operation completes it, and other versions can be installed."""
    key = ds.relative(snap, lib.env.now)
    if key in seen:
        return
    seen.add(key)
    before = lib.observe(snap)
    todo = [op, ('import',), ('update', 'v1.0.0', True), ('update', 'v1.9.0', True), ('update', 'v1.10.0', True)]
    for n, nxt in enumerate(todo):
        if n and nxt == op or nxt == ('check',):
            continue
        o, s = lib.go(snap, nxt)
        tag = 'repeat' if n == 0 else 'then ' + ' '.join(str(x) for x in nxt)
        if obs.check(o.ok, f'{where}:{tag} fails', lambda o=o: f'{o.error!r}'):
            lib.installed(s, nxt, before, None, f'{where}:{tag}')


def faults(lib, obs, snap, op, depth, seen, states, second, where=''):
    """All faults at all steps of op from the disk state."""
    before = lib.observe(snap)
    ref, _ = lib.go(snap, op)
    obs.check(ref.ok, 'undisturbed operation fails', f'{ref.error!r}')
    obs.check(len(ref.steps) > 0 or op == ('check',) or op == ('import',), 'no steps', 'nothing intercepted')
    after = []
    for i, (kind, detail, kinds) in enumerate(ref.steps):
        detail = str(detail).replace(str(lib.root), '')
        for what in (*kinds, *(['api-out'] if kind == 'net' and 'api.github' in detail else [])):
            if where and what not in second:
                continue
            o, s = lib.go(snap, op, plan=(i, what))
            if not obs.check(o.fired is not None or o.crashed, 'not reproducible', f'step {i} {kind} {what} not reached'):
                continue
            at = f'{where}{kind}:{what}'
            net = kind in ('net', 'net-read') and what != 'crash'
            if o.ok:
                if op != ('check',):
                    lib.installed(s, op, before, o, at)
            key = (ds.relative(s, lib.env.now), net, o.ok)
            if key in states:
                continue
            states.add(key)
            inst, err, claim, s2 = lib.observe(s)
            if inst:
                if not obs.check(err is None, f'{at}:version check fails without network', f'{err!r}'):
                    continue
                bad = lib.consistent(s, claim)
                if bad and o.ok and lib.fallback(o, s, claim):
                    continue
                obs.check(not bad, f'{at}:corrupt library presented as {"current" if claim else "complete"}',
                          lambda: f'{op} step {i} {detail}: claims {claim!r}: {bad}')
            else:
                obs.check(isinstance(err, (RuntimeError, ImportError)), f'{at}:unexpected error', f'{err!r}')
                if net:
                    obs.check(not before[0], f'{at}:network failure disables an installed library', f'{op} step {i} {detail}: {err!r}')
            complete(lib, obs, s, op, at, seen)
            if not net:
                after.append((s, at))
    if depth > 1:
        done = set()
        for s, at in after:
            k = ds.relative(s, lib.env.now)
            if k not in done:
                done.add(k)
                faults(lib, obs, s, op, depth - 1, seen, states, second, at + ' then ')


def run(sc, obs):
    lib = Lib(sc, obs)
    try:
        snap = ds.ABSENT
        for op in INITIAL[sc['initial']]:
            o, snap = lib.go(snap, op)
            obs.check(o.ok, 'preparation fails', f'{o.error!r}')
            lib.env.now += ds._dt.timedelta(hours=30)
        faults(lib, obs, snap, tuple(sc['op']), sc['depth'], set(), set(), sc['second'])
    finally:
        lib.close()
