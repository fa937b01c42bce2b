"""C25: the library update brings exactly the requested version."""

from __future__ import annotations

import itertools
import json
import os
import shutil
from datetime import datetime, timedelta

from packaging import version

from mc import dlmlsim as ds

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = (
    'breadth-first exploration of the reachable states (library directory, server, clock) under all sequences of installations, updates, version checks, imports, '
    'new releases, passing time and damage up to the depth; every transition runs the command line or the import of the implementation against a simulated server and '
    'compares files, recorded version, warnings and check results with a reference; plus every odd server reply and cache content'
)
BOUND = {
    'quick': '20 operations, 11 changes of the environment, 6 settings; depth 3 (depth 2 after the first operation); 22 server replies, 17 cache contents, more than 300 changed files, every pair of 19 version numbers with results of 7 ages',
    'thorough': 'the same with depth 4',
}
ASSUMPTIONS = [
    'an installation of the version that is recorded already does not repair model files damaged by others (the unit tests demand it)',
    'a version check is repeated after a day; installations of a commit and of an unknown version always count as outdated (documented)',
    'an installation without cache in an empty directory records no version',
]
CHUNK = 1
HORIZON = 900

C1, C4 = ds.sha('c1')[:7], ds.sha('c4')[:7]
UPDATES = [
    ('update', None, True), ('update', 'v1.0.0', True), ('update', 'v1.9.0', True), ('update', 'v1.10.0', True),
    ('update', 'v1.9.1', True), ('update', 'stable', True), ('update', f'commit {C1}', True), ('update', f'commit {C4}', True),
    ('update', 'commit latest', True), ('update', 'v7.0', True), ('update', 'commit xyz', True), ('update', 'latest', False),
    ('update', 'v1.0.0', False), ('update', 'v1.10.0', False), ('update', 'commit latest', False),
    ('import',), ('check',), ('import', 'down'), ('check', 'down'), ('update', 'v1.9.0', True, 'down'),
]
CHANGES = [
    ('env', 'release'), ('env', 'hour'), ('env', 'day'), ('env', 'past'), ('env', 'delete file'), ('env', 'corrupt file'),
    ('env', 'delete all but hidden'), ('env', 'cache gone'), ('env', 'cache corrupt'), ('env', 'manifest gone'), ('env', 'push'),
]
SETTINGS = ['plain', 'token', 'token missing', 'other urls', 'big', 'readonly']

REPLIES = [
    (200, 'null'), (200, '[]'), (200, '[1]'), (200, '"x"'), (200, '3'), (200, 'true'), (200, '{}'), (200, '{"tag_name": null}'),
    (200, '{"tag_name": 5}'), (200, '{"tag_name": ["v1"]}'), (200, '{"tag_name": ""}'), (200, '{"tag_name": {"a": 1}}'), (200, 'not json'),
    (200, ''), (200, '{"tag_name": "v1'), (301, ''), (304, ''), (403, '{"message": "API rate limit exceeded"}'), (404, '{}'), (429, ''), (500, ''), (503, 'null'),
]
CACHES = [
    '', '{', '[]', 'null', '3', '"x"', '[{}]', '\xff\xfe', '{"last_version_check": 5}', '{"last_version_check": "garbage"}',
    '{"last_version_check": "2026-03-01T12:00:00+00:00"}', '{"last_version_check": null}', '{"version": 5}', '{"version": null}', '{"version": ["v1"]}',
    '{"version": ""}', '{"version": "not a version"}',
]

VERSIONS = [
    'v0.9.9', 'v1.9', 'v1.9.0', 'v1.9.1', 'v1.9.10', 'v1.10.0', 'v1.10.1', 'v2.0.0rc1', 'v2.0.0', 'v2.0.0.post1', '2.0.0', '2.0.1', 'v2.0.0.1', 'v10.0.0',
    'v1.9.0-beta', 'stable', 'release-3', 'v2024.03.01', 'v2024.3.2',
]
AGES = [timedelta(0), timedelta(minutes=1), timedelta(hours=23, minutes=59, seconds=59), timedelta(days=1), timedelta(days=1, seconds=1), timedelta(days=2, hours=1),
        timedelta(days=400)]


def scenarios(tier):
    d = 3 if tier == 'quick' else 4
    first = [*UPDATES, *CHANGES[:1]]
    for a in first:
        yield {'kind': 'tree', 'setting': 'plain', 'first': list(a), 'depth': d}
    for s in SETTINGS[1:]:
        for a in [UPDATES[1], UPDATES[3], UPDATES[15]]:
            yield {'kind': 'tree', 'setting': s, 'first': list(a), 'depth': d - 1}
    for k, ini in itertools.product(range(len(REPLIES)), [UPDATES[1], UPDATES[8], UPDATES[12]]):
        yield {'kind': 'reply', 'reply': k, 'first': list(ini)}
    for k in range(len(CACHES)):
        yield {'kind': 'cache', 'cache': k}
    for v in VERSIONS:
        yield {'kind': 'versions', 'installed': v}


def newer(latest, claim):
    """Is an update to be reported?"""
    if latest is None:
        return False
    if claim is None or claim.startswith('commit-'):
        return True
    try:
        return version.parse(latest.lstrip('v')) > version.parse(claim.lstrip('v'))
    except version.InvalidVersion:
        return latest != claim


class State:
    """Disk, server, clock and what the reference knows about them."""

    def __init__(self):
        self.disk = ds.ABSENT
        self.latest = 'v1.9.0'
        self.head = 'c4'
        self.now = ds.T0
        self.commit = None      # installed
        self.claim = None       # recorded version
        self.recorded = False   # is there a record
        self.damaged = False    # files changed by others
        self.gone = False       # incomplete
        self.extras = False     # the list of installed files was lost
        self.checks = ()        # (time, latest or 'error') of checks that may have been kept

    def copy(self):
        s = State()
        s.__dict__.update(self.__dict__)
        return s

    def key(self):
        return (ds.relative(self.disk, self.now), self.latest, self.head, self.commit, self.claim, self.recorded, self.damaged, self.gone, self.extras,
                tuple(sorted({(max(-48, min(48, (self.now - t).total_seconds() / 3600)), w) for t, w in self.checks}, key=repr)))


NOTES = ('my notes.txt', b'keep')


class Explorer:
    """Runs operations on the implementation and on the reference."""

    def __init__(self, obs, setting='plain'):
        self.obs = obs
        self.world = ds.World(big=setting == 'big')
        self.dir = ds.scratch()
        self.root = self.dir / 'library'
        self.env = ds.Env(self.world, self.root)
        self.setting = setting
        os.environ.pop('GITHUB_TOKEN', None)
        if setting.startswith('token'):
            self.env.token = 'sesame'
        if setting == 'token':
            os.environ['GITHUB_TOKEN'] = 'sesame'
        if setting == 'other urls':
            self.env.api, self.env.raw, self.env.repo = 'api.example.org', 'raw.example.org', ('me', 'models')
            os.environ.update({'PELICUN_GITHUB_API_URL': 'https://api.example.org', 'PELICUN_GITHUB_RAW_URL': 'https://raw.example.org',
                               'DLML_REPO_OWNER': 'me', 'DLML_REPO_NAME': 'models'})

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        for v in ('GITHUB_TOKEN', 'PELICUN_GITHUB_API_URL', 'PELICUN_GITHUB_RAW_URL', 'DLML_REPO_OWNER', 'DLML_REPO_NAME'):
            os.environ.pop(v, None)

    # -- reference ----------------------------------------------------------
    def target(self, st, op):
        t = op[1] if op[0] == 'update' else None
        if op[0] == 'import' or t in (None, 'latest'):
            return self.world.tags[st.latest], st.latest
        if t == 'commit latest':
            return st.head, 'commit-' + ds.sha(st.head)[:7]
        if t.startswith('commit '):
            c = self.world.resolve(t[7:])
            return c, 'commit-' + t[7:]
        return self.world.tags.get(t), t

    def reachable(self):
        return self.setting != 'token missing'

    # -- operations ---------------------------------------------------------
    def run(self, st, op):
        env = self.env
        env.now, self.world.latest, self.world.head = st.now, st.latest, st.head
        ds.restore(self.root, st.disk)
        down = op[-1] == 'down'
        env.down = down
        self.obs.step()
        o = ds.execute(env, op)
        env.down = False
        return o, ds.snapshot(self.root)

    def manifest(self, disk):
        return any(k == 'model_files.txt' for k, _ in disk)

    def apply(self, st, op, hist):
        """One transition; returns the next state or None if it makes no sense."""
        n = st.copy()
        if op[0] == 'env':
            return self.change(n, op[1])
        o, disk = self.run(st, op)
        n.disk = disk
        sig = ' '.join(str(x) for x in op) + f':{self.setting}'
        where = f'{sig} after {hist}'
        by_commit = op[0] == 'update' and op[1] in {f'commit {C1}', f'commit {C4}'}  # needs no API
        down = op[-1] == 'down' or not (self.reachable() or by_commit)
        if op[0] == 'update' or (op[0] == 'import' and not self.manifest(st.disk)):
            self.install(st, n, op, o, sig, where, down)
        else:
            self.look(st, n, op, o, sig, where, op[-1] == 'down')
        return n

    def install(self, st, n, op, o, sig, where, down):
        obs = self.obs
        c, name = self.target(st, op)
        cache = op[2] if op[0] == 'update' else True
        if down or c is None:
            obs.check(not o.ok and isinstance(o.error, RuntimeError), f'{sig}:impossible update not reported', f'{where}: {o.error!r} {o.out[-200:]}')
            obs.eq(ds.visible(n.disk), ds.visible(st.disk), f'{sig}:failed update changes the library', where)
            return
        if not obs.check(o.ok, f'{sig}:fails', f'{where}: {o.error!r}'):
            return
        lib = self.world.library(c)
        vis = ds.visible(n.disk)
        vis.pop(NOTES[0], None)
        same = cache and st.recorded and st.commit == c and st.claim is not None
        if not (st.damaged and same and not st.gone):
            bad = [f for f in sorted(set(lib) | (set() if st.extras else set(vis))) if lib.get(f) != vis.get(f)]
            obs.check(not bad, f'{sig}:library differs from the requested version',
                      lambda: f'{where}: ' + '; '.join(f'{f}: {str(vis.get(f))[:30]} want {str(lib.get(f))[:30]}' for f in bad[:5]))
            n.damaged = False
        if NOTES[0] in ds.visible(st.disk):
            obs.check(ds.visible(n.disk).get(NOTES[0]) == NOTES[1], f'{sig}:file of the user removed', where)
        n.gone = False
        n.commit = c
        n.recorded = cache or st.recorded
        n.claim = name if n.recorded else None
        # what is recorded, seen without network (not part of the history)
        q, _ = self.run(n, ('check', 'down'))
        if obs.check(q.ok, f'{sig}:version check fails', f'{where}: {q.error!r}'):
            got = q.result.get('current_version')
            if cache:
                obs.eq(got, n.claim, f'{sig}:recorded version', where)
            else:
                # whether an installation without cache is recorded is open
                obs.check(got in {name, None}, f'{sig}:recorded version', f'{where}: {got} want {name}')
                n.recorded, n.claim = got is not None, got

    def look(self, st, n, op, o, sig, where, down):
        """A version check or an import of an installed library."""
        obs = self.obs
        if not obs.check(o.ok, f'{sig}:fails', f'{where}: {o.error!r}'):
            return
        obs.eq(ds.visible(n.disk), ds.visible(st.disk), f'{sig}:changes the library', where)
        fresh = 'error' if down or not self.reachable() else st.latest
        kept = [(t, w) for t, w in st.checks if timedelta(0) <= st.now - t < timedelta(days=1)]
        if op[0] == 'check':
            r = o.result
            last = datetime.fromisoformat(r['last_check'])
            if last == st.now and not any(t == st.now for t, _ in kept):
                possible = {fresh}
            else:
                possible = {w for t, w in kept if t == last}
                if last == st.now:
                    possible.add(fresh)
            if obs.check(possible, f'{sig}:outdated result', f'{where}: checked {last}, now {st.now}, checks {kept}'):
                got = 'error' if r['error'] else r['latest_version']
                obs.check(got in possible, f'{sig}:latest version', f'{where}: {r} want {possible}')
                want = False if got == 'error' else newer(got, st.claim)
                obs.eq(bool(r['update_available']), want, f'{sig}:update available', f'{where}: {r}')
            obs.eq(r['current_version'], st.claim, f'{sig}:current version', f'{where}: {r}')
        else:
            possible = {fresh} if not kept else {fresh, *(w for _, w in kept)}
            allowed = {w != 'error' and newer(w, st.claim) for w in possible}
            told = any('update available' in w.lower() for w in o.warnings)
            obs.check(told in allowed, f'{sig}:warning', f'{where}: warned {told}, want {allowed}; {o.warnings}')
            if told:
                text = ' '.join(o.warnings)
                obs.check(str(st.claim) in text and any(w in text for w in possible if w), f'{sig}:warning text', f'{where}: {text}')
            obs.check(len(o.warnings) <= 1, f'{sig}:several warnings', f'{where}: {o.warnings}')
        n.checks = tuple(sorted({*kept, (st.now, fresh)}))

    def change(self, n, what):
        d = dict(n.disk)
        has = self.manifest(n.disk)
        if what == 'release':
            if n.latest == 'v1.10.0':
                return None
            n.latest = 'v1.10.0'
        elif what == 'push':
            if n.head == 'c5':
                return None
            w = self.world
            if 'c5' not in w.tree:
                w.parent['c5'] = 'c4'
                w.tree['c5'] = ds._files(a='A5', s='S5', n='N5', z='Z1')
                w.commits[ds.sha('c5')] = 'c5'
            n.head = 'c5'
        elif what == 'hour':
            n.now += timedelta(hours=1)
        elif what == 'day':
            n.now += timedelta(hours=25)
        elif what == 'past':
            n.now -= timedelta(days=3)
        elif what in ('delete file', 'corrupt file'):
            if not has or d.get('a.csv') is None:
                return None
            if what == 'delete file':
                del d['a.csv']
            else:
                d['a.csv'] = b'damaged'
            n.damaged = True
        elif what in ('delete all but hidden', 'manifest gone'):
            if not has:
                return None
            if what == 'manifest gone':
                del d['model_files.txt']
            else:
                d = {k: v for k, v in d.items() if k.startswith('.')}
            n.gone = True
            n.recorded, n.claim = False, None
            if what == 'manifest gone':
                n.commit, n.extras = None, True
        else:
            if '.dlml_cache.json' not in d:
                return None
            if what == 'cache gone':
                del d['.dlml_cache.json']
            else:
                d['.dlml_cache.json'] = b'{"commit_sha": "' + ds.sha('c2').encode()
            n.recorded, n.claim, n.checks = what == 'cache corrupt', None, ()
        n.disk = tuple(sorted(d.items(), key=lambda t: t[0])) if n.disk != ds.ABSENT else n.disk
        return n


def tree(sc, obs):
    ex = Explorer(obs, sc['setting'])
    try:
        st = State()
        first = tuple(sc['first'])
        if ex.setting == 'readonly' or ex.setting == 'token missing':
            # installed before
            reach, ex.setting = ex.setting, 'plain'
            token, ex.env.token = ex.env.token, None
            st = ex.apply(st, first, 'nothing')
            ex.setting, ex.env.token = reach, token
        if ex.setting == 'readonly':
            ex.env.readonly = True
            for op in (('check',), ('import',), ('env', 'day'), ('check',), ('import', 'down')):
                st = ex.apply(st, op, 'read-only directory')
            return
        if ex.setting != 'token missing':
            st = ex.apply(st, first, 'nothing')
        if first[0] == 'update' and ex.manifest(st.disk):
            st.disk = tuple(sorted((*st.disk, NOTES), key=lambda t: t[0]))
        seen = {st.key(): 0}
        front = [(st, [first])]
        ops = [*UPDATES, *CHANGES]
        if ex.setting == 'big':
            ops = UPDATES[:6] + UPDATES[12:14]
        for depth in range(sc['depth'] - 1):
            nxt = []
            for s, h in front:
                for op in ops:
                    if op[0] == 'check' and not ex.manifest(s.disk):
                        continue
                    n = ex.apply(s, op, h)
                    if n is None or n.key() in seen:
                        continue
                    seen[n.key()] = 1
                    obs.state(n.key())
                    nxt.append((n, [*h, op]))
            front = nxt
    finally:
        ex.close()


def reply(sc, obs):
    """Odd server replies: checking never fails and claims nothing."""
    ex = Explorer(obs)
    try:
        st = ex.apply(State(), tuple(sc['first']), 'nothing')
        status, text = REPLIES[sc['reply']]
        # any release is an update of an installed commit or unknown version
        odd = not str(st.claim).startswith('v') and text in ('{"tag_name": 5}', '{"tag_name": ["v1"]}', '{"tag_name": {"a": 1}}')
        for op in (('check',), ('import',)):
            ex.env.reply = {'/releases/latest': (status, text.encode())}
            o, disk = ex.run(st, op)
            ex.env.reply = None
            sig = f'reply:{op[0]}'
            obs.check(o.ok, f'{sig}:fails', f'{status} {text}: {o.error!r}')
            obs.eq(ds.visible(disk), ds.visible(st.disk), f'{sig}:changes the library')
            if not o.ok:
                continue
            if op[0] == 'check':
                obs.check(odd or not o.result['update_available'], f'{sig}:update reported', f'{status} {text}: {o.result}')
                obs.eq(o.result['current_version'], st.claim, f'{sig}:current version', f'{status} {text}')
                if status >= 400 or text in ('not json', '{"tag_name": "v1'):
                    obs.check(o.result['error'], f'{sig}:failure not reported', f'{status} {text}: {o.result}')
            else:
                obs.check(odd or not any('update available' in w for w in o.warnings), f'{sig}:update reported', f'{status} {text}: {o.warnings}')
            n = st.copy()
            n.disk, n.checks = disk, ((st.now, 'error'),)
            n.now += timedelta(hours=25)
            n.checks = ()
            ex.apply(n, ('check',), f'reply {status} {text}')
            ex.apply(n, ('update', 'v1.10.0', True), f'reply {status} {text}')
    finally:
        ex.close()


def cache(sc, obs):
    """Damaged cache files: checking never fails, updates bring everything."""
    text = CACHES[sc['cache']]
    for first in (UPDATES[1], UPDATES[3], UPDATES[12]):
        ex = Explorer(obs)
        try:
            st = ex.apply(State(), first, 'nothing')
            d = dict(st.disk)
            d['.dlml_cache.json'] = text.encode('latin1')
            st.disk = tuple(sorted(d.items(), key=lambda t: t[0]))
            st.recorded, st.claim, st.checks = True, None, ()
            for op in (('check',), ('import',), ('import', 'down'), ('check', 'down')):
                o, disk = ex.run(st, op)
                obs.check(o.ok, f'cache:{op[0]}:fails', f'{text!r}: {o.error!r}')
                obs.eq(ds.visible(disk), ds.visible(st.disk), f'cache:{op[0]}:changes the library')
                if o.ok and op == ('check',):
                    obs.check(o.result['update_available'] or o.result['error'] or '"v' in text, 'cache:check:nothing reported', f'{text!r}: {o.result}')
            for op in (UPDATES[0], UPDATES[1], UPDATES[11]):
                ex.apply(st, op, f'cache {text!r}')
        finally:
            ex.close()


def versions(sc, obs):
    """Every pair of an installed and a latest version, and results of every age."""
    ex = Explorer(obs)
    try:
        ex.world.tags.update({v: 'c2' for v in VERSIONS})
        ex.world.releases += VERSIONS
        ini = ex.apply(State(), ('update', sc['installed'], True), 'nothing')
        for k, v in enumerate(VERSIONS):
            st = ini.copy()
            st.latest = v
            for op in (('check',), ('import',)):
                n = ex.apply(st, op, f'{sc["installed"]} installed, {v} released')
                n.now += AGES[k % len(AGES)]
                n.latest = VERSIONS[(k + 5) % len(VERSIONS)]
                obs.state(('versions', n.key()))
                ex.apply(n, ('check',), f'{sc["installed"]} installed, {v} released, then {n.latest}')
                ex.apply(n, ('import',), f'{sc["installed"]} installed, {v} released, then {n.latest}')
    finally:
        ex.close()


def run(sc, obs):
    {'tree': tree, 'reply': reply, 'cache': cache, 'versions': versions}[sc['kind']](sc, obs)
