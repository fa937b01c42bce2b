"""
Closed environment for the model library downloads.

* a simulated GitHub server (commit graph, tags, releases, comparison, raw
  files) that answers below ``requests`` (transport adapter), so every way of
  using ``requests`` reaches it;
* interception of every file system change inside the library directory;
* both count *steps*; at any chosen step the process can be stopped (crash:
  nothing after that point reaches the disk, not even clean-up code) or the
  step can fail (network fault, OSError);
* a controlled clock.
"""

from __future__ import annotations

import builtins
import contextlib
import datetime as _dt
import difflib
import hashlib
import importlib
import io
import json
import logging
import os
import re
import shutil
import sys
import tempfile
import warnings
from pathlib import Path
from urllib.parse import unquote, urlsplit

import requests

from mc import pel

OWNER, NAME = 'NHERI-SimCenter', 'DamageAndLossModelLibrary'
T0 = _dt.datetime(2026, 3, 1, 12, 0, 0)


class Crash(BaseException):
    """The process ends here."""


def sha(name: str) -> str:
    return hashlib.sha1(name.encode()).hexdigest()


# -- the repository -------------------------------------------------------


def _files(**kw) -> dict:
    names = {'a': 'a.csv', 'b': 'damage/FEMA P-58/b.json', 's': 'odd/fi#le 1%20.csv', 'o': 'old.csv',
             'n': 'damage/new.csv', 'z': 'b.csv'}
    files = {names[k]: v for k, v in kw.items() if k in names}
    head = kw.get('head', '# models')
    listing = [head, '', *[f for f in files]]
    if kw.get('tail', True):
        listing.append('')
    files = {k: v.encode() for k, v in files.items()}
    files['model_files.txt'] = '\n'.join(listing).encode()
    files['README.md'] = b'not a model file'
    return files


BIG = {f'big/{i:03d}.csv': f'B{i}'.encode() for i in range(302)}


class World:
    """Commits, tags and releases."""

    def __init__(self, big: bool = False):
        L = 'x' * 9000  # more than one chunk
        self.parent = {'c1': None, 'c2': 'c1', 'c3': 'c2', 'cx': 'c1', 'c4': 'c3'}
        self.tree = {
            'c1': _files(a='A1' + L, b='{"b": 1}', s='S1', o='O1'),
            'c2': _files(a='A2' + L, b='{"b": 1}', s='S1', n='O1', z='Z1', head='# models 2'),
            'c3': _files(a='A1' + L, b='{"b": 3}', s='S3', n='N3', z='Z1', tail=False),
            'cx': _files(a='AX', b='{"b": 1}', s='S1', o='OX'),
            'c4': _files(a='A4', b='{"b": 3}', s='S3', n='N3', o='O4'),
        }
        if big:
            for k in self.tree:
                t = self.tree[k]
                names = sorted(BIG)
                t['model_files.txt'] += b'\n' + '\n'.join(names).encode()
                for f in names:
                    t[f] = BIG[f] + (b'' if k == 'c1' else b' new')
        self.tags = {'v1.0.0': 'c1', 'v1.9.0': 'c2', 'v1.10.0': 'c3', 'v1.9.1': 'cx', 'stable': 'c2'}
        self.annotated = {'v1.9.0', 'v1.9.1'}
        self.releases = ['v1.0.0', 'v1.9.0', 'v1.10.0', 'v1.9.1', 'stable']
        self.latest = 'v1.9.0'
        self.head = 'c4'
        self.commits = {sha(c): c for c in self.tree}

    def ancestors(self, c):
        out = []
        while c:
            out.append(c)
            c = self.parent[c]
        return out

    def resolve(self, ref):
        """Commit for a full or abbreviated sha, tag or branch."""
        if ref in self.tags:
            return self.tags[ref]
        if ref == 'main':
            return self.head
        m = [c for s, c in self.commits.items() if s.startswith(ref.lower())]
        return m[0] if len(m) == 1 and len(ref) >= 7 else None

    def listing(self, c):
        return [ln.strip() for ln in self.tree[c]['model_files.txt'].decode().split('\n')
                if ln.strip() and not ln.startswith('#')]

    def library(self, c) -> dict:
        """What an installation of commit c consists of."""
        return {f: self.tree[c][f] for f in ['model_files.txt', *self.listing(c)]}

    def compare(self, base, head):
        ab, ah = self.ancestors(base), self.ancestors(head)
        mb = next(c for c in ah if c in ab)
        status = ('identical' if base == head else 'ahead' if mb == base else 'behind' if mb == head else 'diverged')
        old, new = self.tree[mb], self.tree[head]
        files, gone = [], [f for f in old if f not in new]
        for f in sorted(set(old) | set(new)):
            if f in old and f in new:
                if old[f] != new[f]:
                    files.append({'filename': f, 'status': 'modified'})
            elif f in new:
                src = [g for g in gone if old[g] == new[f]]
                if src:
                    files.append({'filename': f, 'status': 'renamed', 'previous_filename': src[0]})
                    gone.remove(src[0])
                else:
                    files.append({'filename': f, 'status': 'added'})
        files += [{'filename': f, 'status': 'removed'} for f in gone]
        files.sort(key=lambda d: d['filename'])
        return {'status': status, 'files': files[:300]}


class Body:
    """Raw body of a response; reading it are steps."""

    def __init__(self, env, data: bytes, cut=False):
        self.env, self.data, self.pos, self.cut = env, data, 0, cut

    def read(self, n=-1, **kw):
        if self.cut and self.pos >= len(self.data) // 2:
            raise requests.exceptions.ChunkedEncodingError('connection broken')
        if n is None or n < 0:
            n = len(self.data)
        out = self.data[self.pos:self.pos + n]
        if self.cut:
            out = out[:max(1, len(self.data) // 2 - self.pos)]
        self.pos += len(out)
        if out:
            self.env.point('net-read', None, faults=('reset',))
        return out

    def close(self):
        pass

    def release_conn(self):
        pass


NET_FAULTS = ('connect', 'timeout', '500', '403', '404', 'html', 'cut')
FS_FAULTS = ('oserror',)


class Env:
    """Server, file system interception, clock and fault injection."""

    def __init__(self, world: World, root: Path, *, token=None):
        self.world, self.root, self.token = world, root, token
        self.now = T0
        self.down = False           # no network at all
        self.readonly = False       # library directory cannot be written
        self.api, self.raw, self.repo = 'api.github.com', 'raw.githubusercontent.com', (OWNER, NAME)
        self.reply = None           # override: path fragment -> response
        self.steps = []             # (kind, detail, faults)
        self.plan = None            # (index, what)
        self.api_out = False        # API unavailable from here on
        self.fired = None
        self.dead = False
        self.requests = 0
        self._stack = None

    # -- steps ------------------------------------------------------------
    def point(self, kind, detail, faults=()):
        """A step; returns the fault to apply here, if any."""
        if self.dead:
            raise Crash
        i = len(self.steps)
        self.steps.append((kind, detail, ('crash', *faults)))
        if self.plan and self.plan[0] == i:
            what = self.plan[1]
            self.fired = (kind, detail, what)
            if what == 'crash':
                self.dead = True
                raise Crash
            if what == 'oserror':
                raise OSError(28, 'No space left on device', str(detail))
            if what == 'reset':
                raise requests.exceptions.ConnectionError('connection reset')
            return what
        if self.readonly and 'oserror' in faults:
            raise OSError(30, 'Read-only file system', str(detail))
        return None

    # -- server -----------------------------------------------------------
    def send(self, adapter, request, stream=False, timeout=None, **kw):
        url = request.url
        what = self.point('net', url, faults=NET_FAULTS)
        self.requests += 1
        if self.down or what == 'connect':
            raise requests.exceptions.ConnectionError(f'no route: {url}', request=request)
        if what == 'timeout':
            raise requests.exceptions.ReadTimeout('timed out', request=request)
        status, data = self.answer(request)
        if what == 'api-out':
            self.api_out = True
        if self.api_out and urlsplit(url).netloc == self.api:
            what = '403'
        if what in ('500', '403', '404'):
            status, data = int(what), json.dumps({'message': 'error'}).encode()
        elif what == 'html':
            if urlsplit(url).netloc == self.raw:
                status = 502
            data = b'<html>busy</html>'
        r = requests.Response()
        r.status_code = status
        r.url = url
        r.request = request
        r.reason = 'reason'
        r.headers['Content-Type'] = 'application/octet-stream'
        r.raw = Body(self, data, cut=what == 'cut')
        r.connection = adapter
        return r

    def answer(self, request):
        u = urlsplit(request.url)
        path = unquote(u.path)
        if self.reply is not None:
            for frag, out in self.reply.items():
                if frag in path:
                    return out
        w = self.world
        if u.netloc == self.raw:
            _, o, n, ref, f = path.split('/', 4)
            if (o, n) != self.repo:
                return 404, b'404: Not Found'
            c = w.resolve(ref)
            if c is None or f not in w.tree[c]:
                return 404, b'404: Not Found'
            return 200, w.tree[c][f]
        if u.netloc != self.api:
            return 404, b'no such host'
        if self.token is not None and request.headers.get('Authorization') not in (
                f'Bearer {self.token}', f'token {self.token}'):
            return 403, b'{"message": "API rate limit exceeded"}'
        pre = f'/repos/{self.repo[0]}/{self.repo[1]}'
        if not path.startswith(pre):
            return 404, b'{"message": "Not Found"}'
        path = path[len(pre):]

        def rel(t):
            return {'tag_name': t, 'name': t, 'target_commitish': 'main', 'prerelease': False}

        out = None
        if path == '/releases/latest':
            out = rel(w.latest)
        elif path.startswith('/releases/tags/'):
            t = path[15:]
            out = rel(t) if t in w.releases else None
        elif path.startswith(('/git/refs/tags/', '/git/ref/tags/')):
            t = path.split('/tags/', 1)[1]
            if t in w.tags:
                c = sha(w.tags[t])
                out = {'ref': f'refs/tags/{t}',
                       'object': {'type': 'tag', 'sha': sha('tag' + t)} if t in w.annotated else {'type': 'commit', 'sha': c}}
        elif path.startswith('/git/tags/'):
            s = path[10:]
            for t in w.annotated:
                if sha('tag' + t) == s:
                    out = {'tag': t, 'sha': s, 'object': {'type': 'commit', 'sha': sha(w.tags[t])}}
        elif path.startswith('/commits'):
            rest = path[8:].strip('/')
            if not rest:
                out = [{'sha': sha(c)} for c in w.ancestors(w.head)]
            else:
                c = w.resolve(rest)
                out = {'sha': sha(c)} if c else None
        elif path.startswith('/compare/'):
            b, h = path[9:].split('...')
            b, h = w.resolve(b), w.resolve(h)
            out = w.compare(b, h) if b and h else None
        elif path == '/tags':
            out = [{'name': t, 'commit': {'sha': sha(c)}} for t, c in w.tags.items()]
        elif path == '/releases':
            out = [rel(t) for t in w.releases]
        if out is None:
            return 404, b'{"message": "Not Found"}'
        return 200, json.dumps(out).encode()

    # -- file system --------------------------------------------------------
    def inside(self, p, dir_fd=None):
        if isinstance(p, int):
            return False
        if dir_fd is not None:
            with contextlib.suppress(OSError):
                p = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), os.fspath(p))
        p = os.path.abspath(os.fspath(p))
        return p == str(self.root) or p.startswith(str(self.root) + os.sep)

    def __enter__(self):
        env = self
        st = self._stack = contextlib.ExitStack()

        def patch(obj, name, make):
            orig = getattr(obj, name)
            setattr(obj, name, make(orig))
            st.callback(setattr, obj, name, orig)

        patch(requests.adapters.HTTPAdapter, 'send',
              lambda o: lambda ad, request, **kw: env.send(ad, request, **kw))

        def mk_open(orig):
            def _open(file, mode='r', *a, **kw):
                if isinstance(file, int) or not env.inside(file) or not set(mode) & set('wax+'):
                    if isinstance(file, (str, bytes, os.PathLike)) and env.inside(file) and env.dead:
                        raise Crash
                    return orig(file, mode, *a, **kw)
                env.point('open', file, faults=FS_FAULTS)
                return Writer(env, orig(file, mode, *a, **kw), file)
            return _open

        patch(io, 'open', mk_open)
        patch(builtins, 'open', mk_open)

        def mk(kind):
            def make(orig):
                def f(p, *a, **kw):
                    if env.inside(p, kw.get('dir_fd')) or any(
                            isinstance(x, (str, os.PathLike)) and env.inside(x) for x in a):
                        env.point(kind, p, faults=FS_FAULTS)
                    return orig(p, *a, **kw)
                return f
            return make

        for name in ('replace', 'rename', 'unlink', 'remove', 'mkdir', 'rmdir', 'truncate', 'link', 'symlink'):
            patch(os, name, mk(name))

        def mk_osopen(orig):
            def _open(p, flags, *a, **kw):
                if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and env.inside(p, kw.get('dir_fd')):
                    env.point('os.open', p, faults=FS_FAULTS)
                return orig(p, flags, *a, **kw)
            return _open

        patch(os, 'open', mk_osopen)
        return self

    def __exit__(self, *a):
        self._stack.close()
        return False


class Writer:
    """Buffers what is written; it reaches the disk at flush (half, then all)."""

    def __init__(self, env, f, path):
        self.env, self.f, self.path, self.buf = env, f, path, []

    def write(self, data):
        self.buf.append(data)
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if not self.buf:
            return
        data = (b'' if isinstance(self.buf[0], (bytes, bytearray)) else '').join(self.buf)
        self.buf = []
        try:
            self.env.point('write', self.path, faults=FS_FAULTS)
            self.f.write(data[:len(data) // 2])
            self.f.flush()
            self.env.point('write-half', self.path, faults=FS_FAULTS)
            self.f.write(data[len(data) // 2:])
            self.f.flush()
        except BaseException:
            self.f.close()
            raise

    def close(self):
        if not self.f.closed:
            if not self.env.dead:
                self.flush()
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, name):
        return getattr(self.f, name)


# -- running the implementation --------------------------------------------


class Outcome:
    """How an operation ended."""

    def __init__(self):
        self.error = None       # exception raised
        self.crashed = False
        self.result = None
        self.warnings = []
        self.out = ''
        self.steps = []
        self.fired = None
        self.requests = 0
        self.api_out = False

    @property
    def ok(self):
        return self.error is None and not self.crashed


def fresh(env):
    """The module as a new process has it."""
    import pelicun.tools.dlml as mod

    mod = importlib.reload(mod)

    class Clock(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            t = cls(*env.now.timetuple()[:6])
            return t.astimezone(tz) if tz else t

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()

    cur = getattr(mod, 'datetime', None)
    if isinstance(cur, type):
        mod.datetime = Clock
    elif cur is not None:
        import types

        shim = types.SimpleNamespace(**{k: getattr(_dt, k) for k in dir(_dt) if not k.startswith('__')})
        shim.datetime = Clock
        mod.datetime = shim
    lg = logging.getLogger('pelicun.dlml')
    lg.handlers.clear()
    return mod


def execute(env: Env, op, plan=None) -> Outcome:
    """
    One process: an operation of the command line or an import.

    op: ('update', target, cache) | ('import',) | ('check',)
    """
    o = Outcome()
    env.steps, env.plan, env.fired, env.dead, env.requests, env.api_out = [], plan, None, False, 0, False
    os.environ['DLML_DATA_DIR'] = str(env.root)
    os.environ['TQDM_DISABLE'] = '1'
    mod = fresh(env)
    argv, out, err = sys.argv, sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings(record=True) as caught, env:
            warnings.simplefilter('always')
            try:
                if op[0] == 'update':
                    sys.argv = ['pelicun', 'dlml', 'update', *([] if op[2] else ['--no-cache']),
                                *([] if op[1] is None else [op[1]])]
                    import pelicun.cli as cli

                    cli.dlml_update = mod.dlml_update
                    cli.main()
                elif op[0] == 'import':
                    sys.argv = ['python']
                    mod.check_dlml_data()
                elif op[0] == 'check':
                    sys.argv = ['python']
                    o.result = mod.check_dlml_version()
            except Crash:
                o.crashed = True
            except (Exception, SystemExit) as e:
                o.error = e
            if env.dead:
                o.crashed = True
        o.warnings = [str(w.message) for w in caught]
        o.out = sys.stdout.getvalue() + sys.stderr.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr = argv, out, err
        logging.getLogger('pelicun.dlml').handlers.clear()
    o.steps, o.fired, o.requests, o.api_out = env.steps, env.fired, env.requests, env.api_out
    return o


def scratch() -> Path:
    """Scratch directory, in memory if possible (removed by the caller)."""
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK | os.X_OK) else pel.SCRATCH
    return Path(tempfile.mkdtemp(prefix='verif-dl-', dir=base))


# -- disk states -----------------------------------------------------------
STAMP = re.compile(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(?:\.\d+)?')
PID = re.compile(r'\d{2,}$')


ABSENT = (('<absent>', None),)


def snapshot(root: Path) -> tuple:
    """Content of the library directory (directories have None)."""
    out = {}
    if not root.exists():
        return ABSENT
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return tuple(sorted(out.items(), key=lambda t: t[0]))


def restore(root: Path, snap: tuple) -> None:
    shutil.rmtree(root, ignore_errors=True)
    if snap == ABSENT:
        return
    root.mkdir(parents=True)
    for name, data in snap:
        if data is None:
            (root / name).mkdir(parents=True, exist_ok=True)
    for name, data in snap:
        if data is not None:
            (root / name).parent.mkdir(parents=True, exist_ok=True)
            (root / name).write_bytes(data)


def relative(snap: tuple, now, tail=2) -> tuple:
    """Time stamps relative to now (days, at most ``tail``); hidden scratch directories dropped."""

    def rep(m):
        t = _dt.datetime.fromisoformat(m.group().decode())
        age = (now - t).total_seconds() / 3600
        return b'<%+.1fh>' % max(min(age, 24.0 * tail), -24.0 * tail)

    return tuple((k, None if v is None else STAMP.sub(rep, v)) for k, v in snap)


def visible(snap: tuple) -> dict:
    """Files of the library that are not hidden."""
    return {k: v for k, v in snap if v is not None and k != '.' and not any(p.startswith('.') for p in k.split(os.sep))}
