"""Binding to the implementation under test (always /repo's working tree)."""

from __future__ import annotations

import atexit
import datetime
import io
import json
import os
import shutil
import sys
import tempfile
import warnings
from pathlib import Path

REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
SCRATCH: Path | None = None


def setup(*, library: bool = False) -> None:
    """
    Point python at /repo, with a private offline model library.

    With ``library``, a private copy of the package is used whose built-in
    model library is filled with a few models (see dlrun.LIBRARY).
    """
    global SCRATCH
    sys.dont_write_bytecode = True
    for v in ('GITHUB_TOKEN', 'PELICUN_GITHUB_API_URL', 'PELICUN_GITHUB_RAW_URL',
              'DLML_REPO_OWNER', 'DLML_REPO_NAME'):
        os.environ.pop(v, None)
    SCRATCH = Path(tempfile.mkdtemp(prefix='verif-pel-'))
    pid = os.getpid()

    def _clean(path=SCRATCH):
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(_clean)
    _orig = os._exit

    def _exit(code, _o=_orig):
        _clean()
        _o(code)

    os._exit = _exit
    dl = SCRATCH / 'dlml'
    dl.mkdir()
    (dl / 'model_files.txt').write_text('')
    (dl / '.dlml_cache.json').write_text(json.dumps({'last_version_check': datetime.datetime.now().isoformat()}))
    os.environ['DLML_DATA_DIR'] = str(dl)
    root = REPO
    if library:
        from mc import dlrun

        root = dlrun.make_package(SCRATCH)
    sys.path.insert(0, str(root))
    os.chdir(SCRATCH)
    warnings.simplefilter('ignore')
    import pelicun

    assert Path(pelicun.__file__).resolve().parent == (root / 'pelicun').resolve(), pelicun.__file__
    import pelicun.assessment  # noqa: F401

    if library:
        import pelicun.tools.DL_calculation  # noqa: F401

    # pelicun's warnings module re-enables its own category on import
    warnings.simplefilter('ignore')


class quiet:
    """Swallow stdout/stderr of the implementation."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        self.c = warnings.catch_warnings()
        self.c.__enter__()
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *a):
        self.c.__exit__(*a)
        sys.stdout, sys.stderr = self.o, self.e
        return False


def scratch(prefix: str = 'sc') -> Path:
    """Fresh scratch directory (removed by the caller or at exit)."""
    return Path(tempfile.mkdtemp(prefix=prefix, dir=SCRATCH))


def asmt(**opts):
    """Make a real Assessment with a silent log."""
    from pelicun.assessment import Assessment

    cfg = {'PrintLog': False, 'Verbose': False, 'Seed': 1}
    cfg.update(opts)
    return Assessment(cfg)


class Logged:
    """Assessment with a log file; what it reported so far can be read back."""

    def __init__(self, **opts):
        self.dir = scratch('log')
        self.a = asmt(LogFile=str(self.dir / 'log.txt'), **opts)

    def warnings(self) -> str:
        return (self.dir / 'log_warnings.txt').read_text()

    def log(self) -> str:
        return (self.dir / 'log.txt').read_text()

    def reported(self) -> str:
        """Log and warnings, white space removed (messages are wrapped)."""
        return ''.join((self.log() + self.warnings()).split())

    def close(self) -> None:
        shutil.rmtree(self.dir, ignore_errors=True)
