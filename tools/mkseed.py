#!/opt/venv/bin/python
"""
mkseed.py SPEC.py [--keep]: confirm a planted bug and store it in seeded/.

SPEC defines ID, PROPERTY, EDITS = [(file, old, new), ...], DEMO (python text),
NEEDS, BREAKS.  The edit is applied to the working tree of /repo (or SEED_REPO), the stable tests,
the demonstration and the quick check are run, and the tree is restored.
"""
import json, os, runpy, shutil, subprocess, sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
R = Path(os.environ.get('SEED_REPO', '/repo'))
os.environ['VERIF_REPO'] = str(R)
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'dirty repo'
    d = V / 'seeded' / s['ID']
    d.mkdir(parents=True, exist_ok=True)
    shutil.copy(V / 'tools' / 'pre.py', d / 'pre.py')
    (d / 'demo.py').write_text('from pre import *\n\n' + s['DEMO'].strip() + '\nprint("ok")\n')
    (d / 'demo.sh').write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / 'meta.json').write_text(json.dumps({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, indent=1) + '\n')
    a = sh(f'bash {d}/demo.sh', cwd=R)
    print('demo clean:', a.returncode, (a.stdout + a.stderr)[-900:] if a.returncode else '')
    res = {}
    try:
        for f, old, new in s['EDITS']:
            t = (R / f).open(newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            assert t.count(old) == 1, (f, t.count(old), old)
            (R / f).open('w', newline='').write(t.replace(old, new).replace('\n', '\r\n' if crlf else '\n'))
        (d / 'patch.diff').write_bytes(subprocess.run(['git', '-C', str(R), 'diff'], capture_output=True).stdout)
        # the changed lines must be lines of the original repository
        base = sh(f'git -C {R} rev-list --max-parents=0 HEAD').stdout.strip()
        for line in (d / 'patch.diff').read_text().splitlines():
            if line.startswith('-') and not line.startswith('---'):
                f = s['EDITS'][0][0]
                if line[1:].strip() and line[1:] not in sh(f'git -C {R} show {base}:{f}').stdout:
                    print('   NOT ORIGINAL:', line)
        b = sh(f'bash {d}/demo.sh', cwd=R)
        print('demo patched:', b.returncode, (b.stdout + b.stderr)[-300:])
        t = sh(f'DLML_DATA_DIR=/opt/vp/dlml-empty PYTHONPATH={R} {PY} -m pytest -q -n 4 -p no:cacheprovider pelicun/tests 2>&1', cwd=R)
        print('tests:', t.stdout.strip().splitlines()[-1])
        for c in [s['PROPERTY'], *sys.argv[2:]]:
            k = sh(f'{PY} run.py {c} --tier quick', cwd=V)
            print(f'check {c}: rc={k.returncode}', [x for x in k.stdout.splitlines() if ' x ' in x or x.startswith(c)][:6], k.stderr[-300:])
    finally:
        sh(f'git -C {R} checkout -- .')
    res['ok'] = a.returncode == 0 and b.returncode != 0


main(sys.argv[1])
