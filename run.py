#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE]: decide one property."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
# own the environment before numpy is imported
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, HERE)
from mc.core import main  # noqa: E402

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
