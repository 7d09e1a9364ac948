#!/opt/venv/bin/python
"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay FILE] [--seed N]

Runs the real pygfunction of /repo's working tree under generated workloads
with monitors attached; see DESIGN.md.
"""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')

if __name__ == '__main__':
    tmp = tempfile.mkdtemp(prefix='vp-')
    os.environ['MPLCONFIGDIR'] = tmp
    os.environ['VP_TMP'] = tmp
    # never trust byte code left beside the sources (matched by mtime/size only)
    sys.pycache_prefix = os.path.join(tmp, 'pyc')
    sys.path[:0] = [REPO, HERE]
    from vp import core
    try:
        rc = core.main(sys.argv[1:], REPO, HERE)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)
