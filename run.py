"""Entry point: run.py <PROPERTY ID>   (environment: VERIF_SEED, VERIF_TIER)

exit 0  property held on everything observed
exit 1  violation (a line VIOLATION property=<id> replay=<path> is printed)
exit 2  inconclusive / harness error
"""
import os
import sys
import tempfile
import shutil

VENV = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists(VENV) and 'VERIF_REEXEC' not in os.environ:
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VENV, [VENV, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')      # registered commands leave this at /repo
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
# never read or write byte code of the code under test: always compile /repo's current text
_pyc = tempfile.mkdtemp(prefix='verif_pyc_')
sys.pycache_prefix = _pyc
os.environ['PYTHONPYCACHEPREFIX'] = _pyc
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def main():
    from vlib import core
    if sys.argv[1] == '--selftest':
        from vlib import selftest
        return selftest.main()
    return core.main(sys.argv[1])


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        shutil.rmtree(_pyc, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
