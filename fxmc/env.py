"""Process set-up shared by all checks: import flixOpt from /repo's working tree, quietly, without writing into /repo."""
import logging
import os
import sys
import tempfile
import atexit
import shutil
import warnings

REPO = os.environ.get('FXMC_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None


def scratch():
    """A private scratch directory, which is also the working directory (importing flixOpt writes a log file there)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='fxmc_')
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def setup():
    sys.dont_write_bytecode = True
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['BROWSER'] = 'true'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.chdir(scratch())
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.filterwarnings('ignore')
    import flixOpt as fx
    src = os.path.realpath(os.path.dirname(fx.__file__))
    assert src == os.path.realpath(os.path.join(REPO, 'flixOpt')), src
    quiet()
    return fx


def quiet():
    lg = logging.getLogger('flixOpt')
    lg.handlers.clear()
    lg.addHandler(logging.NullHandler())
    lg.setLevel(logging.CRITICAL + 1)
    lg.propagate = False
    logging.getLogger('pyomo').setLevel(logging.CRITICAL + 1)
