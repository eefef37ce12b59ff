"""
Loads the code under test from the current working tree of the repository, with every source of
nondeterminism behind a seam: random numbers (mc.rng), the clock (mc.clock), the BLAS thread count,
the working directory, the plotting backend.  Nothing is ever imported from cached bytecode.
"""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None


def scratch():
    """The one scratch directory of this run; removed at exit of the process that made it."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='oneka-mc-')
        pid = os.getpid()
        path = _scratch

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def setup():
    """To be called once, before numpy or the code under test is imported."""
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    d = os.path.join(scratch(), 'mpl')
    os.makedirs(d, exist_ok=True)
    src = '/opt/vp/mplconfig'
    if os.path.isdir(src):
        for n in os.listdir(src):
            if n.startswith('fontlist') and n.endswith('.json'):
                shutil.copy(os.path.join(src, n), d)
    os.environ['MPLCONFIGDIR'] = d
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), 'no-bytecode')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    logging.lastResort = None
    logging.getLogger('Oneka').addHandler(logging.NullHandler())
    import numpy as np
    np.seterr(all='ignore')
    from mc import rng, clock
    rng.install()
    clock.install()
    os.chdir(scratch())


class LogTap(logging.Handler):
    """Collects the records that reach the run's log, i.e. the logger named 'Oneka' (runme attaches its file there)."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def lines(self, level=logging.INFO):
        return [r.getMessage() for r in self.records if r.levelno >= level]

    def __enter__(self):
        lg = logging.getLogger('Oneka')
        self._old = lg.level
        lg.setLevel(logging.INFO)
        lg.addHandler(self)
        return self

    def __exit__(self, *a):
        lg = logging.getLogger('Oneka')
        lg.removeHandler(self)
        lg.setLevel(self._old)
        return False
