"""Imports the code under test from /repo's working tree, and the tools."""
import os
import sys
import tempfile
import atexit
import shutil
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    # last on the path: numpy, scipy and matplotlib stay those of /opt/venv
    sys.path.append(TOOLS)

SCRATCH = tempfile.mkdtemp(prefix='verif_pbt_')
_PID = os.getpid()


def _cleanup():
    if os.getpid() == _PID:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.environ['MPLCONFIGDIR'] = SCRATCH
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(SCRATCH, 'hyp')

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import allantools as at  # noqa: E402

_here = os.path.realpath(at.__file__)
if not _here.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit('harness error: allantools imported from %s' % _here)
AT_DIR = os.path.dirname(_here)
