"""Environment of every check: pure-Python Aesara on /repo's working tree.

Import this module before aesara/aemcmc.  Nothing is written in /repo, /opt/vp
or the user's Aesara cache: the compile directory is a scratch directory that
is removed when the process ends.
"""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("AEMCMC_REPO", "/repo")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

_scratch = os.environ.get("MC_SCRATCH")
_own = False
if not _scratch or not os.path.isdir(_scratch):
    _scratch = tempfile.mkdtemp(prefix="mc-aemcmc-")
    os.environ["MC_SCRATCH"] = _scratch
    _own = True
SCRATCH = _scratch
_pid = os.getpid()


def _cleanup():
    if _own and os.getpid() == _pid:
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)

os.environ["AESARA_FLAGS"] = ",".join(
    [
        "cxx=",
        "blas__ldflags=",
        "floatX=float64",
        "mode=FAST_COMPILE",
        "on_opt_error=warn",
        "warn__ignore_bug_before=all",
        f"compiledir={_scratch}/compiledir",
    ]
)
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
logging.getLogger("aesara").setLevel(logging.CRITICAL)
warnings.filterwarnings("ignore")

import aesara  # noqa: E402,F401
import numpy as np  # noqa: E402

np.seterr(all="ignore")
logging.getLogger("aesara").setLevel(logging.CRITICAL)
for _n in ("aesara.tensor.blas", "aesara.configdefaults", "aesara.link.c.cmodule"):
    logging.getLogger(_n).setLevel(logging.CRITICAL)
