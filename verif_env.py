"""Process environment: where the code under test lives and how it is imported.

* the code under test is imported from REPO (default /repo), never from a copy;
* nothing is written inside /repo: no byte code, and the working directory is a
  throw-away scratch directory (the code under test creates log files and text
  dumps in its working directory);
* hypothesis comes from the pre-installed python3-vt tree, appended at the END of
  sys.path so that the repository's own numpy/scipy win.
"""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYVENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_OWN_PID = os.getpid()


def setup(stubs: bool = False):
    sys.dont_write_bytecode = True
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["LOGLEVEL"] = "CRITICAL"
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(var, "2")
    scratch = tempfile.mkdtemp(prefix="verif_scratch_")
    os.environ.setdefault("MPLCONFIGDIR", scratch)
    os.chdir(scratch)

    def _clean():
        if os.getpid() == _OWN_PID:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)

    atexit.register(_clean)
    paths = []
    if stubs:
        paths.append(os.path.join(VERIF, "stubs"))
    paths += [
        os.path.join(REPO, "core"),
        os.path.join(REPO, "inference_engine"),
        os.path.join(REPO, "quantizer"),
        os.path.join(REPO, "model_converters", "keras2json"),
        os.path.join(REPO, "model_converters", "tflite2json"),
    ]
    for p in reversed(paths):
        sys.path.insert(0, p)
    if PYVENV_SITE not in sys.path:
        sys.path.append(PYVENV_SITE)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    return scratch
