"""Process bootstrap: import artemis from /repo's working tree, with every seam installed before the import.

Seams owned by the simulator in a worker process:
  * OS entropy used by numpy.random.default_rng() without a seed     -> seeded stream
  * numpy / random global generators                                 -> reseeded per run and perturbed between operations
  * time.time/monotonic/perf_counter(+_ns), time.sleep, tqdm's clock -> simulated clock
  * threading.Lock/RLock created by artemis code                     -> cooperative simulated locks
  * source-line execution of artemis code (sys.monitoring)           -> yield / interruption points
  * sys.stderr while an operation runs                               -> simulated stream
  * the model, the metric targets and the data                       -> simulated party (world.py)
"""
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get("ARTSIM_REPO", "/repo")      # development only: scratch copies; the registered checks never set it


def prepare_env():
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
        os.environ[v] = "1"
    if "ARTSIM_MPL" not in os.environ:
        d = tempfile.mkdtemp(prefix="artsim-mpl-")
        src = "/opt/vp/mpl"
        if os.path.isdir(src):
            for f in os.listdir(src):
                if f.endswith(".json"):
                    try:
                        shutil.copy(os.path.join(src, f), d)
                    except OSError:
                        pass
        os.environ["ARTSIM_MPL"] = d
        atexit.register(shutil.rmtree, d, True)
    os.environ["MPLCONFIGDIR"] = os.environ["ARTSIM_MPL"]


_booted = False


def boot():
    """Install seams, import artemis. Returns nothing; idempotent."""
    global _booted
    if _booted:
        return
    prepare_env()
    import warnings
    warnings.simplefilter("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import numpy, pandas  # noqa: F401  (real clocks and locks while the stack itself loads)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import seaborn, networkx, tqdm  # noqa: F401
    import sklearn.ensemble, sklearn.inspection  # noqa: F401
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    from . import core
    core.install_seams()
    import artemis
    if os.path.realpath(os.path.dirname(artemis.__file__)) != os.path.realpath(os.path.join(REPO, "artemis")):
        raise RuntimeError("artemis imported from %s, not from %s" % (artemis.__file__, REPO))
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(artemis.__path__, "artemis."):
        importlib.import_module(m.name)
    warnings.simplefilter("ignore")
    _booted = True
