"""Process start-up: environment, imports, seams, then skmine from /repo's current working tree."""
import os
import sys
import warnings

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = {"PYTHONHASHSEED": os.environ.get("VSIM_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
       "TZ": "UTC", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "VSIM_BOOTED": "1"}


def ensure_env():
    if os.environ.get("VSIM_BOOTED") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.pop("PYTHONPATH", None)
        env.pop("SCIKIT_MINE_DATA", None)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, "-m", "sim.main"] + sys.argv[1:], env)


def load():
    warnings.simplefilter("ignore")
    import tempfile
    import cloudpickle, joblib, networkx, numpy, pandas, scipy.stats, sklearn.base, sklearn.utils.validation  # noqa
    import sortedcontainers, pyroaring, wget, gzip, json, urllib.request, pickle, copy  # noqa
    import pandas.io.parsers, pandas.testing, sklearn.multiclass, sklearn.pipeline  # noqa
    from networkx.algorithms import isomorphism  # noqa
    from . import seams, simjob  # noqa
    seams.install()
    # never trust a cached .pyc of the code under test
    sys.dont_write_bytecode = True
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vsim-no-pycache-%d" % os.getpid())
    sys.path.insert(0, REPO)
    import skmine
    import skmine.base, skmine.callbacks, skmine.utils  # noqa
    import skmine.itemsets, skmine.itemsets.lcm, skmine.itemsets.slim, skmine.itemsets.slim_classifier  # noqa
    import skmine.emerging, skmine.preprocessing, skmine.periodic, skmine.feature_extraction  # noqa
    import skmine.graph.graphmdl.graph_mdl, skmine.datasets, skmine.datasets.fimi, skmine.datasets.periodic  # noqa
    sys.pycache_prefix = old
    assert os.path.realpath(skmine.__file__).startswith(os.path.realpath(REPO) + os.sep), skmine.__file__
    warnings.simplefilter("ignore")
