"""Process bootstrap: environment, Hypothesis import path, and petrofit import.

* petrofit is always imported from the working tree of the repository under
  test (/repo) and always compiled from source (stale ``__pycache__`` files are
  never read and none are written).
* Hypothesis is not installed in the repository's own interpreter; it is picked
  up from the offline tool environment (same CPython version).
"""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
TOOL_PACKAGES = {
    "hypothesis",
    "_hypothesis_globals",
    "_hypothesis_ftz_detector",
    "sortedcontainers",
    "attr",
    "attrs",
}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The machinery itself cannot run (never reported as a violation)."""


class _ToolFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is None and name in TOOL_PACKAGES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Source loader which neither reads nor writes bytecode caches."""

    def path_stats(self, path):
        raise OSError("bytecode caches are not used")

    def set_data(self, path, data, *, _mode=0o666):
        return None


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "petrofit" or name.startswith("petrofit."):
            where = [REPO] if path is None else list(path)
            for entry in where:
                finder = importlib.machinery.FileFinder(
                    entry, (_FreshLoader, importlib.machinery.SOURCE_SUFFIXES)
                )
                spec = finder.find_spec(name)
                if spec is not None:
                    return spec
        return None


def child_env():
    env = dict(os.environ)
    env.update(
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
    )
    env.pop("PYTHONPATH", None)
    return env


_booted = False


def boot():
    """Prepare this process and return the petrofit package under test."""
    global _booted
    if not _booted:
        os.environ.setdefault("MPLBACKEND", "Agg")
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, _ToolFinder())
        sys.meta_path.insert(0, _RepoFinder())
        import warnings

        warnings.simplefilter("ignore")
        import numpy as np

        np.seterr(all="ignore")
        import matplotlib

        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt

        plt.rcParams["figure.max_open_warning"] = 0
        _booted = True
    import petrofit

    where = os.path.realpath(petrofit.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("petrofit imported from %s, not %s" % (where, REPO))
    return petrofit
