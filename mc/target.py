"""Import momlevel from /repo/src, always compiled from the source that is there now.

No cached byte code is consulted (a stale .pyc must never hide a change), and none is
written.
"""

import importlib.abc
import importlib.machinery
import os
import sys
import warnings

SRC = os.environ.get("MOMLEVEL_SRC", "/repo/src")


class _Loader(importlib.machinery.SourceFileLoader):
    def path_stats(self, path):  # no stats -> get_code() skips the cache
        raise OSError

    def set_data(self, *a, **k):
        pass


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "momlevel" and not name.startswith("momlevel."):
            return None
        search = [SRC] if path is None else path
        spec = importlib.machinery.PathFinder.find_spec(name, search, target)
        if spec is not None and isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def load():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.meta_path.insert(0, _Finder())
    import numpy  # noqa: F401
    import dask
    from mc import standin

    standin.numba()
    import momlevel

    dask.config.set(scheduler="synchronous")
    assert momlevel.__file__.startswith(SRC + "/"), momlevel.__file__
    return momlevel
