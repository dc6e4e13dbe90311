"""Isolation of the code under test: scratch data directory, no network, no browser."""

from __future__ import annotations

import logging
import os
import pathlib
import shutil
import tempfile
import warnings

_dirs: list[str] = []
REGISTRY: dict[str, str] = {}
REAL_LOAD = None


def prepare():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import pooch

    global REAL_LOAD
    REAL_LOAD = pooch.Pooch.load_registry_from_doi
    # the remote registry cannot be reached here: an empty one stands in for it
    pooch.Pooch.load_registry_from_doi = lambda self: self.registry.update(REGISTRY)


def finish():
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)


def set_data(path):
    os.environ["XDG_DATA_HOME"] = str(path)
    return pathlib.Path(path)


_current = None


def fresh_data():
    """Give the code an empty user data directory (the previous one is dropped)."""
    global _current
    if _current is not None:
        shutil.rmtree(_current, ignore_errors=True)
    base = os.environ["VP_SCRATCH"]
    _current = tempfile.mkdtemp(prefix="data-", dir=base)
    _dirs.append(_current)
    return set_data(_current)


class environ:
    """Temporarily set (or with None remove) environment variables."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.kw}
        for k, v in self.kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = str(v)

    def __exit__(self, *exc):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


class patched:
    """Temporarily replace an attribute."""

    def __init__(self, obj, name, value):
        self.obj, self.name, self.value = obj, name, value

    def __enter__(self):
        self.old = getattr(self.obj, self.name)
        setattr(self.obj, self.name, self.value)
        return self.value

    def __exit__(self, *exc):
        setattr(self.obj, self.name, self.old)
