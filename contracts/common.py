"""Shared by the contract modules."""
import itertools
import json
import math
import os

import numpy as np

HERE = os.path.dirname(__file__)
_cache = {}


class Table(dict):
    __getattr__ = dict.__getitem__


def table(name, skip_header=2):
    """A published coefficient table, pinned under contracts/tables: column name -> float array."""
    k = (name, skip_header)
    if k not in _cache:
        r = np.genfromtxt(os.path.join(HERE, "tables", name), skip_header=skip_header, delimiter=",", names=True, case_sensitive=True)
        _cache[k] = Table({n: np.array(r[n], float) for n in r.dtype.names})
    return _cache[k]


def jtable(name):
    if name not in _cache:
        with open(os.path.join(HERE, "tables", name)) as f:
            _cache[name] = json.load(f)
    return _cache[name]


def product(**opts):
    """All combinations of categorical options, as dicts."""
    keys = list(opts)
    for vals in itertools.product(*opts.values()):
        yield dict(zip(keys, vals))


def tag(d):
    return ",".join("%s=%s" % (k, v) for k, v in d.items()) or "all"


def sc(c):
    """Table -> table of object-free arrays usable in both worlds (plain float arrays combine with symbolic scalars)."""
    return c


def is_set(v):
    return v is not None
