"""Own reading of the shipped instrument tables."""
import os
from . import env

_c = {}


def path(name):
    return os.path.join(env.REPO, "py/desimeter/data", name)


def metrology():
    if "m" not in _c:
        from astropy.table import Table
        _c["m"] = Table.read(path("fp-metrology.csv"))
    return _c["m"]


def metro_np():
    """plain arrays"""
    if "n" not in _c:
        import numpy as np
        m = metrology()
        _c["n"] = {k: np.array(m[k]) for k in m.colnames}
    return _c["n"]


def petals():
    if "p" not in _c:
        import yaml
        _c["p"] = yaml.safe_load(open(path("petal-alignments.yaml")))
    return _c["p"]
