"""A fresh copy of the package, as in a new program: module-level caches are empty."""
import contextlib, importlib, logging, os, sys


def purge():
    for m in [m for m in sys.modules if m == "desimeter" or m.startswith("desimeter.")]:
        del sys.modules[m]


class Package:
    """with Package(data_dir) as imp: mod = imp('desimeter.transform.ptl2fp')

    Saves the modules loaded before and puts them back afterwards."""
    def __init__(self, data_dir=None):
        self.data_dir = data_dir

    def __enter__(self):
        self.saved = {m: sys.modules[m] for m in list(sys.modules) if m == "desimeter" or m.startswith("desimeter.")}
        self.env = os.environ.get("DESIMETER_DATA")
        purge()
        if self.data_dir is not None:
            os.environ["DESIMETER_DATA"] = str(self.data_dir)
        return importlib.import_module

    def __exit__(self, *a):
        purge()
        sys.modules.update(self.saved)
        if self.env is None:
            os.environ.pop("DESIMETER_DATA", None)
        else:
            os.environ["DESIMETER_DATA"] = self.env
        return False


@contextlib.contextmanager
def loggers():
    """a fresh package without log handlers; those made meanwhile are closed afterwards"""
    mine = lambda: [l for n, l in list(logging.Logger.manager.loggerDict.items()) if n.startswith("desimeter") and isinstance(l, logging.Logger)]
    saved = {l: list(l.handlers) for l in mine()}
    for l in saved:
        l.handlers[:] = []
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        with Package():
            yield
    finally:
        logging.disable(off)
        for l in mine():
            for h in list(l.handlers):
                if h not in saved.get(l, []):
                    l.removeHandler(h)
                    h.close()
            l.handlers[:] = saved.get(l, [])
