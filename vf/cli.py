"""Runs the package's command-line scripts in this process."""
import contextlib, io, os, runpy, sys
from . import env


def run(name, argv, stdin=None):
    """(exit status, standard output) of bin/name; exceptions other than SystemExit propagate"""
    old, out, rc = sys.argv, io.StringIO(), 0
    sys.argv = [name] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(env.REPO, "bin", name), run_name="__main__")
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.argv = old
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return rc, out.getvalue()
