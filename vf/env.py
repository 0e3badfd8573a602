"""Process environment shared by the runner, the workers and the replays."""
import os, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")        # /repo unless a developer points it at a scratch copy
PYTHON = "/opt/venv/bin/python"
# Hypothesis is not part of /repo's own environment; it comes from the tooling venv and
# is appended *after* it so that numpy, scipy, astropy are always those /repo runs with.
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def child_env(scratch):
    env = dict(os.environ)
    for k in ("DESIMETER_DATA", "PYTHONPATH", "DESIMETER_LOGLEVEL", "DESI_LOGLEVEL"):
        env.pop(k, None)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               XDG_CACHE_HOME=os.path.join(scratch, "cache"),
               XDG_CONFIG_HOME=os.path.join(scratch, "config"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               HYPOTHESIS_NO_PLUGINS="1", TZ="UTC", VF_REPO=REPO, TMPDIR=scratch,
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
    for d in ("mpl", "cache", "config", "cache/astropy", "config/astropy"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


def setup_path():
    for p in (ROOT, os.path.join(REPO, "py")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if HYP_SITE not in sys.path:
        sys.path.append(HYP_SITE)
