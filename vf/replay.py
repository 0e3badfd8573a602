"""python3 vf/replay.py FILE : run one saved failure, without Hypothesis' search."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import env as vfenv


def inner(path):
    import logging, warnings
    vfenv.setup_path()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    from vf import core
    r = json.load(open(path))
    msg = core.execute(core.find_sub(r["property"], r["sub"]), r["case"])
    if msg is None:
        print("replay: the property holds on this case")
        return 0
    print("replay: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


if __name__ == "__main__":
    path = os.path.abspath(sys.argv[1])
    if os.environ.get("VF_INNER"):
        sys.exit(inner(path))
    scratch = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        e = vfenv.child_env(scratch)
        rc = subprocess.call([vfenv.PYTHON, os.path.abspath(__file__), path], env=dict(e, VF_INNER="1"), cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
