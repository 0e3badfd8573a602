"""Property-based checking core.

A check module (checks/cNN.py) registers *sub-checks*.  A sub-check is a
Hypothesis strategy that builds one JSON-able `case` and a plain function
`run(case, ctx)` that raises `Violation` (or lets the code under test raise)
when the property is broken on that case.  Because a case is plain JSON, the
shrunk failure is written as a replay file that runs without Hypothesis.
"""
import hashlib, json, math, os, random, signal, sys, time, traceback
from . import env as vfenv

SUBS = {}          # property -> list of Sub


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    """a single case took so long that the code under test must be considered not to return"""


CASE_LIMIT = 150         # seconds; the slowest case takes a few


def _alarm(*a):
    raise CaseTimeout()


class Sub:
    def __init__(self, prop, name, strategy, run, quick, thorough, rule, shards, floor):
        self.prop, self.name, self.strategy, self.run = prop, name, strategy, run
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.floor = floor


def sub(prop, strategy, quick, thorough=None, rule="", shards=1, name=None, floor=0.2):
    """Register run(case, ctx).  `strategy` is a zero-argument callable returning a strategy."""
    def deco(f):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name or f.__name__, strategy, f, quick, thorough or quick * 10, rule, shards, floor))
        return f
    return deco


class Ctx:
    """Per-case context: classification and expectations."""
    def __init__(self):
        self.labels = set()
        self.trivial_flag = None

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def nontrivial(self, cond=True):
        self.trivial_flag = (not cond)

    def fail(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def close(self, got, want, tol, what):
        """elementwise |got-want| <= tol; NaN in got is a failure unless want is NaN there"""
        import numpy as np
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            try:
                got, want = np.broadcast_arrays(got, want)
            except ValueError:
                raise Violation("%s: shapes differ %s vs %s" % (what, got.shape, want.shape))
        nan_g, nan_w = np.isnan(got), np.isnan(want)
        with np.errstate(invalid="ignore"):
            d = np.abs(got - want)
            d = np.where(got == want, 0., d)      # infinities
        bad = (~nan_w) & ~(d <= tol)
        bad |= (nan_w & ~nan_g)
        if np.any(bad):
            i = np.argwhere(bad)[0] if bad.ndim else ()
            i = tuple(int(v) for v in i)
            tt = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)[i]
            raise Violation("%s: at %s got %r want %r, difference %.3g > tolerance %.3g" % (
                what, i, float(got[i]), float(want[i]), float(d[i]), float(tt)))

    def angle_close(self, got, want, tol, what, period=360.):
        import numpy as np
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shapes differ %s vs %s" % (what, g.shape, w.shape))
        d = (g - w + period / 2) % period - period / 2
        self.close(w + d, w, tol, what)

    def raises(self, excs, f, what):
        """f() must raise one of excs (SystemExit counts when listed)."""
        try:
            r = f()
        except excs:
            return
        raise Violation("%s: accepted, returned %r" % (what, r))


def jdefault(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(type(o))


def dumps(case):
    return json.dumps(case, default=jdefault, sort_keys=True)


def blame(exc):
    """Which side raised: 'code' when the traceback passes through /repo, else 'harness'."""
    tb = exc.__traceback__
    repo = os.path.realpath(vfenv.REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(repo):
            return "code"
    return "harness"


class NotAViolation(Exception):
    pass


UNREADABLE = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, FileNotFoundError)


def reset_globals():
    """Everything outside the case that could make a run depend on chance."""
    random.seed(0)
    import numpy as np
    np.random.seed(0)


def execute(subcheck, case, ctx=None):
    """Run one case.  Returns None if it held, else the failure message.  Raises HarnessError."""
    ctx = ctx or Ctx()
    reset_globals()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        subcheck.run(case, ctx)
        return None
    except Violation as e:
        return "%s" % e
    except CaseTimeout as e:
        if blame(e) != "code":
            raise HarnessError("".join(traceback.format_exception(e)))
        return "no answer after %d s (%s)" % (CASE_LIMIT, traceback.extract_tb(e.__traceback__)[-2].name)
    except (KeyboardInterrupt, HarnessError, MemoryError):
        raise
    except BaseException as e:      # SystemExit included: code under test must not exit on valid input
        if type(e).__module__.startswith("hypothesis"):
            raise
        if blame(e) == "code":
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            return "raised %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(last.filename), last.name)
        if isinstance(e, UNREADABLE):
            # a result of another form than on the tree the checks were made for: missing column, file or value, wrong number of results
            own = [f for f in traceback.extract_tb(e.__traceback__) if os.sep + "checks" + os.sep in f.filename]
            if own:
                return "result cannot be interpreted: %s: %s (%s:%d %s)" % (type(e).__name__, e, os.path.basename(own[-1].filename), own[-1].lineno, own[-1].line)
        raise HarnessError("".join(traceback.format_exception(e)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def load_checks(prop):
    import importlib
    importlib.import_module("checks." + prop.lower())
    return SUBS[prop]


def find_sub(prop, name):
    for s in load_checks(prop):
        if s.name == name:
            return s
    raise HarnessError("no sub-check %s/%s" % (prop, name))


def known_findings():
    path = os.path.join(vfenv.ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {"findings": [], "fixed": []}
    with open(path) as f:
        return json.load(f)
