"""C28 results do not depend on earlier calls in the same program"""
import contextlib, copy, io, os, re, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, zb
from vf.gen import fixed
from vf.fresh import Package
from checks import c13

P = "C28"


def case13(name, rs):
    """a random case for a transform of C13"""
    from vf import sky
    ra, lst = rs.uniform(0, 360, 2)
    ha = rs.uniform(-30, 30)
    return dict(name=name, p=dict(ra=(lst - ha) % 360, dec=rs.uniform(-10, 65), lst=lst, mjd=rs.uniform(55000, 63000), hexrot=rs.uniform(-1, 1)),
                opt={} if rs.rand() < .5 else dict(precession=bool(rs.rand() < .5), aberration=bool(rs.rand() < .5), polar_misalignment=bool(rs.rand() < .5)),
                adc=rs.uniform(0, 360, 2).tolist(), petal=int(rs.randint(10)), cam=camera(rs))


def camera(rs):
    from vf import tx
    return tx.random_camera(rs)


def transform(name):
    def op(rs, imp):
        n, make = c13.TRANSFORMS[name]
        f, cube, tol = make(case13(name, rs))
        u = rs.rand(rs.randint(1, 5), n)
        return f(*[np.array(v, dtype=float) for v in cube(*u.T)])
    return op


def reader(name):
    def op(rs, imp):
        f, args = c13.readers()[name](rs, int(rs.randint(3, 12)))
        return [f(*args), args]
    return op


def load_metrology(rs, imp):
    return imp("desimeter.io").load_metrology()


def load_locations(rs, imp):
    return imp("desimeter.io").load_nominal_positioner_locations()


def load_alignment(rs, imp):
    return imp("desimeter.io").load_petal_alignement()


def load_camera(rs, imp):
    t = imp("desimeter.transform.fvc2fp").FVC2FP.read(imp("desimeter.io").fvc2fp_filename())
    return t.__dict__


def load_dm2pm(rs, imp):
    t = imp("desimeter.transform.dm2pm").DM2PM.read(imp("desimeter.io").dm2pm_filename())
    return t.__dict__


def find_fiducials(rs, imp):
    from astropy.table import Table
    m = imp("desimeter.io").load_metrology()
    m = m[(np.array(m["PINHOLE_ID"]) > 0) & (np.array(m["DEVICE_TYPE"]) != "GFA")]
    t = imp("desimeter.transform.fvc2fp").FVC2FP.read(imp("desimeter.io").fvc2fp_filename())
    x, y = t.fp2fvc(np.array(m["X_FP"]), np.array(m["Y_FP"]))
    o = rs.permutation(len(x))
    k = o[rs.rand(len(o)) > .02]
    s = Table(dict(XPIX=x[k] + rs.normal(size=len(k)) * .01, YPIX=y[k] + rs.normal(size=len(k)) * .01, COUNTS=np.full(len(k), 1e5)))
    return imp("desimeter.findfiducials").findfiducials(s, input_transform=imp("desimeter.io").fvc2fp_filename() if rs.rand() < .5 else None)


def apply_ptl2fp(rs, imp):
    from astropy.table import Table
    n = rs.randint(1, 8)
    return imp("desimeter.transform.ptl2fp").apply_ptl2fp(Table(dict(PETAL_LOC=rs.randint(0, 10, n), X_PTL=rs.uniform(50, 400, n), Y_PTL=rs.uniform(-100, 100, n), Z_PTL=rs.uniform(-10, 0, n))))


def fit_params(rs, imp):
    import checks.c23 as c23
    F = imp("desimeter.posparams.fitter")
    g = c23.geometry(rs)
    t, p = c23.moves(rs, "arcs")
    re = np.ones(len(t), bool)
    seq = np.zeros(len(t), int)
    if rs.rand() < .5:
        re[-4:], seq[-4:] = False, rs.randint(1, 5)
    x, y = c23.place(t, p, g)
    with contextlib.redirect_stdout(io.StringIO()):
        return F.fit_params(t.tolist(), p.tolist(), x.tolist(), y.tolist(), [1.] * len(t), [1.] * len(t), re.tolist(), seq.tolist())


def bitmask(rs, imp):
    m = imp("desimeter.posparams.movemask").movemask
    q = imp("desimeter.posparams.posflags_mask").posflags_mask
    return [m.names(), q.names(), [int(m[k]) for k in m.names()], [int(q[k]) for k in q.names()]]


def hexrot(rs, imp):
    return imp("desimeter.io").read_hexrot_deg({"FOCUS": tuple(rs.uniform(-900, 900, 6))})


def fibers(rs, imp):
    a = int(rs.randint(0, 100))
    return imp("desimeter.util").parse_fibers("%d,%d:%d" % (a, a + 3, a + 9))


def field_rotation(rs, imp):
    F = imp("desimeter.fieldmodel")
    return F.fieldrot(rs.uniform(0, 360), rs.uniform(-20, 60), 59000., rs.uniform(0, 360), .1) if hasattr(F, "fieldrot") else None


# calls that fail
def failing(what):
    def op(rs, imp):
        try:
            if what == "petal":
                imp("desimeter.transform.gfa2fp").gfa2fp(10 + int(rs.randint(5)), 1., 2.)
            elif what == "petal alignment":
                imp("desimeter.transform.ptl2fp").ptl2fp(12, 1., 2.)
            elif what == "inverse petal":
                imp("desimeter.transform.gfa2fp").fp2gfa(-1, 1., 2.)
            elif what == "data":
                old = os.environ.get("DESIMETER_DATA")
                os.environ["DESIMETER_DATA"] = "/nonexistent"
                try:
                    [lambda: imp("desimeter.io").load_metrology(), lambda: imp("desimeter.io").load_petal_alignement()][rs.randint(2)]()
                finally:
                    os.environ.pop("DESIMETER_DATA")
                    if old is not None:
                        os.environ["DESIMETER_DATA"] = old
            elif what == "fibers":
                imp("desimeter.util").parse_fibers("1..a")
            elif what == "header":
                imp("desimeter.io").read_hexrot_deg({"FOCUS": "1,2"})
            elif what == "camera file":
                with tempfile.TemporaryDirectory() as tmp:
                    fn = os.path.join(tmp, "t.json")
                    open(fn, "w").write('{"method": "nonsense"}')
                    imp("desimeter.transform.fvc2fp").FVC2FP.read(fn)
            elif what == "circle":
                imp("desimeter.circles").fit_circle(np.zeros(5), np.zeros(5))
            elif what == "shapes":
                imp("desimeter.transform.tan2fp").tan2fp(np.zeros(3), np.zeros(4), 10., 20.)
            elif what == "no fiducials":
                from astropy.table import Table
                imp("desimeter.findfiducials").findfiducials(Table(dict(XPIX=rs.rand(5), YPIX=rs.rand(5), COUNTS=np.ones(5))))
            elif what == "nan":
                imp("desimeter.transform.tan2fp").fp2tan(np.array([np.nan, 1.]), np.array([1., 2.]), 10., 20.)
        except Exception as e:
            return type(e).__name__
        except SystemExit as e:
            return "exit"
        return "done"

    def silent(rs, imp):
        op(rs, imp)         # whether a table must be read again when the directory changes is not judged here
    return silent if what == "data" else op


FAIL = ["petal", "petal alignment", "inverse petal", "data", "fibers", "header", "camera file", "circle", "shapes", "no fiducials", "nan"]
OTHER = [load_metrology, load_locations, load_alignment, load_camera, load_dm2pm, find_fiducials, apply_ptl2fp, fit_params, bitmask, hexrot, fibers, field_rotation]
OPS = {}
for k in c13.TRANSFORMS:
    OPS["transform " + k] = transform(k)
for k in c13.READERS:
    OPS["reader " + k] = reader(k)
for f in OTHER:
    OPS[f.__name__] = f
for k in FAIL:
    OPS["fail " + k] = failing(k)
# those that load or share something are called more often
SHARED = ["transform " + k for k in ("gfa2fp", "fp2gfa", "ptl2fp", "fp2ptl", "ptl2fp z", "tan2fp", "fp2tan", "echo22", "echo22_inverse", "shipped fvc2fp", "fvc2fp", "fp2fvc", "lookups", "field model", "field model inverse", "radec2tan", "r2s", "xy2qs", "int2ptl", "ptl2int", "dm2pm")] + \
         ["reader " + k for k in ("fiberassign", "fiberassign_flat", "fiberassign_inverse", "camera", "guider_fit")] + [f.__name__ for f in OTHER] + ["fail " + k for k in FAIL]
FAMILY = {k: [o for o in OPS if any(w in o for w in words)] for k, words in dict(gfa=["gfa", "guider", "petal"], petal=["ptl", "petal", "load_alignment", "apply_ptl"], optics=["tan2fp", "fp2tan", "echo", "field model", "fiberassign", "nan", "shapes"],
                                                                                  camera=["fvc", "camera", "fiducial"], tables=["load_", "find_f", "guider", "gfa", "data"], fits=["fit_params", "circle", "bitmask", "similarity", "camera"]).items()}
ONE = st.one_of(st.sampled_from(sorted(OPS)), st.sampled_from(SHARED), st.sampled_from(SHARED))


def value(o):
    """a comparable copy of a result"""
    if hasattr(o, "colnames"):
        return {str(k): np.array(o[k]) for k in o.colnames}
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, dict):
        return {str(k): value(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [value(v) for v in o]
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return o
    if hasattr(o, "__dict__") and type(o).__module__.startswith("desimeter"):
        return {str(k): value(v) for k, v in o.__dict__.items()}
    return str(type(o))


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if a.dtype.kind == "f":
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True))
        return bool(np.all(a == b))
    if isinstance(a, (float, np.floating)):
        return isinstance(b, (float, np.floating)) and (a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1., abs(a)))
    return a == b


def spoil(o, depth=0):
    """change everything that was returned, in place"""
    if depth > 4:
        return
    if hasattr(o, "colnames"):
        for k in o.colnames:
            if o[k].dtype.kind in "fi":
                o[k] = np.asarray(o[k]) + 1
        if len(o) > 1:
            o.remove_row(0)
    elif isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in "fi":
            o += 1
    elif isinstance(o, dict):
        for v in list(o.values()):
            spoil(v, depth + 1)
        for k in list(o):
            if isinstance(o[k], (int, float)) and not isinstance(o[k], bool):
                o[k] += 1
    elif isinstance(o, (list, tuple)):
        for v in o:
            spoil(v, depth + 1)
        if isinstance(o, list) and o:
            o.pop()


def perform(op, seed, imp, edit):
    np.random.seed(seed)
    r = OPS[op](np.random.RandomState(seed), imp)
    v = value(r)
    if edit:
        spoil(r)
    return v


FRESH = {}


def fresh(op, seed):
    """the result in a program in which nothing else was called"""
    if (op, seed) not in FRESH:
        with Package() as imp:
            FRESH[op, seed] = perform(op, seed, imp, False)
    return FRESH[op, seed]


STEP = st.tuples(ONE, st.integers(0, 12), st.booleans()).map(list)


def family_steps():
    return st.sampled_from(sorted(FAMILY)).flatmap(lambda k: st.lists(st.tuples(st.sampled_from(FAMILY[k]), st.integers(0, 12), st.booleans()).map(list), min_size=4, max_size=10))


@sub(P, lambda: fixed(steps=st.one_of(st.lists(STEP, min_size=4, max_size=14), family_steps())), 1000, 12000, "three or more different calls, and one edits its result or fails", shards=8)
def histories(c, ctx):
    """each call in a random history gives the result it gives in a fresh process"""
    ctx.nontrivial(len({s[0] for s in c["steps"]}) > 2 and any(s[2] or s[0].startswith("fail") for s in c["steps"]))
    with Package() as imp:
        got = [perform(op, seed, imp, edit) for op, seed, edit in c["steps"]]
    for i, ((op, seed, edit), g) in enumerate(zip(c["steps"], got)):
        ctx.label(op.split()[0])
        w = fresh(op, seed)
        ctx.expect(same(g, w), "call {} ({}, seed {}) of the history {} gives {} instead of {}", i + 1, op, seed, [s[0] + ("+edit" if s[2] else "") for s in c["steps"][:i + 1]], str(g)[:300], str(w)[:300])


SEVERITY = dict(DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50, FATAL=50)


@sub(P, lambda: fixed(steps=st.lists(st.tuples(st.sampled_from(["INFO", "INFO", "WARNING", "ERROR", "DEBUG", None, "CRITICAL", "WARN"]), st.sampled_from([None, "a.log", "a.log", "b.log"]), st.booleans()).map(list), min_size=1, max_size=8),
                      env=st.sampled_from([None, None, "DEBUG", "warning", "ERROR"]), old=st.booleans()), 300, 3000, "a log file asked for after the logger was made", shards=2)
def logs(c, ctx):
    """messages reach the console once, and once the log file asked for, whoever asked for a logger before"""
    from unittest import mock
    from vf.fresh import loggers
    names = [(s[0] or c["env"] or "INFO").upper() for s in c["steps"]]
    ctx.nontrivial(any(s[1] and names[i] in names[:i] for i, s in enumerate(c["steps"])))
    err = io.StringIO()
    env = {} if c["env"] is None else dict(DESI_LOGLEVEL=c["env"])
    with tempfile.TemporaryDirectory() as d, mock.patch.dict(os.environ, env), loggers(), contextlib.redirect_stderr(err):
        if c["env"] is None:
            os.environ.pop("DESI_LOGLEVEL", None)
        from desimeter.log import get_logger
        if c["old"]:
            with open(os.path.join(d, "a.log"), "w") as f:
                f.write("kept line\n")
        asked, sent, made = {}, [], {}
        for i, (level, path, stamp) in enumerate(c["steps"]):
            name = names[i]
            lg = get_logger(level, None if path is None else os.path.join(d, path), stamp)
            ctx.expect(made.setdefault(name, lg) is lg, "another logger of level {} the second time", name)
            if path:
                asked.setdefault((name, path), stamp)
            for how in ("debug", "info", "warning", "error", "critical"):
                getattr(lg, how)("message-%d-%s." % (i, how))
                sent.append((name, path, SEVERITY[how.upper()] >= SEVERITY[name], "message-%d-%s." % (i, how)))
        text = {p: open(os.path.join(d, p)).read() if os.path.exists(os.path.join(d, p)) else "" for p in ("a.log", "b.log")}
    ctx.expect(not c["old"] or text["a.log"].startswith("kept line\n"), "log file overwritten")
    for name, path, out, msg in sent:
        n = err.getvalue().count(msg)
        ctx.expect(n == int(out), "{} of a logger of level {} is {} times on the console", msg, name, n)
        for p, t in text.items():
            n = t.count(msg)
            if (name, p) not in asked or not out:
                ctx.expect(n == 0, "{} of a logger of level {} is in {}", msg, name, p)
            elif p == path:
                ctx.expect(n == 1, "{} of a logger of level {} with a log file is {} times in it", msg, name, n)
                line = [q for q in t.splitlines() if msg in q][0]
                ctx.expect(bool(re.match(r"\d{8}T\d{6}", line)) == asked[name, p], "time in {!r}", line)
            else:
                ctx.expect(n <= 1, "{} is {} times in {}", msg, n, p)
