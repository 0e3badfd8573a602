"""C13 transforms act point by point and leave their inputs alone."""
import copy
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, tx, data
from vf.gen import fixed, uni, mix

P = "C13"


def lin(lo, hi):
    return lambda u: lo + (hi - lo) * u


def disc(rmax, rmin=0.):
    """two unit numbers -> a point of the disc"""
    def f(u, v):
        r = rmin + (rmax - rmin) * np.sqrt(u)
        a = 2 * np.pi * v
        return r * np.cos(a), r * np.sin(a)
    return f


def box(*ranges):
    def f(*us):
        return tuple(lo + (hi - lo) * u for (lo, hi), u in zip(ranges, us))
    return f


def near(ra, dec, rad):
    """points of the sky within rad degrees"""
    def f(u, v):
        x, y = disc(rad)(u, v)
        return ra + x / np.cos(np.radians(dec)), dec + y
    return f


def T(name):
    import importlib
    return importlib.import_module("desimeter." + name)


PT = dict(ra=150., dec=20., lst=160., mjd=59000., hexrot=.1)


def pointing(c):
    p = c["p"]
    return p["ra"], p["dec"], p["mjd"], p["lst"], p["hexrot"]


def _sky(c, fn, **kw):
    ra, dec, mjd, lst, hexrot = pointing(c)
    R = T("transform.radec2tan")
    return lambda a, b: getattr(R, fn)(a, b, ra, dec, mjd, lst, hexrot, **kw)


# name -> (number of coordinates per point, case -> (function of arrays, unit cube -> coordinates, tolerance))
ANGLE = (0., 360.)
TRANSFORMS = {
    "radec2tan": (2, lambda c: (_sky(c, "radec2tan", **c["opt"]), near(c["p"]["ra"], c["p"]["dec"], 1.6), 1e-13)),
    "tan2radec": (2, lambda c: (_sky(c, "tan2radec", **c["opt"]), disc(.028), 1e-10)),
    "hadec2altaz": (2, lambda c: (T("transform.radec2tan").hadec2altaz, box((-90, 90), (-40, 89)), 1e-10)),
    "altaz2hadec": (2, lambda c: (T("transform.radec2tan").altaz2hadec, box((5, 88), ANGLE), 1e-10)),
    "hadec2xy": (2, lambda c: ((lambda a, b: T("transform.radec2tan").hadec2xy(a, b, 10., 30.)), near(10., 30., 2.), 1e-13)),
    "xy2hadec": (2, lambda c: ((lambda a, b: T("transform.radec2tan").xy2hadec(a, b, 10., 30.)), disc(.03), 1e-10)),
    "precession": (2, lambda c: ((lambda a, b: T("transform.radec2tan").apply_precession_from_icrs(a, b, c["p"]["mjd"])), box(ANGLE, (-80, 80)), 1e-9)),
    "undo_precession": (2, lambda c: ((lambda a, b: T("transform.radec2tan").undo_precession_from_icrs(a, b, c["p"]["mjd"])), box(ANGLE, (-80, 80)), 1e-9)),
    "precession_astropy": (2, lambda c: ((lambda a, b: T("transform.radec2tan").apply_precession_from_icrs(a, b, c["p"]["mjd"], use_astropy=True)), box(ANGLE, (-80, 80)), 1e-8)),
    "aberration": (2, lambda c: ((lambda a, b: T("transform.radec2tan").apply_aberration(a, b, c["p"]["mjd"])), box(ANGLE, (-80, 80)), 1e-9)),
    "undo_aberration": (2, lambda c: ((lambda a, b: T("transform.radec2tan").undo_aberration(a, b, c["p"]["mjd"])), box(ANGLE, (-80, 80)), 1e-9)),
    "ecliptic": (2, lambda c: (T("transform.radec2tan").radec2eclip, box(ANGLE, (-80, 80)), 1e-9)),
    "from_ecliptic": (2, lambda c: (T("transform.radec2tan").eclip2radec, box(ANGLE, (-60, 60)), 1e-9)),
    "refraction": (1, lambda c: ((lambda a: (T("transform.radec2tan").apply_refraction(a),)), box((10, 90)), 1e-12)),
    "undo_refraction": (1, lambda c: ((lambda a: (T("transform.radec2tan").undo_refraction(a),)), box((10, 90)), 1e-12)),
    "tan2fp": (2, lambda c: ((lambda a, b: T("transform.tan2fp").tan2fp(a, b, *c["adc"])), disc(.028), 1e-9)),
    "fp2tan": (2, lambda c: ((lambda a, b: T("transform.tan2fp").fp2tan(a, b, *c["adc"])), disc(410.), 1e-9)),
    "echo22": (2, lambda c: (T("transform.tan2fp.echo22").tan2fp, disc(.028), 1e-9)),
    "echo22_inverse": (2, lambda c: (T("transform.tan2fp.echo22").fp2tan, disc(410.), 1e-12)),
    "fvc2fp": (2, lambda c: (tx.make(c["cam"]).fvc2fp, box((0, 6000), (0, 6000)), 1e-9)),
    "fp2fvc": (2, lambda c: (tx.make(c["cam"]).fp2fvc, disc(420.), 1e-6)),
    "shipped fvc2fp": (2, lambda c: (T("transform.fvc2fp").FVC2FP.read(T("io").fvc2fp_filename()).fvc2fp, box((0, 6000), (0, 6000)), 1e-9)),
    "shipped fp2fvc": (2, lambda c: (T("transform.fvc2fp").FVC2FP.read(T("io").fvc2fp_filename()).fp2fvc, disc(420.), 1e-6)),
    "dm2pm": (2, lambda c: (T("transform.dm2pm").DM2PM.read(T("io").dm2pm_filename()).dm2pm, disc(410.), 1e-9)),
    "pm2dm": (2, lambda c: (T("transform.dm2pm").DM2PM.read(T("io").dm2pm_filename()).pm2dm, disc(410.), 1e-6)),
    "gfa2fp": (2, lambda c: ((lambda a, b: T("transform.gfa2fp").gfa2fp(c["petal"], a, b)), box((0, 2048), (0, 1032)), 1e-9)),
    "fp2gfa": (2, lambda c: ((lambda a, b: T("transform.gfa2fp").fp2gfa(c["petal"], a, b)), disc(420., 350.), 1e-7)),
    "ptl2fp": (2, lambda c: ((lambda a, b: T("transform.ptl2fp").ptl2fp(c["petal"], a, b)), disc(415.), 1e-9)),
    "fp2ptl": (2, lambda c: ((lambda a, b: T("transform.ptl2fp").fp2ptl(c["petal"], a, b)), disc(415.), 1e-9)),
    "ptl2fp z": (3, lambda c: ((lambda a, b, z: T("transform.ptl2fp").ptl2fp(c["petal"], a, b, z)), box((-400, 400), (-150, 150), (-20, 5)), 1e-9)),
    "fp2ptl z": (3, lambda c: ((lambda a, b, z: T("transform.ptl2fp").fp2ptl(c["petal"], a, b, z)), box((-400, 400), (-150, 150), (-20, 5)), 1e-9)),
    "ptl2flat": (2, lambda c: (T("transform.pos2ptl").ptl2flat, disc(415.), 1e-9)),
    "flat2ptl": (2, lambda c: (T("transform.pos2ptl").flat2ptl, disc(415.), 1e-9)),
    "int2ptl": (8, lambda c: (T("transform.pos2ptl").int2ptl, box((-180, 180), (-20, 200), (2.5, 3.5), (2.5, 3.5), (-180, 180), (-20, 20), (20, 400), (-120, 120)), 1e-9)),
    "int2loc": (6, lambda c: (T("transform.pos2ptl").int2loc, box((-180, 180), (-20, 200), (2.5, 3.5), (2.5, 3.5), (-180, 180), (-20, 20)), 1e-10)),
    "ext2loc": (4, lambda c: (T("transform.pos2ptl").ext2loc, box((-180, 180), (-20, 200), (2.5, 3.5), (2.5, 3.5)), 1e-10)),
    "loc2ext": (6, lambda c: (T("transform.pos2ptl").loc2ext, box((-4, 4), (-4, 4), (2.5, 3.5), (2.5, 3.5), (-180, 180), (-20, 20)), 1e-7)),
    "ptl2int": (8, lambda c: (T("transform.pos2ptl").ptl2int, lambda *u: box((197, 203), (-3, 3), (2.5, 3.5), (2.5, 3.5), (-180, 180), (-20, 20), (199, 201), (-1, 1))(*u), 1e-7)),
    "flat2loc": (2, lambda c: ((lambda a, b: (T("transform.pos2ptl").flat2loc(a, b),)), box((-400, 400), (-400, 400)), 1e-10)),
    "loc2flat": (2, lambda c: ((lambda a, b: (T("transform.pos2ptl").loc2flat(a, b),)), box((-400, 400), (-400, 400)), 1e-10)),
    "ext2int": (2, lambda c: ((lambda a, b: (T("transform.pos2ptl").ext2int(a, b),)), box((-400, 400), (-180, 180)), 1e-10)),
    "int2ext": (2, lambda c: ((lambda a, b: (T("transform.pos2ptl").int2ext(a, b),)), box((-400, 400), (-180, 180)), 1e-10)),
    "delta_angle": (3, lambda c: ((lambda a, b, d: (T("transform.pos2ptl").delta_angle(a, b, np.round(np.asarray(d))),)), box((-400, 400), (-400, 400), (-1, 1)), 1e-9)),
    "xy2qs": (2, lambda c: (T("transform.xy2qs").xy2qs, disc(410.), 1e-9)),
    "qs2xy": (2, lambda c: (T("transform.xy2qs").qs2xy, box(ANGLE, (1, 410)), 1e-9)),
    "xy2uv": (2, lambda c: (T("transform.xy2qs").xy2uv, disc(410.), 1e-9)),
    "uv2xy": (2, lambda c: (T("transform.xy2qs").uv2xy, disc(410.), 1e-9)),
    "r2s": (1, lambda c: ((lambda a: (T("transform.xy2qs").r2s(a),)), box((0, 415)), 1e-9)),
    "s2r": (1, lambda c: ((lambda a: (T("transform.xy2qs").s2r(a),)), box((0, 415)), 1e-9)),
    "lookups": (1, lambda c: ((lambda a: (T("transform.rszn_lookups").r2s(a), T("transform.rszn_lookups").r2z(a), T("transform.rszn_lookups").r2n(a), T("transform.rszn_lookups").s2r(a))), box((0, 415)), 1e-9)),
    "distortion": (2, lambda c: ((lambda a, b: T("transform.zhaoburge").getZhaoBurgeXY(c["cam"]["ids"], c["cam"]["coeffs"], a, b)), box((-1, 1), (-1, 1)), 1e-12)),
    "distortion map": (2, lambda c: ((lambda a, b: T("transform.zhaoburge").transform(a, b, 1.1, .2, .01, -.02, c["cam"]["ids"], c["cam"]["coeffs"])), box((-1, 1), (-1, 1)), 1e-12)),
    "average_angles": (2, lambda c: ((lambda a, b: (T("trig").average_angles_deg(a, b),)), box((0, 80), (0, 80)), 1e-9)),
    "put360": (1, lambda c: ((lambda a: (T("trig").put360(a),)), box((-700, 700)), 1e-9)),
    "lst": (1, lambda c: ((lambda a: (T("time").mjd2lst(a),)), box((50000, 65000)), 1e-6)),
    "fieldrot": (2, lambda c: ((lambda a, b: (np.array([T("fieldmodel").fieldrot(float(i), float(j), 59000., 150., .1) for i, j in zip(np.atleast_1d(a), np.atleast_1d(b))]),)), near(150., 10., 30.), 1e-9)),
    "field model": (2, lambda c: (fieldmodel(c).fp2radec, disc(405.), 1e-9)),
    "field model inverse": (2, lambda c: (fieldmodel(c).radec2fp, near(c["p"]["ra"], c["p"]["dec"], 1.5), 1e-7)),
    "simple correction": (2, lambda c: (simplecorr().apply, disc(400.), 1e-10)),
    "simple correction inverse": (2, lambda c: (simplecorr().apply_inverse, disc(400.), 1e-10)),
    "tangent correction": (2, lambda c: (tancorr().apply, disc(.028), 1e-13)),
    "tangent correction inverse": (2, lambda c: (tancorr().apply_inverse, disc(.028), 1e-13)),
}
SLOW = {"precession_astropy"}
# these work on arrays only
ARRAYS_ONLY = {"distortion", "distortion map", "dm2pm", "pm2dm", "field model", "field model inverse", "fp2fvc", "fvc2fp", "shipped fvc2fp", "shipped fp2fvc", "fp2tan", "tan2fp"}
# circular results
CIRCULAR = {"lst", "put360", "precession", "undo_precession", "aberration", "undo_aberration", "ecliptic", "from_ecliptic", "hadec2altaz", "altaz2hadec", "tan2radec",
            "xy2hadec", "field model", "precession_astropy", "average_angles", "xy2qs"}


def fieldmodel(c):
    from desimeter.fieldmodel import FieldModel
    m = FieldModel()
    m.ra, m.dec, m.mjd, m.lst, m.hexrot_deg = pointing(c)[0], pointing(c)[1], pointing(c)[2], pointing(c)[3], pointing(c)[4]
    m.adc1, m.adc2 = c["adc"]
    m.expid = 1
    for k in ("precession", "aberration", "polar_misalignment"):
        setattr(m, k, c["opt"].get(k, True))
    t = tancorr()
    for k in ("sxx", "syy", "sxy", "dha", "ddec"):
        setattr(m, k, getattr(t, k))
    m.tancorr = t
    return m


def tancorr():
    from desimeter.fieldmodel import TanCorr
    t = TanCorr()
    t.dha, t.ddec, t.sxx, t.syy, t.sxy, t.rot_deg = .01, -.02, 1.001, .999, 2e-4, .05
    return t


def simplecorr():
    from desimeter.simplecorr import SimpleCorr
    s = SimpleCorr()
    s.dx, s.dy, s.sxx, s.syy, s.sxy, s.rot_deg = 3., -2., 1.01, .98, .005, 12.
    return s


def options():
    return st.one_of(st.just({}), fixed(precession=st.booleans(), aberration=st.booleans(), polar_misalignment=st.booleans()))


def clone(v, kind):
    v = np.array(v, dtype=float)
    if kind == "strided":
        big = np.full(2 * len(v) + 1, np.nan)
        big[1::2] = v
        return big[1::2]
    if kind == "column":
        from astropy.table import Column
        return Column(v, name="v")
    if kind == "reversed":
        return v[::-1].copy()[::-1]
    return v


def flat(res):
    if not isinstance(res, tuple):
        res = tuple(res)
    return [np.atleast_1d(np.asarray(r, dtype=float)) for r in res]


@sub(P, lambda: st.sampled_from(sorted(TRANSFORMS)).flatmap(lambda n: fixed(
        name=st.just(n), pts=st.lists(st.tuples(*[st.one_of(uni(0., 1.), uni(0., 1.), st.sampled_from([0., 1., .5]))] * TRANSFORMS[n][0]).map(list), min_size=1, max_size=7),
        p=gen.pointing(35.).filter(lambda p: abs(p["dec"]) < 75.), opt=options(), adc=st.tuples(gen.angle(), gen.angle()).map(list), petal=st.integers(0, 9), cam=tx.camera(),
        kind=st.sampled_from(["array", "array", "strided", "column", "reversed"]), perm=gen.seeds(), pick=gen.seeds())), 5000, 50000, "several points", shards=6)
def pointwise(c, ctx):
    """every transform: array = element by element = scalars; arguments unchanged"""
    n, make = TRANSFORMS[c["name"]]
    f, cube, tol = make(c)
    u = np.array(c["pts"], dtype=float)
    if c["name"] in SLOW:
        u = u[:2]
    vals = [np.array(v, dtype=float) for v in cube(*[u[:, k] for k in range(n)])]
    m = len(u)
    ctx.label(c["kind"])
    ctx.nontrivial(m > 1)
    args = [clone(v, c["kind"]) for v in vals]
    keep = [np.array(a) for a in args]
    res = flat(f(*args))
    for a, k, w in zip(args, keep, range(n)):
        ctx.expect(np.array_equal(np.asarray(a), k), "{}: argument {} modified", c["name"], w)
    per = c["name"] in CIRCULAR
    what = c["name"]

    def same(a, b, how):
        for i, (x, y) in enumerate(zip(a, b)):
            if per:
                ctx.angle_close(x, y, tol, "%s %s, output %d" % (what, how, i))
            else:
                ctx.close(x, y, tol, "%s %s, output %d" % (what, how, i))
    for r in res:
        ctx.expect(len(r) == m, "{}: {} points in, {} out", what, m, len(r))
    # a second call with the same arrays
    same(flat(f(*args)), res, "called again")
    # order
    o = np.random.RandomState(c["perm"] % 2**32).permutation(m)
    same(flat(f(*[v[o].copy() for v in vals])), [r[o] for r in res], "in another order")
    # subset
    s = np.random.RandomState(c["pick"] % 2**32).rand(m) < .5
    if s.any():
        same(flat(f(*[v[s].copy() for v in vals])), [r[s] for r in res], "without some of the points")
    # alone, as a length one array and as a scalar
    j = c["pick"] % m
    one = [r[j:j + 1] for r in res]
    same(flat(f(*[v[j:j + 1].copy() for v in vals])), one, "alone")
    if what not in ARRAYS_ONLY:
        same(flat(f(*[float(v[j]) for v in vals])), one, "as a scalar")
        same(flat(f(*[np.float64(v[j]) for v in vals])), one, "as a numpy scalar")
    # results must not alias one another or the input
    raw = f(*args)
    if isinstance(raw, tuple):
        for a in raw:
            if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
                a += 1.
        for a, k, w in zip(args, keep, range(n)):
            ctx.expect(np.array_equal(np.asarray(a), k), "{}: result shares memory with argument {}", what, w)


def snapshot(o):
    if hasattr(o, "colnames"):
        return {k: np.array(o[k]) for k in o.colnames}
    if isinstance(o, np.ndarray):
        return np.array(o)
    return copy.deepcopy(o)


def same_snap(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_snap(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same_snap(x, y) for x, y in zip(a, b))
    return a == b


def _arm_circle(rs, n):
    t = np.linspace(-170., 150., n)
    return t


def readers():
    """name -> (rs, n) -> (function, arguments it must only read)"""
    def grid(rs, n, s=300.):
        return rs.uniform(-s, s, n), rs.uniform(-s, s, n)

    def match(rs, n):
        from desimeter import match
        x, y = grid(rs, n)
        return lambda a, b, c, d: match.match_same_system(a, b, c, d), [x, y, x[::-1] + .1, y[::-1]]

    def triangles(rs, n):
        from desimeter import match
        x, y = grid(rs, 5)
        return lambda a, b, c, d: match.match_arbitrary_translation_dilatation(a, b, c, d), [x, y, x[::-1] * 1.1 + 3., y[::-1] * 1.1]

    def circle(rs, n):
        from desimeter import circles
        a = rs.uniform(0, 2 * np.pi, n + 6)
        return lambda x, y: circles.fit_circle(x, y), [10 + 3 * np.cos(a), 20 + 3 * np.sin(a)]

    def rcircle(rs, n):
        from desimeter import circles
        a = rs.uniform(0, 2 * np.pi, n + 8)
        x = 10 + 3 * np.cos(a)
        x[0] += 5
        return lambda x, y: circles.robust_fit_circle(x, y), [x, 20 + 3 * np.sin(a)]

    def gp(rs, n):
        from desimeter import turbulence
        x, y = grid(rs, n + 10)
        return turbulence.correct, [x + .01, y + .003 * x / 300, x, y]

    def pol(rs, n):
        from desimeter import turbulence
        x, y = grid(rs, n + 40, 40.)
        return turbulence.correct_with_pol, [x + .01, y + .003 * x / 300, x, y]

    def stationary(rs, n):
        from desimeter import turbulence
        x, y = grid(rs, n + 10)
        return turbulence.correct_using_stationary, [x + .01, y + .003, x, y, x[:4] + 5, y[:4]]

    def camera(rs, n):
        from astropy.table import Table
        from desimeter.transform.fvc2fp import FVC2FP
        from desimeter.io import fvc2fp_filename
        m = data.metrology()
        m = m[np.array(m["PINHOLE_ID"]) > 0]
        o = rs.permutation(len(m))[:max(40, n)]
        t = FVC2FP.read(fvc2fp_filename())
        s = Table()
        s["XPIX"], s["YPIX"] = t.fp2fvc(np.array(m["X_FP"])[o], np.array(m["Y_FP"])[o])
        for k in ("LOCATION", "PINHOLE_ID"):
            s[k] = np.array(m[k])[o]
        m = m[rs.permutation(len(m))]
        return lambda spots, metr: t.fit(spots, metrology=metr), [s, m]

    def platemaker(rs, n):
        from desimeter.transform.dm2pm import DM2PM
        x, y = grid(rs, n + 60)
        return lambda a, b, c, d: DM2PM().fit(a, b, c, d), [x, y, x * 1.01 + .1, y * 1.01]

    def similarity(rs, n):
        from desimeter.simplecorr import SimpleCorr
        x, y = grid(rs, n + 5)
        return lambda a, b, c, d: SimpleCorr().fit(a, b, c, d), [x, y, x * 1.01 + .1, y * 1.01]

    def rotoff(rs, n):
        from desimeter.simplecorr import SimpleCorr
        x, y = grid(rs, n + 5)
        return lambda a, b, c, d: SimpleCorr().fit_rotoff(a, b, c, d), [x, y, x - .01 * y, y + .01 * x]

    def tangent(rs, n):
        from desimeter.fieldmodel import TanCorr
        x, y = grid(rs, n + 15, .02)
        return lambda a, b, c, d: TanCorr().fit(a, b, c, d), [x, y, x * 1.01 + .0001, y * 1.01]

    def zb(rs, n):
        from desimeter.transform import zhaoburge
        x, y = grid(rs, n + 60, .9)
        return lambda a, b, c, d: zhaoburge.fitZhaoBurge(a, b, c, d, polids=np.array([0, 1, 2, 3])), [x, y, x + .001 * y, y]

    def sro(rs, n):
        from desimeter.transform import zhaoburge
        x, y = grid(rs, n + 60, .9)
        return (lambda a, b, c, d, i, k: zhaoburge.fit_scale_rotation_offset(a, b, c, d, fitzb=True, zbpolids=i, zbcoeffs=k)), [x, y, x + .001 * y, y, np.array([0, 1, 2, 5]), np.array([0., 1e-4, 2e-4, 0.])]

    def stuck(rs, n):
        from desimeter.posparams.flags import eval_move_flags
        t = list(np.linspace(-100, 100, n + 5))
        return eval_move_flags, [t, [90.] * len(t), list(np.cos(np.radians(t)) * 3), list(np.sin(np.radians(t)) * 3)]

    def spots(rs, n):
        from desimeter.detectspots import detectspots
        im = rs.normal(1000., 5., (80, 90))
        yy, xx = np.mgrid[:80, :90]
        for k in range(3):
            im += 20000. / 2 / np.pi * np.exp(-((xx - 20 - 25 * k) ** 2 + (yy - 30 - 7 * k) ** 2) / 2)
        return detectspots, [im]

    def flatten_table(rs, n):
        from astropy.table import Table
        from desimeter.posparams.posmoveselection import posmove_selection
        t = Table(dict(LOG_NOTE=["a b", "b c", "c d"] * n))
        return lambda t: posmove_selection(t, "a&b|d"), [t]

    def fiberassign(rs, n):
        from desimeter import fiberassign as F
        x, y = disc(1.4)(rs.rand(n + 4), rs.rand(n + 4))
        return lambda a, b: F.fiberassign_radec2xy_cs5(a, b, 20., 30., 59000., 10., .1), [20. + x, 30. + y]

    def fiberassign_flat(rs, n):
        from desimeter import fiberassign as F
        x, y = disc(1.4)(rs.rand(n + 4), rs.rand(n + 4))
        return lambda a, b: F.fiberassign_radec2xy_flat(a, b, 20., 30., 59000., 10., .1), [20. + x, 30. + y]

    def fiberassign_inverse(rs, n):
        from desimeter import fiberassign as F
        x, y = disc(400.)(rs.rand(n + 4), rs.rand(n + 4))
        return lambda a, b: F.fiberassign_cs5_xy2radec(a, b, 20., 30., 59000., 10., .1), [x, y]

    def fiberassign_flat_inverse(rs, n):
        from desimeter import fiberassign as F
        x, y = disc(400.)(rs.rand(n + 4), rs.rand(n + 4))
        return lambda a, b: F.fiberassign_flat_xy2radec(a, b, 20., 30., 59000., 10., .1), [x, y]

    def guider_fit(rs, n):
        from desimeter.transform import gfa2fp
        return gfa2fp.fit_gfa2fp, [data.metrology().copy()]

    def positioners(rs, n):
        from astropy.table import Table
        from desimeter.match_positioners import match_positioners
        x, y = grid(rs, n + 3)
        m = Table(dict(DEVICE_ID=["M%04d" % i for i in range(n + 3)], PINHOLE_ID=[0] * (n + 3), X_FP=x, Y_FP=y))
        f = Table(dict(PINHOLE_ID=[0] * (n + 3), COUNTS=[1e6] * (n + 3), X_FP=x[::-1] + 1, Y_FP=y[::-1]))
        c = Table(dict(POS_ID=["M%04d" % i for i in range(n + 3)], LENGTH_R1=[3.] * (n + 3), LENGTH_R2=[3.] * (n + 3)))
        return lambda a, b, d: match_positioners(a, b, d, return_alternatives=True), [f, m, c]

    def average(rs, n):
        from astropy.table import Table
        from desimeter.averagecoord import average_coordinates
        x, y = grid(rs, n + 4, 2000.)
        ts = [Table(dict(XPIX=x + rs.normal(0, .1, n + 4), YPIX=y + rs.normal(0, .1, n + 4), N=np.arange(n + 4)))[rs.permutation(n + 4)] for _ in range(3)]
        return lambda *t: average_coordinates(list(t), "XPIX", "YPIX"), ts

    def arm(rs, n):
        from desimeter.brightimage import detect_phi_arm
        im = rs.normal(1000., 5., (61, 61))
        yy, xx = np.mgrid[:61, :61]
        im += 3000. * ((np.abs(yy - 30) < 3) & (xx > 30) & (xx < 42))
        t = np.zeros((25, 25))
        t[10:15, 12:22] = 1.
        return lambda i, t: detect_phi_arm(30., 30., i, t, ang_step=5.), [im, t]

    def solver(rs, n):
        from desimeter.transform.xy2tp import xy2tp
        return lambda a, b, r: xy2tp(a, b, r, t_guess=3.), [[2., 1.], [3., 3.], [[180., -180.], [200., -20.]]]

    d = dict(locals())
    return {k: v for k, v in d.items() if callable(v) and k not in ("grid",)}


READERS = ["match", "triangles", "circle", "rcircle", "gp", "pol", "stationary", "camera", "platemaker", "similarity", "rotoff", "tangent", "zb", "sro", "stuck", "spots", "flatten_table",
           "fiberassign", "fiberassign_flat", "fiberassign_inverse", "fiberassign_flat_inverse", "guider_fit", "positioners", "average", "arm", "solver"]


@sub(P, lambda: fixed(name=st.sampled_from(READERS), seed=gen.seeds(), n=st.integers(3, 12)), 700, 7000, "always", shards=3, floor=.1)
def inputs_kept(c, ctx):
    """fits, matches and detections do not modify what they are given to read, and give the same twice"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    f, args = readers()[c["name"]](rs, c["n"])
    ctx.label(c["name"])
    ctx.nontrivial(True)
    keep = [snapshot(a) for a in args]
    f(*args)
    for i, (a, k) in enumerate(zip(args, keep)):
        ctx.expect(same_snap(snapshot(a), k), "{}: argument {} modified", c["name"], i)
