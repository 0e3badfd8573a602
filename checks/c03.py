"""C03 tangent plane <-> focal plane."""
import os
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, env
from vf.gen import fixed, mix

P = "C03"
RT = 0.0284          # edge of the field, sin(1.627 deg)
RF = 414.            # mm


def adc():
    return st.one_of(gen.mix(-720., 720., 0., 180., -180., 360., -360., 720.),
                     st.integers(-36, 36).map(lambda k: 10. * k),
                     st.integers(-72000, 72000).map(lambda k: k / 100.))


@st.composite
def adc_pair(draw):
    a = draw(adc())
    m = draw(st.integers(0, 5))
    if m == 0:
        return [a, a]
    if m == 1:
        return [a, a + draw(st.sampled_from([360., -360., 180., -180., 1e-9, -1e-9, 1e-3, -1e-3, 720.]))]
    if m == 2:
        return [a, -a]
    return [a, draw(adc())]


def points(rmax):
    return st.lists(st.tuples(mix(0., rmax, 0., rmax), gen.angle()).map(list), min_size=1, max_size=6)


def xy(pts):
    p = np.array(pts)
    return p[:, 0] * np.cos(np.radians(p[:, 1])), p[:, 0] * np.sin(np.radians(p[:, 1]))


def classify(c, ctx):
    a1, a2 = c["adc"]
    d = (a2 - a1) % 360
    ctx.label("same direction", d < 1e-6 or d > 360 - 1e-6)
    ctx.label("needs wrap", a2 - a1 != d)
    ctx.label("last tabulated interval", d > 340)
    ctx.nontrivial(max(p[0] for p in c["pts"]) > 0)


def case(rmax):
    return fixed(adc=adc_pair(), pts=points(rmax))


def sel(c, x, y):
    return (float(x[0]), float(y[0])) if c["scalar"] else (x, y)      # only the axisymmetric model documents scalars


@sub(P, lambda: case(RT), 3000, 40000, "a point off axis", shards=4)
def tan_fp_tan(c, ctx):
    """tangent -> focal -> tangent plane returns the point, both optical models"""
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    x, y = xy(c["pts"])
    classify(c, ctx)
    a1, a2 = c["adc"]
    xf, yf = tan2fp(x, y, a1, a2)
    ctx.expect(np.all(np.hypot(xf, yf) < 420.), "focal-plane radius beyond the instrument")
    x2, y2 = fp2tan(xf, yf, a1, a2)
    ctx.close(x2, x, 2e-11, "xtan after round trip")
    ctx.close(y2, y, 2e-11, "ytan after round trip")


@sub(P, lambda: case(RF), 3000, 40000, "a point off axis", shards=4)
def fp_tan_fp(c, ctx):
    """focal -> tangent -> focal plane returns the point, both optical models"""
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    x, y = xy(c["pts"])
    classify(c, ctx)
    a1, a2 = c["adc"]
    xt, yt = fp2tan(x, y, a1, a2)
    ctx.expect(np.all(np.hypot(xt, yt) < 0.03), "tangent-plane radius beyond the field")
    x2, y2 = tan2fp(xt, yt, a1, a2)
    ctx.close(x2, x, 1e-6, "xfp after round trip [mm]")
    ctx.close(y2, y, 1e-6, "yfp after round trip [mm]")


@sub(P, lambda: fixed(adc=adc_pair(), pts=points(RT), k=st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list),
                      rot=mix(-400., 400., 0., 90., 180., 360., -90.)), 3000, 40000,
     "extra turns or a common rotation applied to an off-axis point", shards=4)
def adc_geometry(c, ctx):
    """full turns of either corrector change nothing; turning both rotates the pattern; model against own interpolation of the shipped coefficients"""
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    x, y = xy(c["pts"])
    a1, a2 = c["adc"]
    classify(c, ctx)
    ctx.nontrivial(max(p[0] for p in c["pts"]) > 0 and (any(c["k"]) or c["rot"] % 360 != 0))
    f = np.array(tan2fp(x, y, a1, a2))
    # full turns: same directions, same mapping (the tabulated ends 0 and 360 agree to 2 nm)
    g = np.array(tan2fp(x, y, a1 + 360. * c["k"][0], a2 + 360. * c["k"][1]))
    ctx.close(g, f, 1e-5, "focal-plane position with extra turns [mm]")
    t = np.array(fp2tan(f[0], f[1], a1, a2))
    u = np.array(fp2tan(f[0], f[1], a1 + 360. * c["k"][0], a2 + 360. * c["k"][1]))
    ctx.close(u, t, 1e-9, "tangent-plane position with extra turns")
    # both correctors rotated: the pattern rotates
    r = np.radians(c["rot"])
    cc, ss = np.cos(r), np.sin(r)
    h = np.array(tan2fp(cc * x - ss * y, ss * x + cc * y, a1 + c["rot"], a2 + c["rot"]))
    ctx.close(h[0], cc * f[0] - ss * f[1], 1e-5, "rotated pattern x [mm]")
    ctx.close(h[1], ss * f[0] + cc * f[1], 1e-5, "rotated pattern y [mm]")
    v = np.array(fp2tan(h[0], h[1], a1 + c["rot"], a2 + c["rot"]))
    ctx.close(v[0], cc * t[0] - ss * t[1], 1e-9, "rotated inverse x")
    ctx.close(v[1], ss * t[0] + cc * t[1], 1e-9, "rotated inverse y")


_table = None


def raytrace_table():
    global _table
    if _table is None:
        from astropy.table import Table
        t = Table.read(os.path.join(env.REPO, "py/desimeter/data/raytrace-tan2fp-4957-v18.csv"))
        _table = {k: np.array(t[k], dtype=float) for k in ("ADC1", "ADC2", "X_TAN", "Y_TAN", "X_FP", "Y_FP")}
    return _table


@sub(P, lambda: fixed(rows=st.lists(st.integers(0, 16396), min_size=1, max_size=40), rot=mix(-360., 360., 0., 90.),
                      k=st.integers(-2, 2)), 600, 5000, "rows from the shipped ray trace")
def raytrace(c, ctx):
    """the fitted model reproduces the shipped ray trace, for any common rotation of the correctors"""
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    t = raytrace_table()
    ctx.nontrivial()
    r = np.radians(c["rot"])
    cc, ss = np.cos(r), np.sin(r)
    for i in c["rows"]:
        i = i % len(t["ADC1"])
        a1, a2 = t["ADC1"][i] + c["rot"] + 360. * c["k"], t["ADC2"][i] + c["rot"]
        x, y = t["X_TAN"][i:i + 1], t["Y_TAN"][i:i + 1]
        xf, yf = tan2fp(cc * x - ss * y, ss * x + cc * y, a1, a2)
        X, Y = t["X_FP"][i:i + 1], t["Y_FP"][i:i + 1]
        ctx.close([xf, yf], [cc * X - ss * Y, ss * X + cc * Y], 0.0065, "ray-traced position [mm], ADC %g,%g" % (a1, a2))
        xt, yt = fp2tan(cc * X - ss * Y, ss * X + cc * Y, a1, a2)
        ctx.close([xt, yt], [cc * x - ss * y, ss * x + cc * y], 5e-7, "ray-traced direction, ADC %g,%g" % (a1, a2))


@sub(P, lambda: fixed(d=mix(0., 360., 10., 350., 355., 5., 1e-3, 359.99), m=gen.angle(), pts=points(RT)), 1000, 8000, "difference between two tabulated settings")
def between_settings(c, ctx):
    """between the tabulated corrector settings the map varies as a smooth interpolation through them"""
    from scipy.interpolate import CubicSpline
    from desimeter.transform.tan2fp import tan2fp
    x, y = xy(c["pts"])
    nodes = np.arange(0., 361., 20.)
    f = []
    for n in nodes:
        if n == 360.:
            n = 360. - 1e-9         # the end of the table, approached from below
        f.append(np.array(tan2fp(x, y, -n / 2, n / 2)))
    want = CubicSpline(nodes, np.array(f))(c["d"])
    d = c["d"]
    got = np.array(tan2fp(x, y, -d / 2, d / 2))
    ctx.nontrivial(d % 20 != 0 and max(p[0] for p in c["pts"]) > 0)
    ctx.close(got, want, 2e-3, "position between tabulated settings [mm]")
    # the same difference about another mean direction
    m = np.radians(c["m"])
    cc, ss = np.cos(m), np.sin(m)
    got2 = np.array(tan2fp(cc * x - ss * y, ss * x + cc * y, c["m"] - d / 2, c["m"] + d / 2))
    ctx.close(got2[0], cc * want[0] - ss * want[1], 2e-3, "x about another mean direction [mm]")
    ctx.close(got2[1], ss * want[0] + cc * want[1], 2e-3, "y about another mean direction [mm]")


@sub(P, lambda: fixed(a1=adc(), d=mix(0., 360., 0., 180., 360.), k=st.integers(-3, 3)), 600, 5000, "any pair")
def mean_direction(c, ctx):
    """mean direction of angles against vector sums, for all descriptions of the same directions"""
    from desimeter.transform.tan2fp.raytracefit import average_angles_adc, delta_angles_adc
    a1, d = c["a1"], c["d"]
    ctx.nontrivial()
    m = average_angles_adc(a1, a1 + d + 360. * c["k"])
    alt = (m - a1 - d / 2 + 180) % 360 - 180
    # at a multiple of a full turn both ends of the table describe the same mapping
    seam = d < 1e-6 or d > 360 - 1e-6
    ctx.expect(abs(alt) < 1e-6 or (seam and abs(abs(alt) - 180) < 1e-6),
               "mean direction of %r and %r is %r" % (a1, a1 + d + 360. * c["k"], m))
    dd = delta_angles_adc(a1, a1 + d + 360. * c["k"])
    ctx.expect(0 <= dd <= 360, "difference outside [0,360]")
    ctx.angle_close(dd, d, 1e-6, "difference of directions")


_echo = None


def echo_table():
    global _echo
    if _echo is None:
        _echo = np.loadtxt(os.path.join(env.REPO, "py/desimeter/transform/tan2fp/data/Echo22Platescale.txt"), usecols=[0, 1])
        _echo = _echo[_echo[:, 0] <= 414]
    return _echo


@sub(P, lambda: fixed(pts=points(RF), rot=gen.angle(), rows=st.lists(st.integers(0, 414), min_size=1, max_size=8), scalar=st.booleans()),
     1500, 15000, "a point off axis")
def axisymmetric_model(c, ctx):
    """the axisymmetric model against its documented polynomial"""
    from desimeter.transform.tan2fp import echo22 as E
    x, y = sel(c, *xy(c["pts"]))
    ctx.nontrivial(max(p[0] for p in c["pts"]) > 0)
    xt, yt = E.fp2tan(x, y)
    x2, y2 = E.tan2fp(xt, yt)
    ctx.close(x2, x, 1.0e-3, "xfp after round trip [mm]")
    ctx.close(y2, y, 1.0e-3, "yfp after round trip [mm]")
    x3, y3 = E.fp2tan(x2, y2)
    ctx.close(np.hypot(x3 - xt, y3 - yt), 0 * np.asarray(x3), 6e-8, "tangent plane after round trip")
    # direction is kept, and the map commutes with rotations
    ctx.close(xt * y - yt * x, 0 * np.asarray(x), 1e-6, "direction kept")
    ctx.expect(np.all(xt * x + yt * y >= -1e-4), "direction flipped")
    cc, ss = np.cos(np.radians(c["rot"])), np.sin(np.radians(c["rot"]))
    xr, yr = E.fp2tan(cc * x - ss * y, ss * x + cc * y)
    ctx.close([xr, yr], [cc * xt - ss * yt, ss * xt + cc * yt], 7e-8, "rotated")
    t = echo_table()
    rows = np.array(c["rows"]) % len(t)
    ctx.close(E.radius2theta(t[rows, 0]), t[rows, 1], 4e-6, "angle of tabulated radius [deg]")
    ctx.close(E.theta2radius(t[rows, 1]), t[rows, 0], 1e-3, "radius of tabulated angle [mm]")
    xt, yt = E.fp2tan(t[rows, 0] * cc, t[rows, 0] * ss)
    ctx.close(np.hypot(xt, yt), np.sin(np.radians(t[rows, 1])), 1e-7, "sine of tabulated angle")


def own_model(seed, size):
    """a model with random terms that vary slowly with the difference of the corrector angles"""
    rs = np.random.RandomState(seed % 2**32)
    d = np.arange(0., 361., [20., 40., 60.][seed % 3])
    o = rs.permutation(len(d))                      # settings need not be sorted
    ph = lambda a: a * np.cos(np.radians(d) * rs.randint(0, 2) + rs.uniform(0, 6.28))[o]
    ids = np.array([0, 1, 2, 3, 4, 5, 6, 9, 14, 15, 20, 27, 28, 29, 30])
    return rs, d[o], dict(scale=1 + ph(.02 * size), rotation=ph(.1 * size), offset_x=ph(.005 * size), offset_y=ph(.005 * size)), ids, np.array([ph(size * (.05 if i == 2 else .002)) for i in ids]).T


@sub(P, lambda: fixed(seed=gen.seeds(), size=mix(0., 1., 1.), rot=gen.angle(), k=st.integers(-1, 1), pts=points(RT)), 400, 4000, "rotated and distorted model", shards=2)
def any_model(c, ctx):
    """whatever the content of a model, its inverse undoes it, at and between its settings"""
    from vf import zb
    from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
    rs, d, q, ids, co = own_model(c["seed"], c["size"])
    t = TAN2FP_RayTraceFit()
    t.adc1, t.adc2, t.zbpolids, t.zbcoeffs = -d / 2, d / 2, ids, co
    for k, v in q.items():
        setattr(t, k, v)
    x, y = xy(c["pts"])
    ctx.nontrivial(c["size"] > .1 and max(p[0] for p in c["pts"]) > 0)
    i = int(rs.randint(len(d)))
    if d[i] >= 360:
        i = int(np.argmin(d))
    r = np.radians(c["rot"])
    cc, ss = np.cos(r), np.sin(r)
    f = np.array(t.tan2fp(cc * x - ss * y, ss * x + cc * y, c["rot"] - d[i] / 2 + 360. * c["k"], c["rot"] + d[i] / 2))
    want = 420. * np.array(zb.forward(x / .027, y / .027, q["scale"][i], q["rotation"][i], q["offset_x"][i], q["offset_y"][i], ids, co[i]))
    ctx.close(f, [cc * want[0] - ss * want[1], ss * want[0] + cc * want[1]], 1e-6, "position at a setting [mm]")
    a1, a2 = rs.uniform(0, 360, 2)
    u = np.array(t.fp2tan(*t.tan2fp(x, y, a1, a2), a1, a2))
    ctx.close(u, [x, y], 1e-9, "inverse")


@sub(P, lambda: fixed(seed=gen.seeds(), size=mix(0., 1., 1.), n=st.sampled_from([30, 60, 200])), 60, 600, "distorted model", shards=2)
def refit(c, ctx):
    """a model fitted to a ray trace reproduces it at every traced setting"""
    from astropy.table import Table
    from vf import zb
    from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
    rs, d, q, ids, co = own_model(c["seed"], c["size"])
    ctx.nontrivial(c["size"] > .1)
    rows = []
    for i in range(len(d)):
        a, r = rs.uniform(0, 2 * np.pi, c["n"]), .98 * np.sqrt(rs.rand(c["n"]))
        x, y = r * np.cos(a), r * np.sin(a)
        X, Y = zb.forward(x, y, 1., 0., 0., 0., ids, co[i])
        rows.append(np.array([np.full(c["n"], -d[i] / 2), np.full(c["n"], d[i] / 2), .027 * x, .027 * y, 420. * X, 420. * Y]).T)
    rows = np.concatenate(rows)
    rows = rows[rs.permutation(len(rows))]
    t = TAN2FP_RayTraceFit()
    t.fit(Table(rows=rows, names=["ADC1", "ADC2", "X_TAN", "Y_TAN", "X_FP", "Y_FP"]))
    ctx.expect(sorted(zip(t.adc1, t.adc2)) == sorted(zip(-d / 2, d / 2)), "settings {} {}", t.adc1, t.adc2)
    for v in d[d < 360]:
        w = rows[rows[:, 1] == v / 2]
        ctx.close(t.tan2fp(w[:, 2], w[:, 3], -v / 2, v / 2), w[:, 4:].T, 1e-5, "traced positions with ADC %g %g [mm]" % (-v / 2, v / 2))
