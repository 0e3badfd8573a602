"""C21 fibre assignment coordinates"""
import json
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, sky, data, zb
from vf.gen import fixed, uni, mix

P = "C21"
D = np.pi / 180


def tile():
    return dict(p=gen.pointing(altmin=30.), rot=mix(-2., 2., 0., .1), seed=gen.seeds(), n=st.integers(8, 60), adc=st.sampled_from(["default", "default", "given", "equal"]), a1=gen.angle(0., 360.), a2=gen.angle(0., 360.),
                pm=st.booleans(), hard=st.sampled_from([False, False, True]))


def targets(c):
    """targets all over the field, the tile centre first"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    p = c["p"]
    ra, dec = sky.offset(p["ra"], p["dec"], np.r_[0., 1.55 * np.sqrt(rs.rand(c["n"]))], rs.uniform(0, 360, c["n"] + 1))
    return rs, ra, dec


def params(c):
    p = c["p"]
    ha = (p["lst"] - p["ra"] + 180.) % 360. - 180.
    a = (p["ra"], p["dec"], p["mjd"], ha, c["rot"])
    kw = dict(use_hardcoded_polmis_rotmat=c["hard"]) if c["hard"] else {}
    if c["adc"] != "default":
        kw.update(adc1=c["a1"], adc2=c["a2"] if c["adc"] == "given" else c["a1"])
    return a, kw


def own_adc(ha, dec):
    """zenith distance and parallactic angle from vectors, tabulated strength"""
    al, az = sky.hadec2altaz(ha, dec)
    v, z, n = sky.vec(-ha, dec), np.array([np.cos(sky.LAT * D), 0, np.sin(sky.LAT * D)]), np.array([0, 0, 1.])
    tp = lambda w: w - (w @ v) * v
    a, b = tp(n), tp(z)
    psi = np.arctan2(np.cross(a, b) @ v, a @ b) / D
    t = np.tan(min(90. - al, 60.) * D)
    dd = 2 * (-.0183 - .3795 * t - .1939 * t * t) / D
    return -psi + dd / 2., -psi - dd / 2.


def angle_of(ra, dec, ra0, dec0, x, y):
    """mean rotation of focal plane with respect to the sky, of the points off centre"""
    v = sky.vec(-ra, dec)
    X, Y = v @ sky.vec(-ra0 + 90., 0.), v @ sky.vec(-ra0, dec0 + 90.)
    k = np.hypot(x, y) > 10
    a = (np.degrees(np.arctan2(y, x) - np.arctan2(Y, X))[k] + 180) % 360 - 180
    return np.degrees(np.mean(np.sin(a * D))), a, k


def ok(c, ctx):
    p = c["p"]
    if abs(p["dec"]) > 85 or p["alt"] > 88.5:
        ctx.label("pole or zenith")
        return False
    ctx.label(c["adc"])
    ctx.label("platemaker" if c["pm"] else "desimeter")
    return True


_dm = {}


def dm2pm(x, y):
    if not _dm:
        _dm.update(json.load(open(data.path("dm2pm.json"))))
    dx, dy = zb.eval(_dm["zbpolids"], _dm["dm2pm_zbcoeffs"], x / 420., y / 420.)
    return x + 420 * dx, y + 420 * dy


def slack(c):
    return .12 + .03 / np.cos((abs(c["p"]["dec"]) + 1.6) * D if abs(c["p"]["dec"]) < 86 else 1.5)


@sub(P, lambda: fixed(**tile()), 500, 5000, "rotation requested", shards=8)
def forward(c, ctx):
    """centre, rotation, agreement with the model of sky and optics"""
    from desimeter import fiberassign as F
    if not ok(c, ctx):
        return
    rs, ra, dec = targets(c)
    a, kw = params(c)
    ctx.nontrivial(c["rot"] != 0)
    keep = ra.copy(), dec.copy()
    x, y = F.fiberassign_radec2xy_cs5(ra, dec, *a, to_platemaker=c["pm"], **kw)
    ctx.expect(np.array_equal(keep[0], ra) and np.array_equal(keep[1], dec), "inputs modified")
    ctx.expect(x.shape == ra.shape and y.shape == ra.shape, "shapes")
    zx, zy = dm2pm(0., 0.) if c["pm"] else (0., 0.)
    ctx.close(np.hypot(x[0], y[0]), np.hypot(zx, zy), 2e-4, "distance of the tile centre to the centre of the focal plane [mm]")
    r, each, k = angle_of(ra, dec, a[0], a[1], x, y)
    ctx.close(r, c["rot"], 2e-3 + 2 * (np.abs(each).max() * D) ** 3 / D, "realised field rotation [deg]")
    # shape: the positions are those of sky and optics up to a rotation about the centre
    from desimeter.transform.tan2fp.raytracefit import tan2fp
    adc = (kw["adc1"], kw["adc2"]) if "adc1" in kw else own_adc(a[3], a[1])
    if not c["hard"]:
        tra, tdec = a[0], a[1]
        lst = a[3] + a[0]
        for _ in range(6):        # pointing that brings the tile to the centre
            h = 1e-4
            U = lambda t, d: np.array([q[0] for q in tan2fp(*sky.radec2tan(np.array([a[0]]), np.array([a[1]]), t, d, a[2], lst, 0.), *adc)])
            f0 = U(tra, tdec)
            J = np.stack([(U(tra + h, tdec) - f0) / h, (U(tra, tdec + h) - f0) / h], axis=1)
            dt = np.linalg.solve(J, -f0)
            tra, tdec = tra + dt[0], tdec + dt[1]
        u, v = tan2fp(*sky.radec2tan(ra, dec, tra, tdec, a[2], lst, 0.), *adc)
        if c["pm"]:
            u, v = dm2pm(u, v)
        b = (c["rot"] - angle_of(ra, dec, a[0], a[1], u, v)[0]) * D
        wx, wy = np.cos(b) * u - np.sin(b) * v, np.sin(b) * u + np.cos(b) * v
        # (an average of sines is not exactly additive)
        tol = 2e-3 + np.hypot(u, v) * (2e-6 + 2 * (np.abs(each).max() * D) ** 3)
        ctx.close(np.hypot(x - wx, y - wy), 0., tol, "against the independent model [mm]")
    q = rs.permutation(len(ra))
    x2, y2 = F.fiberassign_radec2xy_cs5(ra[q], dec[q], *a, to_platemaker=c["pm"], **kw)
    ctx.close([x2, y2], [x[q], y[q]], 1e-7, "targets in another order")
    ra3, dec3 = np.r_[np.nan, ra], np.r_[dec[0], dec]
    x3, y3 = F.fiberassign_radec2xy_cs5(ra3, dec3, *a, to_platemaker=c["pm"], **kw)
    ctx.close([x3[1:], y3[1:]], [x, y], 1e-9, "with a target that has no coordinates")
    ctx.expect(np.isnan(x3[0]) and np.isnan(y3[0]), "target without coordinates got {}", x3[0])


@sub(P, lambda: fixed(**tile()), 500, 5000, "rotation requested", shards=8)
def back(c, ctx):
    """sky -> focal plane -> sky, and the flat coordinates"""
    from desimeter import fiberassign as F
    if not ok(c, ctx):
        return
    rs, ra, dec = targets(c)
    a, kw = params(c)
    ctx.nontrivial(c["rot"] != 0)
    t, f = dict(kw, to_platemaker=c["pm"]), dict(kw, from_platemaker=c["pm"])
    x, y = F.fiberassign_radec2xy_cs5(ra, dec, *a, **t)
    keep = x.copy(), y.copy()
    r2, d2 = F.fiberassign_cs5_xy2radec(x, y, *a, **f)
    ctx.expect(np.array_equal(keep[0], x) and np.array_equal(keep[1], y), "inputs modified")
    ctx.close(sky.sep(ra, dec, r2, d2), 0., slack(c), "sky to focal plane and back [arcsec]")
    xf, yf = F.fiberassign_radec2xy_flat(ra, dec, *a, **t)
    r3, d3 = F.fiberassign_flat_xy2radec(xf, yf, *a, **f)
    ctx.close(sky.sep(ra, dec, r3, d3), 0., slack(c) + .08, "sky to flat coordinates and back [arcsec]")
    k = np.hypot(x, y) > 1e-3
    ctx.angle_close(np.degrees(np.arctan2(yf, xf))[k], np.degrees(np.arctan2(y, x))[k], 1e-8, "azimuth of flat coordinates")
    from desimeter.transform.pos2ptl import ptl2flat
    ctx.close(ptl2flat(x, y), [xf, yf], 1e-9, "flat coordinates of the same points")
    r, rf = np.hypot(x, y), np.hypot(xf, yf)
    ctx.expect(np.all((rf - r)[k] >= -1e-6) and np.all(rf - r < 1.), "path length {} for radius {}", rf[np.argmax(np.abs(rf - r))], r[np.argmax(np.abs(rf - r))])
    # defaults are platemaker coordinates
    ctx.close(F.fiberassign_radec2xy_cs5(ra, dec, *a, **kw), F.fiberassign_radec2xy_cs5(ra, dec, *a, **dict(kw, to_platemaker=True)), 1e-12, "default system")


@sub(P, lambda: fixed(ha=st.one_of(mix(-60., 60., 0.), mix(-180., 180.)), dec=mix(-30., 89., 0., 31.96403), which=st.sampled_from(["adc1", "adc2"]), pts=st.lists(st.tuples(mix(-80., 80., 0.), mix(-30., 89., 0.)).map(list), min_size=1, max_size=5)), 600, 6000, "off zenith", shards=2)
def corrector(c, ctx):
    """default corrector angles; incomplete settings are refused"""
    from desimeter import fiberassign as F
    al, az = sky.hadec2altaz(c["ha"], c["dec"])
    ctx.nontrivial(al < 89)
    if al < 89.9:
        w = own_adc(c["ha"], c["dec"])
        g = F.pm_get_adc_angles(c["ha"], c["dec"])
        ctx.angle_close(np.array(g), np.array(w), .02 / np.cos(al * D) if al > 0 else .02, "corrector angles")
    h, d = np.array(c["pts"]).T
    g = F.pm_get_adc_angles(h, d)
    ctx.close(np.array(g).T, [F.pm_get_adc_angles(float(i), float(j)) for i, j in zip(h, d)], 1e-9, "arrays and scalars")
    ra, dec = sky.offset(30., 20., np.array([0., 1., 1.]), np.array([0., 10., 200.]))
    a = (30., 20., 59000., 5., 0.)
    for f in (F.fiberassign_radec2xy_cs5, F.fiberassign_radec2xy_flat, F.fiberassign_cs5_xy2radec, F.fiberassign_flat_xy2radec):
        ctx.raises((ValueError,), lambda: f(ra, dec, *a, **{c["which"]: 20.}), "only one corrector angle")
        ctx.raises((ValueError,), lambda: f(ra, dec, *a, **{c["which"]: 0.}), "only one corrector angle of zero")
