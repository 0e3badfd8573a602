"""C02 apparent-place steps against an independent model."""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, sky
from vf.gen import fixed, mix

P = "C02"
AS = 1 / 206265.


def lonlat_case(n=6):
    return fixed(lon=st.lists(gen.angle(-400., 760.), min_size=1, max_size=n),
                 lat=st.lists(mix(-89.9, 89.9, 0., 31.96403, -30., 89.9, -89.9), min_size=1, max_size=n),
                 mjd=mix(40000., 75000., 51544.5), scalar=st.booleans())


def pick(c):
    n = min(len(c["lon"]), len(c["lat"]))
    lon, lat = np.array(c["lon"][:n]), np.array(c["lat"][:n])
    if c["scalar"]:
        return float(lon[0]), float(lat[0])
    return lon, lat


def same_dir(ctx, a, b, tol, what):
    s = sky.sep(a[0], a[1], b[0], b[1])
    ctx.expect(np.shape(a[0]) == np.shape(b[0]), "%s: shape %s vs %s", what)
    ctx.close(s, np.zeros_like(s), tol, what + " [arcsec]")


@sub(P, lonlat_case, 1500, 20000, "a position away from the poles and the coordinate origin", shards=4)
def steps(c, ctx):
    """each elementary step against an own vector model, and its inverse"""
    from desimeter.transform import radec2tan as R
    lon, lat = pick(c)
    mjd = c["mjd"]
    ctx.nontrivial(bool(np.any(np.abs(lat) < 89) and np.any(np.asarray(lon) % 90 != 0)))
    same_dir(ctx, R.apply_precession_from_icrs(lon, lat, mjd), sky.precess(lon, lat, mjd), 2e-2, "precession")
    same_dir(ctx, R.undo_precession_from_icrs(*R.apply_precession_from_icrs(lon, lat, mjd), mjd), (lon, lat), 2e-2,
             "precession undone")
    same_dir(ctx, R.apply_aberration(lon, lat, mjd), sky.aberrate(lon, lat, mjd), 2e-2, "aberration")
    alt, az = R.hadec2altaz(lon, lat)
    ra, rz = sky.hadec2altaz(lon, lat)
    alt = (np.asarray(alt) + 180.) % 360. - 180.       # below the horizon the code reports alt+360
    same_dir(ctx, (az, alt), (rz, ra), 2e-2, "hour angle/declination to azimuth/altitude")
    same_dir(ctx, R.altaz2hadec(lat, lon), sky.altaz2hadec(lat, lon), 2e-2, "altitude/azimuth to hour angle/declination")
    h, d = R.altaz2hadec(*R.hadec2altaz(lon, lat))
    same_dir(ctx, (h, d), (lon, lat), 2e-2, "altaz round trip")
    e = R.radec2eclip(lon, lat)
    v = sky.vec(lon, lat) @ sky.rot('x', -sky.OBLIQ).T
    same_dir(ctx, e, sky.lonlat(v), 2e-2, "ecliptic coordinates")
    same_dir(ctx, R.eclip2radec(*e), (lon, lat), 2e-2, "ecliptic round trip")


@sub(P, lambda: fixed(ra=gen.angle(), dec=mix(-60., 88., 0.), th=gen.angle(), td=mix(-60., 88., 0., 90.),
                      r=mix(0., 2.5, 0.), phi=gen.angle()), 1500, 20000,
     "off-axis point", shards=2)
def projection(c, ctx):
    """gnomonic-free orthographic projection: x = sin(theta) cos(phi), +x larger HA, +y larger Dec"""
    from desimeter.transform import radec2tan as R
    th, td, r, phi = c["th"], c["td"], c["r"], c["phi"]
    # phi from +x (increasing hour angle) towards +y (increasing declination)
    h, d = sky.offset(th, td, r, 90. - phi)
    x, y = R.hadec2xy(h, d, th, td)
    s = np.sin(np.radians(r))
    ctx.nontrivial(r > 0.01)
    ctx.close(x, s * np.cos(np.radians(phi)), 1e-10, "x = sin(theta)cos(phi)")
    ctx.close(y, s * np.sin(np.radians(phi)), 1e-10, "y = sin(theta)sin(phi)")
    h2, d2 = R.xy2hadec(np.array([x]), np.array([y]), th, td)
    ctx.close(sky.sep(h2, d2, h, d), np.zeros(1), 2e-2 if 90 - abs(td) - r > 0.2 else 60., "projection inverse [arcsec]")
    h2, d2 = R.xy2hadec(float(x), float(y), th, td)
    ctx.close(sky.sep(h2, d2, h, d), 0., 2e-2 if 90 - abs(td) - r > 0.2 else 60., "projection inverse, scalar [arcsec]")


@sub(P, lambda: fixed(alt=st.lists(mix(15., 90., 30., 90., 45.), min_size=1, max_size=6), scalar=st.booleans()),
     600, 5000, "altitude below 89 deg")
def refraction(c, ctx):
    """refraction against the documented formula, and undone"""
    from desimeter.transform import radec2tan as R
    alt = np.array(c["alt"]) if not c["scalar"] else float(c["alt"][0])
    ctx.nontrivial(bool(np.min(alt) < 89))
    app = R.apply_refraction(alt)
    ctx.close(app, sky.refract(alt), 1e-9, "refracted altitude")
    if not c["scalar"]:
        app2 = R.apply_refraction(alt)
        keep = app2.copy()
        back = R.undo_refraction(app2.copy())
        ctx.close(app2, keep, 0., "refracted altitude is an input")
    else:
        back = R.undo_refraction(app)
    t = np.tan(np.radians(alt))
    k = np.radians(79. / 3600. * np.tan(np.radians(30.)))
    ctx.close(back, alt, np.degrees(3 * (k / t) * (k * (1 + 1 / t**2))**2) + 1e-10, "refraction undone")
    ctx.close(R.apply_refraction(30.) - 30., 79. / 3600., 1e-9, "79 arcsec at 30 deg")


def chain_case():
    b = st.booleans()
    return fixed(p=gen.pointing(), off=st.lists(st.tuples(mix(0., 1.7, 0., 1.65), gen.angle()).map(list), min_size=1, max_size=5),
                 precession=b, aberration=b, polar_misalignment=b, hard=b, scalar=b)


@sub(P, chain_case, 4000, 60000, "some point more than 0.01 deg off the pointing", shards=6)
def chain(c, ctx):
    """the complete chain against an own model; pointing at the origin; the hexapod rotates the field counter-clockwise"""
    from desimeter.transform.radec2tan import radec2tan
    p = c["p"]
    off = np.array(c["off"])
    ra, dec = sky.offset(p["ra"], p["dec"], off[:, 0], off[:, 1])
    if c["scalar"]:
        ra, dec = float(ra[0]), float(dec[0])
    o = {k: c[k] for k in ("precession", "aberration", "polar_misalignment")}
    args = (p["ra"], p["dec"], p["mjd"], p["lst"], p["hexrot"])
    x, y = radec2tan(ra, dec, *args, use_hardcoded_polmis_rotmat=c["hard"], **o)
    xr, yr = sky.radec2tan(ra, dec, *args, **o)
    ctx.nontrivial(max(o[0] for o in c["off"]) > 0.01)
    ctx.label("scalar", c["scalar"])
    ctx.label("all corrections", all(o.values()))
    ctx.label("near zenith", p["alt"] > 85)
    tol = 2e-4 * AS
    ctx.close(x, xr, tol, "x_tan against the model")
    ctx.close(y, yr, tol, "y_tan against the model")
    x0, y0 = radec2tan(p["ra"], p["dec"], *args, use_hardcoded_polmis_rotmat=c["hard"], **o)
    ctx.close(np.hypot(x0, y0), 0., tol, "pointing maps to the origin")
    # the hexapod rotates the whole field, counter-clockwise for positive angles
    x1, y1 = radec2tan(ra, dec, p["ra"], p["dec"], p["mjd"], p["lst"], 0., use_hardcoded_polmis_rotmat=c["hard"], **o)
    cc, ss = np.cos(np.radians(p["hexrot"])), np.sin(np.radians(p["hexrot"]))
    ctx.close(x, cc * x1 - ss * y1, 1e-12, "hexapod rotation x")
    ctx.close(y, ss * x1 + cc * y1, 1e-12, "hexapod rotation y")


@sub(P, lambda: fixed(p=gen.pointing(), off=gen.field_offsets(2, 5)), 500, 5000, "off-axis point", shards=4)
def astropy_option(c, ctx):
    """the astropy implementation against the built-in one, and astropy called directly"""
    from desimeter.transform.radec2tan import radec2tan, tan2radec
    p = c["p"]
    off = np.array(c["off"])
    if abs(p["dec"]) > 78:
        return
    ra, dec = sky.offset(p["ra"], p["dec"], off[:, 0], off[:, 1])
    v = sky.rot('x', sky.OBLIQ) @ sky.vec(sky.sun_lon(p["mjd"]), 0.)
    sl, sb = sky.lonlat(v)
    if sky.sep(p["ra"], p["dec"], sl, sb) < 40 * 3600.:
        return                                   # light deflection near the Sun is only in the library's model
    ctx.nontrivial(bool(np.max(off[:, 0]) > 0.1))
    args = (p["ra"], p["dec"], p["mjd"], p["lst"], p["hexrot"])
    for o in (dict(), dict(precession=False), dict(aberration=False)):
        x, y = radec2tan(ra, dec, *args, **o)
        xa, ya = radec2tan(ra, dec, *args, use_astropy=True, **o)
        ctx.close(np.hypot(x - xa, y - ya), np.zeros(len(ra)), 0.7 * AS, "built-in and library apparent places %s" % o)
    r, d = tan2radec(xa, ya, *args, use_astropy=True, aberration=False)
    r2, d2 = tan2radec(xa, ya, *args, aberration=False)
    s = sky.sep(r, d, r2, d2)
    ctx.close(s, np.zeros_like(s), 0.7, "built-in and library inverse [arcsec]")


@sub(P, lambda: fixed(ha=gen.angle(), dec=mix(-89., 89.9, 0.)), 400, 4000, "any direction")
def misalignment(c, ctx):
    """tabulated and computed misalignment rotations against an own rotation; both are rotations and mutual inverses"""
    from desimeter.transform import radec2tan as R
    M = R.compute_polar_misalignment_rotation_matrix(me_arcsec=R.ME_ARCSEC, ma_arcsec=R.MA_ARCSEC)
    Mi = R.compute_polar_misalignment_rotation_matrix(me_arcsec=-R.ME_ARCSEC, ma_arcsec=-R.MA_ARCSEC)
    H, Hi = R.get_hardcoded_polmis_rotmat(), R.get_hardcoded_polmis_rotmat(inverse=True)
    ctx.nontrivial()
    ctx.close(H, M, 1e-13, "tabulated misalignment matrix")
    ctx.close(Hi, Mi, 1e-13, "tabulated inverse misalignment matrix")
    for m in (M, Mi, H, Hi):
        ctx.close(m @ m.T, np.eye(3), 1e-12, "misalignment matrix is a rotation")
    ctx.close(M @ Mi, np.eye(3), 1e-8, "misalignment matrices are mutually inverse")
    got = R.getLONLAT(M.dot(R.getXYZ(c["ha"], c["dec"])))
    same_dir(ctx, got, sky.polmis(c["ha"], c["dec"]), 2e-2, "misalignment rotation")


@sub(P, lambda: fixed(me=mix(-600., 600., 0.), ma=mix(-600., 600., 0.)), 300, 3000, "non-zero misalignment")
def any_misalignment(c, ctx):
    """for any misalignment the returned rotation takes the mount pole to the true pole"""
    from desimeter.transform import radec2tan as R
    M = R.compute_polar_misalignment_rotation_matrix(c["me"], c["ma"])
    ctx.nontrivial(c["me"] != 0 or c["ma"] != 0)
    ctx.close(M @ M.T, np.eye(3), 1e-12, "rotation")
    h, d = sky.altaz2hadec(sky.LAT - c["me"] / 3600., c["ma"] / 3600.)
    ctx.close(M @ sky.vec(h, d), [0, 0, 1], 5e-9, "mount pole moved to the true pole")


@sub(P, lambda: fixed(mjd=mix(45000., 80000., 51544.5, 58789.135177), days=st.integers(-400, 400)), 600, 6000, "any date")
def sidereal_time(c, ctx):
    """sidereal time against an own formula and astropy"""
    import erfa
    from desimeter.time import mjd2lst
    m = c["mjd"]
    ctx.nontrivial()
    l = mjd2lst(m)
    ctx.expect(0. <= l < 360., "LST %r outside [0,360)" % l)
    g = erfa.gmst82(2400000.5, m) * 180 / np.pi
    ctx.angle_close(l, g - 111.59989 - 0.16035388, 2e-6, "LST against a standard GMST")
    m2 = m + c["days"] * 0.99726956633          # mean sidereal day
    ctx.angle_close(mjd2lst(m2), l, 2e-4, "LST repeats after whole sidereal days")
    a = mjd2lst(np.array([m, m2]))
    ctx.close(a, [l, mjd2lst(m2)], 1e-12, "array of dates")
    # telescope-reported values quoted with the code
    ctx.angle_close(mjd2lst(58789.135177), 338.01969167, 2e-4, "recorded telescope LST (1)")
    ctx.angle_close(mjd2lst(58865.540489), 199.24148750, 2e-3, "recorded telescope LST (2)")


@sub(P, lambda: fixed(a=st.lists(gen.angle(-1000., 1000.), min_size=1, max_size=5),
                      b=gen.angle(-1000., 1000.), r=mix(1e-3, 1e3, 1.)), 800, 8000, "any angles")
def angle_helpers(c, ctx):
    """angle helpers against trigonometry"""
    from desimeter import trig as T
    a, b, r = np.array(c["a"]), c["b"], c["r"]
    ctx.nontrivial()
    for f, g in ((T.sind, np.sin), (T.cosd, np.cos)):
        ctx.close(f(a), g(np.radians(a)), 1e-12, f.__name__)
        ctx.close(f(b), g(np.radians(b)), 1e-12, f.__name__ + " scalar")
    s, co = T.sincosd(a)
    ctx.close(s, np.sin(np.radians(a)), 1e-12, "sin")
    ctx.close(co, np.cos(np.radians(a)), 1e-12, "cos")
    p = T.put360(a)
    ctx.expect(np.all((p >= 0) & (p <= 360)), "put360 outside [0,360]")
    ctx.angle_close(p, a, 1e-9, "put360")
    t = T.arctan2d(r * np.sin(np.radians(a)), r * np.cos(np.radians(a)))
    ctx.expect(np.all((t >= 0) & (t <= 360)), "arctan2d outside [0,360]")
    ctx.angle_close(t, a, 1e-9, "arctan2d")
    ctx.close(T.arcsind(np.clip(s, -1, 1)), np.degrees(np.arcsin(np.clip(s, -1, 1))), 1e-9, "arcsind")
    ok = np.abs(np.cos(np.radians(a))) > 1e-3
    ctx.close(T.tand(a)[ok], np.tan(np.radians(a[ok])), 1e-6, "tand")
    ctx.close(T.rot2deg(b) @ T.rot2deg(-b), np.eye(2), 1e-12, "2-d rotation inverse")
    ctx.close(T.rot2deg(b) @ [1, 0], [np.cos(np.radians(b)), np.sin(np.radians(b))], 1e-12, "2-d rotation")
    v = r * T.getXYZ(a, np.clip(b % 180 - 90, -89, 89) + 0 * a)
    ctx.close(T.getNorm(v), r + 0 * a, 1e-9 * r, "norm")
    ctx.close(T.getNormalized(v), v / r, 1e-12, "normalised")
    # middle direction of two directions less than a half turn apart
    d = (b % 179.) * (1 if b > 0 else -1)
    m = T.average_angles_deg(a, a + d)
    ctx.angle_close(m, a + d / 2, 1e-6, "middle of two directions")
    ctx.angle_close(T.average_angles_deg(a + d, a), m, 1e-6, "middle is symmetric")
