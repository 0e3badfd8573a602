"""C01 sky <-> tangent plane round trip."""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, sky
from vf.gen import fixed, mix

P = "C01"


def options():
    b = st.booleans()
    return fixed(precession=b, aberration=b, polar_misalignment=b,
                 use_hardcoded_polmis_rotmat=b, use_astropy=st.sampled_from([False] * 15 + [True]))


def radius():
    return mix(0., 1.7, 0., 1.65, 1e-6, 0.1)


def case():
    return fixed(p=gen.pointing(), opts=options(),
                 off=st.lists(st.tuples(radius(), gen.angle()).map(list), min_size=1, max_size=5),
                 scalar=st.booleans())


def tolerance(pt, pole_dist, alt, opts):
    """mas-level bound from the documented first-order steps (arcsec)."""
    tol = 1e-4
    if opts["polar_misalignment"]:
        tol += 2.2e-3                            # inverse matrix computed from the opposite misalignment
    t = np.tan(np.radians(np.clip(alt, 15., 89.9)))
    k = np.radians(79. / 3600. * np.tan(np.radians(30.)))
    # two fixed-point steps of the cot law: residual = R * R'^2
    tol = tol + 3 * (k / t) * (k * (1 + 1 / t**2))**2 * 206265.
    if opts["aberration"]:
        tol = tol + 2.2 * (1e-4)**2 * 206265. / np.sin(np.radians(np.maximum(pole_dist, .3)))
    return tol


def setup(c):
    p, o = c["p"], c["opts"]
    off = np.array(c["off"])
    ra, dec = sky.offset(p["ra"], p["dec"], off[:, 0], off[:, 1])
    if c["scalar"]:
        ra, dec = float(ra[0]), float(dec[0])
    args = (p["ra"], p["dec"], p["mjd"], p["lst"], p["hexrot"])
    a, d = (sky.precess(ra, dec, p["mjd"]) if o["precession"] else (ra, dec))
    pole = 90. - np.abs(np.asarray(d)) - 0.01
    return ra, dec, args, o, pole


def classify(c, ctx, pole):
    p = c["p"]
    ctx.label("near zenith", p["alt"] > 85)
    ctx.label("low altitude", p["alt"] < 30)
    ctx.label("near RA origin", p["ra"] < 2 or p["ra"] > 358)
    ctx.label("astropy", c["opts"]["use_astropy"])
    ctx.label("near pole", np.min(pole) < 10)
    ctx.label("scalar", c["scalar"])
    ctx.nontrivial(max(o[0] for o in c["off"]) > 0.01)


@sub(P, case, 4000, 60000, "some point more than 0.01 deg off the pointing", shards=8)
def sky_tan_sky(c, ctx):
    """sky -> tangent plane -> sky returns the sky position, within the documented first-order errors"""
    from desimeter.transform.radec2tan import radec2tan, tan2radec
    ra, dec, args, o, pole = setup(c)
    if np.min(pole) < 1.0:
        return
    classify(c, ctx, pole)
    x, y = radec2tan(ra, dec, *args, **o)
    ctx.expect(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "tangent-plane coordinates not finite")
    ra2, dec2 = tan2radec(x, y, *args, **o)
    s = sky.sep(ra, dec, ra2, dec2)
    tol = tolerance(p := c["p"], pole, p["alt"] - 1.8, o)
    ctx.close(s, np.zeros_like(s), tol, "sky separation after round trip [arcsec]")


@sub(P, case, 3000, 40000, "some point more than 0.01 deg off the pointing", shards=4)
def tan_sky_tan(c, ctx):
    """tangent plane -> sky -> tangent plane returns the point"""
    from desimeter.transform.radec2tan import radec2tan, tan2radec
    ra, dec, args, o, pole = setup(c)
    if np.min(pole) < 1.0:
        return
    classify(c, ctx, pole)
    off = np.array(c["off"])
    x = np.sin(np.radians(off[:, 0])) * np.cos(np.radians(off[:, 1]))
    y = np.sin(np.radians(off[:, 0])) * np.sin(np.radians(off[:, 1]))
    # directions differ from the sky offsets used for `pole`, so use the pointing's own pole distance
    pd = 90. - abs(c["p"]["dec"]) - 2.3
    if pd < 1.0:
        return
    if c["scalar"]:
        x, y = float(x[0]), float(y[0])
    r, d = tan2radec(x, y, *args, **o)
    x2, y2 = radec2tan(r, d, *args, **o)
    e = np.hypot(x2 - x, y2 - y) * 206265.
    tol = tolerance(c["p"], pd, c["p"]["alt"] - 1.8, o)
    ctx.close(e, np.zeros_like(e), tol, "tangent-plane distance after round trip [arcsec]")


@sub(P, lambda: fixed(c=case(), turns=st.tuples(*[st.integers(-2, 2)] * 3).map(list)), 2000, 20000,
     "at least one angle described with an extra turn", shards=4)
def full_turns(c, ctx):
    """full turns added to the right ascensions or the sidereal time change nothing"""
    from desimeter.transform.radec2tan import radec2tan, tan2radec
    k = c["turns"]
    c = c["c"]
    ra, dec, args, o, pole = setup(c)
    if np.min(pole) < 1.0:
        return
    classify(c, ctx, pole)
    ctx.nontrivial(any(k))
    args2 = (args[0] + 360. * k[1], args[1], args[2], args[3] + 360. * k[2], args[4])
    x, y = radec2tan(ra, dec, *args, **o)
    x2, y2 = radec2tan(ra + 360. * k[0], dec, *args2, **o)
    ctx.close(x2, x, 1e-10, "x with extra turns")
    ctx.close(y2, y, 1e-10, "y with extra turns")
    r, d = tan2radec(x, y, *args, **o)
    r2, d2 = tan2radec(x, y, *args2, **o)
    s = sky.sep(r, d, r2, d2)
    ctx.close(s, np.zeros_like(s), 1e-5, "sky position with extra turns [arcsec]")
    ctx.expect(np.all(np.abs(np.asarray(d)) <= 90.0001), "declination outside [-90,90]")
