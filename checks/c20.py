"""C20 prediction of field rotation"""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, sky
from vf.gen import fixed, uni, mix

P = "C20"
D = np.pi / 180


def tan2radec(x, y, p, hexrot):
    """own inverse of the own model, by Newton's method on the tangent plane of the pointing"""
    e, n, o = sky.vec(p["ra"] + 90., 0.), sky.vec(p["ra"], p["dec"] + 90.), sky.vec(p["ra"], p["dec"])
    f = lambda u, v: np.array(sky.radec2tan(*sky.lonlat(o + np.multiply.outer(u, e) + np.multiply.outer(v, n)), p["ra"], p["dec"], p["mjd"], p["lst"], hexrot))
    u, v = -np.asarray(x, float), np.asarray(y, float).copy()
    h = 1e-5
    for _ in range(12):
        g = f(u, v) - [x, y]
        a, b = (f(u + h, v) - f(u - h, v)) / 2 / h, (f(u, v + h) - f(u, v - h)) / 2 / h
        det = a[0] * b[1] - a[1] * b[0]
        u, v = u - (g[0] * b[1] - g[1] * b[0]) / det, v - (a[0] * g[1] - a[1] * g[0]) / det
    assert np.abs(f(u, v) - [x, y]).max() < 1e-9
    return sky.lonlat(o + np.multiply.outer(u, e) + np.multiply.outer(v, n))


def own_fieldrot(p, hexrot):
    a = np.arange(4) * np.pi / 2
    x, y = D * np.r_[0., np.cos(a)], D * np.r_[0., np.sin(a)]
    ra, dec = tan2radec(x, y, p, hexrot)
    v = sky.vec(-ra, dec)
    X, Y = v @ sky.vec(-ra[0] + 90., 0.), v @ sky.vec(-ra[0], dec[0] + 90.)
    return (np.degrees(np.arctan2(y, x) - np.arctan2(Y, X))[1:] + 180) % 360 - 180


@sub(P, lambda: fixed(p=gen.pointing(altmin=28.), hexrot=mix(-2., 2., 0., .5), turns=st.integers(-1, 1)), 400, 4000, "off the meridian", shards=6)
def rotation(c, ctx):
    """field rotation against an own model; hexapod rotation adds; full turns change nothing"""
    from desimeter.fieldmodel import fieldrot
    p = c["p"]
    if abs(p["dec"]) > 86 or p["alt"] > 88.5:
        return ctx.label("pole or zenith")
    ctx.nontrivial((p["lst"] - p["ra"]) % 360 > 1e-3)
    r = own_fieldrot(p, 0.)
    tol = 1e-3 + .02 * D / max(np.cos((abs(p["dec"]) + 1.1) * D), .03) / np.tan((90 - p["alt"] + .5) * D)
    got = fieldrot(p["ra"], p["dec"], p["mjd"], p["lst"])
    ctx.expect(np.isscalar(got), "not a scalar")
    ctx.close(got, np.degrees(np.mean(np.sin(r * D))), tol, "field rotation [deg]")
    h = fieldrot(p["ra"], p["dec"], p["mjd"], p["lst"], hexrot_deg=c["hexrot"])
    ctx.close(h, np.degrees(np.mean(np.sin(own_fieldrot(p, c["hexrot"]) * D))), tol, "field rotation with hexapod rotation [deg]")
    ctx.close(h - got, c["hexrot"], 1e-3 + abs(c["hexrot"]) * 1.5 * (np.abs(r).max() + abs(c["hexrot"])) ** 2 * D ** 2, "change of the field rotation with the hexapod rotation [deg]")
    k = 360. * c["turns"]
    ctx.close(fieldrot(p["ra"] + k, p["dec"], p["mjd"], p["lst"]), got, 1e-6, "after a full turn in RA")
    ctx.close(fieldrot(p["ra"], p["dec"], p["mjd"], p["lst"] + k), got, 1e-6, "after a full turn in LST")


def pts():
    return st.lists(st.tuples(st.one_of(gen.angle(-400., 760.), mix(-60., 60., 0.)), mix(-90., 90., 0., 30., 90., -90., 31.96403)).map(list), min_size=1, max_size=6)


@sub(P, lambda: fixed(pts=pts(), lst=gen.angle(-400., 800.), mjd=mix(50000., 65000., 59000.), d=uni(0., .5), a=gen.angle(), shape=st.sampled_from(["array", "scalar", "list"]), bad=st.sampled_from([0.] * 6 + [90.001, -90.001, 95., -200.])),
     1500, 20000, "a positive and finite step", shards=4)
def rate(c, ctx):
    """rate is finite, bounded, periodic, a function of hour angle and declination only; scalar = array"""
    from desimeter.fieldmodel import dfieldrotdt, dfieldrotdt_empirical_model
    ha, dec = np.array(c["pts"]).T
    lst = c["lst"]
    ra = lst - ha
    ctx.nontrivial(c["d"] > 0)
    f = lambda r, d, l=lst: dfieldrotdt(r, d, c["mjd"], l)
    keep = ra.copy(), dec.copy()
    v = f(ra, dec)
    ctx.expect(np.array_equal(keep[0], ra) and np.array_equal(keep[1], dec), "inputs modified")
    ctx.expect(np.shape(v) == ra.shape and np.all(np.isfinite(v)), "shape or values {}", v)
    ctx.expect(np.all(np.abs(v) <= 1.5), "rate {} out of bounds", np.abs(v).max())
    s = [f(float(a), float(b)) for a, b in zip(ra, dec)]
    ctx.expect(all(np.isscalar(q) for q in s), "not a scalar")
    ctx.close(s, v, 1e-12, "scalar and array")
    ctx.close(dfieldrotdt_empirical_model(ra, dec, lst), v, 1e-12, "empirical model")
    seam = np.abs((ha % 360.) - 180.)
    ok = seam > 1e-6
    for k in (-360., 360., 720.):
        ctx.close(f(ra + k, dec)[ok], v[ok], 1e-9, "after a full turn in RA")
        ctx.close(f(ra, dec, lst + k)[ok], v[ok], 1e-9, "after a full turn in LST")
    ctx.close(f(ra + 11.25, dec, lst + 11.25)[ok], v[ok], 1e-9, "same hour angle")
    # continuity (the fit is not continuous below the pole, at hour angle 180)
    dh, dd = c["d"] * np.cos(c["a"] * D), c["d"] * np.sin(c["a"] * D)
    d2 = np.clip(dec + dd, -90., 90.)
    far = seam > 1.
    ctx.close(f(ra + dh, d2)[far], v[far], .45 * (abs(dh) + np.abs(d2 - dec)[far]) + 1e-12, "rate at a nearby position")
    if c["bad"]:
        ctx.label("impossible declination")
        ctx.raises((ValueError,), lambda: f(float(ra[0]), c["bad"]), "declination %g" % c["bad"])
        ctx.raises((ValueError,), lambda: f(np.r_[ra, ra[0]], np.r_[dec, c["bad"]]), "declination %g in a list" % c["bad"])


@sub(P, lambda: fixed(p=gen.pointing(altmin=30.)), 150, 1500, "always", shards=4)
def rate_of_rotation(c, ctx):
    """the predicted rate is the derivative of the predicted rotation"""
    from desimeter.fieldmodel import dfieldrotdt, dfieldrotdt_physical_model
    p = c["p"]
    ha = (p["lst"] - p["ra"] + 180) % 360 - 180
    if not (-25 < p["dec"] < 65) or abs(ha) > 60 or p["alt"] > 87:
        return ctx.label("outside")
    ctx.nontrivial(True)
    q = dfieldrotdt_physical_model(p["ra"], p["dec"], p["mjd"], p["lst"])
    dl = 1.
    a, b = [np.mean(np.sin(own_fieldrot(dict(p, lst=p["lst"] + s), 0.) * D)) / D for s in (0., dl)]
    own = (b - a) / dl * .25 * 3600
    ctx.close(q, own, .08 + .05 * abs(own), "physical rate [arcsec/min]")
    ctx.close(dfieldrotdt(p["ra"], p["dec"], p["mjd"], p["lst"]), own, .45, "empirical rate [arcsec/min]")
