"""C07 similarity and tangent-plane corrections."""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, mix, uni

P = "C07"
SPECIAL = (0., 90., -90., 180., -180., 45., 1e-9, -1e-9, 89.9999999, 1e-5, 135.)


def shape():
    return dict(sxx=mix(.7, 1.4, 1.), syy=mix(.7, 1.4, 1.), sxy=mix(-.3, .3, 0.))


def points(n_min=3):
    return fixed(seed=gen.seeds(), n=st.integers(n_min, 40), radius=st.sampled_from([.02, 1., 30., 400.]), cx=mix(-2., 2., 0.), cy=mix(-2., 2., 0.))


def cloud(p):
    """well spread points: the first three span a triangle, whatever the others do"""
    rng = np.random.RandomState(p["seed"])
    a = rng.uniform(0, 2 * np.pi)
    n = p["n"]
    r, t = np.sqrt(rng.uniform(0, 1, n)), rng.uniform(0, 2 * np.pi, n)
    r[:3], t[:3] = 1., (a + np.array([0., 2.1, 4.2]))[:n]
    k = rng.permutation(n)
    return p["radius"] * (p["cx"] + r * np.cos(t))[k], p["radius"] * (p["cy"] + r * np.sin(t))[k]


def true_map(c, x, y):
    """independent: rotate counter-clockwise, then the symmetric scale matrix, then shift"""
    t = np.radians(c["rot"])
    u, v = np.cos(t) * x - np.sin(t) * y, np.sin(t) * x + np.cos(t) * y
    return c["sxx"] * u + c["sxy"] * v + c["dx"], c["sxy"] * u + c["syy"] * v + c["dy"]


def corr():
    return fixed(rot=st.one_of(st.sampled_from(SPECIAL), gen.angle(-180., 180.)), dx=mix(-500., 500., 0.), dy=mix(-500., 500., 0.), **shape())


def check_map(ctx, o, c, x, y, scale, what):
    u, v = true_map(c, x, y)
    tol = 1e-8 * (scale + abs(c["dx"]) + abs(c["dy"]))
    ctx.close(o.apply(x, y), [u, v], tol, "%s: apply" % what)
    ctx.close(o.apply_inverse(u, v), [x, y], 4 * tol, "%s: apply_inverse" % what)


@sub(P, lambda: fixed(t=corr(), p=points(), reuse=st.lists(corr(), max_size=2), solid=st.booleans()), 2500, 25000, "rotation or shape is not the identity", shards=2)
def simple_fit(c, ctx):
    """points moved by a known similarity give it back; noisy points give the least-squares solution; inverse"""
    from desimeter.simplecorr import SimpleCorr
    t = dict(c["t"])
    if c["solid"]:
        t.update(sxx=1., syy=1., sxy=0.)
    x, y = cloud(c["p"])
    u, v = true_map(t, x, y)
    o = SimpleCorr()
    for r in c["reuse"]:
        o.fit(x, y, *true_map(r, x, y))
    keep = [a.copy() for a in (x, y, u, v)]
    ctx.nontrivial(t["rot"] != 0 or t["sxx"] != t["syy"])
    ctx.label("rotation %g" % t["rot"], t["rot"] in SPECIAL[:6])
    ctx.label("reused object", len(c["reuse"]) > 0)
    ctx.label("solid", c["solid"])
    o.fit(x, y, u, v, solid=c["solid"])
    ctx.expect(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, u, v))), "fit modified its inputs")
    scale = c["p"]["radius"] * 10
    check_map(ctx, o, t, x, y, scale, "fitted points")
    check_map(ctx, o, t, *(c["p"]["radius"] * np.array([[0., 3., -2., .1], [0., -1., 5., .1]])), scale, "other points")
    ctx.close([o.sxx, o.syy, o.sxy], [t["sxx"], t["syy"], t["sxy"]], 1e-6, "fitted scales")
    ctx.angle_close(o.rot_deg, t["rot"], 1e-5, "fitted rotation")
    if not c["solid"]:
        ctx.expect(o.nmatch == len(x), "nmatch %r" % o.nmatch)
        ctx.close(o.rms, 0., 1e-8 * (scale + abs(t["dx"]) + abs(t["dy"])), "rms of noiseless data")


@sub(P, lambda: fixed(t=corr(), pts=st.lists(st.tuples(mix(-500., 500., 0.), mix(-500., 500., 0.)).map(list), min_size=1, max_size=6)), 2500, 25000, "not the identity")
def simple_apply(c, ctx):
    """apply and apply_inverse for parameters set by hand"""
    from desimeter.simplecorr import SimpleCorr
    o = SimpleCorr()
    t = c["t"]
    o.dx, o.dy, o.sxx, o.syy, o.sxy, o.rot_deg = t["dx"], t["dy"], t["sxx"], t["syy"], t["sxy"], t["rot"]
    x, y = np.array(c["pts"]).T
    ctx.nontrivial(t["rot"] != 0)
    check_map(ctx, o, t, x, y, 1000., "points")
    ctx.close(o.apply(*o.apply_inverse(x, y)), [x, y], 1e-8, "inverse then correction")
    ctx.close(o.apply_inverse(*o.apply(x, y)), [x, y], 1e-8, "correction then inverse")
    ctx.close(o.apply(x[0], y[0]), [true_map(t, x[0], y[0])[0], true_map(t, x[0], y[0])[1]], 1e-8, "single point")


@sub(P, lambda: fixed(noise=uni(0, 1e-2), t=corr(), p=points(5), seed=gen.seeds()), 600, 6000, "noisy data")
def simple_least_squares(c, ctx):
    """with noise: the residuals are orthogonal to 1, x, y, and rms is theirs"""
    from desimeter.simplecorr import SimpleCorr
    x, y = cloud(c["p"])
    rng = np.random.RandomState(c["seed"])
    R = c["p"]["radius"]
    u, v = true_map(c["t"], x, y)
    u, v = u + R * c["noise"] * rng.normal(size=len(x)), v + R * c["noise"] * rng.normal(size=len(x))
    o = SimpleCorr()
    o.fit(x, y, u, v)
    ctx.nontrivial(c["noise"] > 1e-4)
    a, b = o.apply(x, y)
    big = R * 10 + abs(c["t"]["dx"]) + abs(c["t"]["dy"])
    for r in (u - a, v - b):
        for w in (np.ones(len(x)), (x - x.mean()) / R, (y - y.mean()) / R):
            ctx.close(np.mean(r * w), 0., 1e-8 * big, "mean residual against 1, x, y")
    ctx.close(o.rms, np.sqrt(np.mean((u - a)**2 + (v - b)**2)), 1e-8 * big, "rms")


def tan_corr(rot, amp):
    return fixed(rot=rot, dha=mix(-amp, amp, 0.), ddec=mix(-amp, amp, 0.), sxx=mix(.997, 1.003, 1.), syy=mix(.997, 1.003, 1.), sxy=mix(-.002, .002, 0.))


def make_tan(t):
    from desimeter.fieldmodel import TanCorr
    o = TanCorr()
    o.dha, o.ddec, o.sxx, o.syy, o.sxy, o.rot_deg = t["dha"], t["ddec"], t["sxx"], t["syy"], t["sxy"], t["rot"]
    return o


def tan_map(t, x, y):
    """independent statement: direction on the sphere seen from a pointing moved by (dha, ddec), then rotation and scales"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    # unit vector toward the point for a telescope at (0,0): x = sin-type coordinate towards +HA, y towards +Dec
    X, Y = x, y
    Z = np.sqrt(1 - X * X - Y * Y)
    h, d = np.radians(t["dha"]), np.radians(t["ddec"])
    # rotate by -dha about the polar (Y) axis, then by -ddec about the X axis
    X, Z = X * np.cos(h) - Z * np.sin(h), X * np.sin(h) + Z * np.cos(h)
    Y, Z = Y * np.cos(d) - Z * np.sin(d), Y * np.sin(d) + Z * np.cos(d)
    return true_map(dict(t, dx=0., dy=0.), X, Y)


@sub(P, lambda: fixed(t=tan_corr(st.one_of(gen.angle(-180., 180.), st.sampled_from(SPECIAL)), 1.),
                      pts=st.lists(st.tuples(mix(-.028, .028, 0.), mix(-.028, .028, 0.)).map(list), min_size=1, max_size=6)), 2000, 20000, "not the identity")
def tangent_apply(c, ctx):
    """apply against the documented formula, apply_inverse undoes it"""
    o = make_tan(c["t"])
    x, y = np.array(c["pts"]).T
    ctx.nontrivial(c["t"]["dha"] != 0 or c["t"]["rot"] != 0)
    ctx.label("with pointing offset", c["t"]["dha"] != 0 or c["t"]["ddec"] != 0)
    u, v = o.apply(x, y)
    ctx.close([u, v], tan_map(c["t"], x, y), 1e-12, "apply, against rotations of the sphere")
    ctx.close(o.apply_inverse(u, v), [x, y], 1e-12, "correction then inverse")
    ctx.close(o.apply(*o.apply_inverse(x, y)), [x, y], 1e-12, "inverse then correction")


@sub(P, lambda: fixed(t=tan_corr(st.one_of(st.just(0.), mix(-.5, .5, 0.)), .05), n=st.integers(12, 80), seed=gen.seeds(), reuse=st.booleans()), 800, 8000, "with rotation")
def tangent_fit_small(c, ctx):
    """small corrections, guide stars at the edge of the field"""
    rng = np.random.RandomState(c["seed"])
    r, p = .0279 * np.sqrt(rng.uniform(.7, 1, c["n"])), np.arange(c["n"]) * 2 * np.pi / c["n"] + rng.uniform(0, .3, c["n"])
    x, y = r * np.cos(p), r * np.sin(p)
    u, v = tan_map(c["t"], x, y)
    o = make_tan(dict(c["t"], rot=33., dha=1.) if c["reuse"] else dict(rot=0., dha=0., ddec=0., sxx=1., syy=1., sxy=0.))
    ctx.nontrivial(c["t"]["rot"] != 0)
    ctx.label("no rotation", c["t"]["rot"] == 0)
    o.fit(x, y, u, v)
    t = c["t"]
    e = abs(np.radians(t["rot"])) + abs(t["sxx"] - 1) + abs(t["syy"] - 1) + abs(t["sxy"])
    cen = np.hypot(x.mean(), y.mean())
    off = np.radians(np.hypot(t["dha"], t["ddec"]))
    # the linearised offset is exact up to (deformation)^2 x centroid and deformation x offset x field^2
    tol = 206265 * (3 * e * e * cen + 2 * e * off * .0279 + off * .0279**2 * .5) + 2e-3
    a, b = o.apply(x, y)
    ctx.close(206265 * np.hypot(a - u, b - v), np.zeros(len(x)), tol, "corrected positions [arcsec]")
    ctx.close([o.sxx, o.syy, o.sxy], [t["sxx"], t["syy"], t["sxy"]], 2e-5 + tol / 5000., "scales")
    ctx.angle_close(o.rot_deg, t["rot"], 1e-3 + tol / 50., "rotation [deg]")
    ctx.expect(o.nstars == c["n"], "nstars %r" % o.nstars)


@sub(P, lambda: fixed(t=fixed(rot=st.one_of(st.sampled_from(SPECIAL), gen.angle(-180., 180.)), dha=st.just(0.), ddec=st.just(0.), **shape()), n=st.integers(3, 30), seed=gen.seeds()), 800, 8000, "with rotation")
def tangent_fit_large(c, ctx):
    """any rotation about the field centre, stars in opposite pairs so that no pointing offset is needed"""
    from desimeter.fieldmodel import TanCorr
    rng = np.random.RandomState(c["seed"])
    r, p = .018 * np.sqrt(rng.uniform(.3, 1, c["n"])), np.arange(c["n"]) * np.pi / c["n"] + rng.uniform(0, .2, c["n"])
    x, y = np.concatenate([r * np.cos(p), -r * np.cos(p)]), np.concatenate([r * np.sin(p), -r * np.sin(p)])
    u, v = tan_map(c["t"], x, y)
    ctx.nontrivial(c["t"]["rot"] != 0)
    ctx.label("rotation %g" % c["t"]["rot"], c["t"]["rot"] in SPECIAL[:6])
    o = TanCorr()
    o.fit(x, y, u, v)
    a, b = o.apply(x, y)
    ctx.close([a, b], [u, v], 1e-10, "corrected positions")
    ctx.close([o.sxx, o.syy, o.sxy], [c["t"]["sxx"], c["t"]["syy"], c["t"]["sxy"]], 1e-7, "scales")
    ctx.angle_close(o.rot_deg, c["t"]["rot"], 1e-5, "rotation [deg]")
    ctx.close([o.dha, o.ddec], [0., 0.], 1e-8, "pointing offset")
