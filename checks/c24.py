"""C24 circle fits"""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, uni, mix

P = "C24"
D = np.pi / 180


def circle():
    return dict(seed=gen.seeds(), xc=mix(-450., 450., 0.), yc=mix(-450., 450., 0.), r=uni(1.001, 4.999), n=st.one_of(st.integers(4, 12), gen.count(5, 60)), start=gen.angle(), span=mix(90., 350., 90., 180., 330.),
                spacing=st.sampled_from(["equal", "random"]), order=st.sampled_from(["sorted", "reverse", "random"]))


def points(c, rs):
    n = c["n"]
    if c["spacing"] == "equal":
        a = np.arange(n) / (n - 1.)
    else:
        a = np.r_[0., 1., rs.uniform(0, 1, n - 2)]
        a.sort()
        k = np.arange(n) / (n - 1.)
        a = .15 * k + .85 * a        # never closer than a seventh of the mean distance
    a = (c["start"] + c["span"] * a) * D
    o = dict(sorted=np.arange(n), reverse=np.arange(n)[::-1], random=rs.permutation(n))[c["order"]]
    a = a[o]
    return c["xc"] + c["r"] * np.cos(a), c["yc"] + c["r"] * np.sin(a), a


@sub(P, lambda: fixed(**dict(circle(), r=st.one_of(uni(1.001, 4.999), uni(1.001, 4.999), st.sampled_from([3., 1.0001, 4.9999])))), 3000, 40000, "an arc that is no full circle in another order", shards=4)
def exact(c, ctx):
    """points on a circle give its centre, radius and angles"""
    from desimeter.circles import fit_circle
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y, a = points(c, rs)
    ctx.nontrivial(c["span"] < 300 and c["order"] != "sorted")
    keep = x.copy(), y.copy()
    v = fit_circle(x, y)
    ctx.expect(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "inputs modified")
    ctx.expect(len(v) == 3, "{} results", len(v))
    ctx.close(v, [c["xc"], c["yc"], c["r"]], 2e-6, "centre and radius")
    o = rs.permutation(len(x))
    ctx.close(fit_circle(x[o], y[o]), v, 4e-6, "in another order")
    t, sx, sy = rs.uniform(0, 2 * np.pi), *rs.uniform(-300, 300, 2)
    w = fit_circle(np.cos(t) * x - np.sin(t) * y + sx, np.sin(t) * x + np.cos(t) * y + sy)
    ctx.close(w, [np.cos(t) * v[0] - np.sin(t) * v[1] + sx, np.sin(t) * v[0] + np.cos(t) * v[1] + sy, v[2]], 5e-6, "after rotation and translation")
    w = fit_circle(x, -y)
    ctx.close(w, [v[0], -v[1], v[2]], 4e-6, "mirrored")


@sub(P, lambda: fixed(**dict(circle(), r=st.one_of(uni(.05, .9999), uni(5.0001, 30.), st.sampled_from([.999, 5.001, .5, 1e-2])))), 1000, 10000, "radius near the limit", shards=2)
def refused(c, ctx):
    """radii outside the documented limits are refused"""
    from desimeter.circles import fit_circle
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y, a = points(c, rs)
    ctx.nontrivial()
    ctx.label("small" if c["r"] < 1 else "large")
    ctx.raises((ValueError,), lambda: fit_circle(x, y), "circle of radius %g" % c["r"])


@sub(P, lambda: fixed(noise=st.sampled_from([1e-4, 1e-3, .01, .03]), **circle()), 2000, 20000, "noise of 1 um and more", shards=4)
def least_squares(c, ctx):
    """the answer minimises the scatter of the distances to the centre"""
    from desimeter.circles import fit_circle
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y, a = points(c, rs)
    x, y = x + rs.normal(size=len(x)) * c["noise"], y + rs.normal(size=len(x)) * c["noise"]
    ctx.nontrivial(c["noise"] >= 1e-3)
    if c["r"] - 1 < .2 or 5 - c["r"] < .3:
        return ctx.label("radius near the limit")
    try:
        xc, yc, r = fit_circle(x, y)
    except ValueError:
        # the fast first estimate may fail with noise, most often with short arcs in random order
        ctx.label("refused")
        ctx.expect(c["noise"] > 1e-3 or c["order"] == "random" or c["spacing"] == "random" or c["span"] < 170 or c["n"] < 7, "circle refused")
        return
    from scipy.optimize import least_squares as lsq

    def f(q):
        d = np.hypot(x - q[0], y - q[1])
        return d - d.mean()
    best = lsq(f, [c["xc"], c["yc"]], xtol=1e-14, ftol=1e-14, gtol=1e-14)
    if np.hypot(best.x[0] - c["xc"], best.x[1] - c["yc"]) > .5:
        return ctx.label("ill determined")
    s0, s1 = np.sum(f(best.x) ** 2), np.sum(f([xc, yc]) ** 2)
    if abs(xc - best.x[0]) > 2. and s1 > s0 * 1.5:
        return ctx.label("far minimum")
    ctx.expect(s1 <= s0 * (1 + 1e-5) + 1e-14, "scatter {} larger than {} of another centre", s1, s0)
    ctx.close(r, np.hypot(x - xc, y - yc).mean(), 1e-9, "radius is the mean distance")


@sub(P, lambda: fixed(**dict(circle(), n=gen.count(12, 60), r=uni(1.2, 4.8), span=mix(150., 350., 180.), nout=st.integers(0, 8), far=st.sampled_from(["in and out", "out", "far", "clustered"]))), 1500, 15000, "two or more outliers", shards=4)
def outliers(c, ctx):
    """far points are rejected and the others kept"""
    from desimeter.circles import robust_fit_circle
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y, a = points(c, rs)
    k = rs.permutation(len(x))[:min(c["nout"], (len(x) - 6) // 7)]
    ctx.nontrivial(len(k) >= 2)
    ctx.label("outliers %d" % len(k))
    m = len(k)
    if c["far"] == "in and out":
        rr = c["r"] + np.where(rs.rand(m) < .5, -1, 1) * rs.uniform(.4, .9, m) * min(c["r"], 2.)
        x[k], y[k] = c["xc"] + rr * np.cos(a[k]), c["yc"] + rr * np.sin(a[k])
    elif c["far"] == "clustered":
        x[k], y[k] = c["xc"] + 1.3 * c["r"] + rs.uniform(0, .1, m), c["yc"] + .5 * c["r"]
    else:
        rr = c["r"] + rs.uniform(1., 10. if c["far"] == "out" else 800., m)
        b = rs.uniform(0, 2 * np.pi, m)
        x[k], y[k] = c["xc"] + rr * np.cos(b), c["yc"] + rr * np.sin(b)
    keep = x.copy(), y.copy()
    xc, yc, r, ok = robust_fit_circle(x, y)
    ctx.expect(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "inputs modified")
    good = ~np.isin(np.arange(len(x)), k)
    ctx.expect(np.shape(ok) == (len(x),) and np.array_equal(np.asarray(ok, bool), good), "points used {}, outliers are {}", np.flatnonzero(ok), np.sort(k))
    ctx.close([xc, yc, r], [c["xc"], c["yc"], c["r"]], 5e-6, "centre and radius")
    o = rs.permutation(len(x))
    *v, ok2 = robust_fit_circle(x[o], y[o])
    ctx.close(v, [xc, yc, r], 1e-5, "in another order")
    ctx.expect(np.array_equal(ok2, ok[o]), "points used in another order")


@sub(P, lambda: fixed(**dict(circle(), n=st.integers(4, 40), r=uni(1.2, 4.8), noise=st.sampled_from([0., 1e-3, .02]))), 800, 8000, "noise", shards=2)
def no_outliers(c, ctx):
    """without outliers all points are used and the answer is that of the plain fit"""
    from desimeter.circles import robust_fit_circle, fit_circle
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y, a = points(c, rs)
    x, y = x + rs.normal(size=len(x)) * c["noise"], y + rs.normal(size=len(x)) * c["noise"]
    ctx.nontrivial(c["noise"] > 0)
    xc, yc, r, ok = robust_fit_circle(x, y)
    if c["noise"] == 0:
        ctx.expect(np.all(ok), "points rejected")
        ctx.close([xc, yc, r], [c["xc"], c["yc"], c["r"]], 5e-6, "centre and radius")
    elif np.all(ok):
        ctx.label("all used")
        try:
            v = fit_circle(x, y)
        except ValueError:
            return ctx.label("refused")
        ctx.close([xc, yc, r], v, 1e-9, "as the plain fit")
