"""C10 positioner coordinate chain."""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, data
from vf.gen import fixed, mix

P = "C10"


def geometry():
    return fixed(r1=mix(2., 4., 3.), r2=mix(2., 4., 3.), t0=mix(-180., 180., 0., 179.9, -179.9, 180.), p0=mix(-20., 20., 0., 20., -20.),
                 x0=mix(-30., 410., 0.), y0=mix(-130., 130., 0.))


def robots(n_max=6):
    """points, each with its own positioner, plus how the arguments are passed"""
    return fixed(g=st.lists(geometry(), min_size=n_max, max_size=n_max), tp=st.lists(st.tuples(mix(-179.999, 180., 0., 90., 180., -90.), mix(0., 180., 0., 180., 90.)).map(list), min_size=1, max_size=n_max),
                 one=st.booleans(), kind=st.sampled_from(["array", "list", "tuple", "scalar", "int"]))


def unpack(c):
    n = len(c["tp"])
    tp = np.array(c["tp"], float)
    kind = c["kind"]
    if kind == "scalar":
        n, tp = 1, tp[:1]
    if kind == "int":
        tp = np.round(tp)
        tp[:, 0] = np.clip(tp[:, 0], -179, 180)
    g = {k: np.array([v[k] for v in c["g"]])[:n] for k in c["g"][0]}
    if c["one"]:
        g = {k: np.repeat(v[0], n) for k, v in g.items()}
    t = tp[:, 0]
    pe = np.clip(tp[:, 1], 0, 180)
    p = pe - g["p0"]                      # internal angle such that the external one is in [0, 180]
    if kind == "int":
        p = np.round(p)
        p = p + np.where(p + g["p0"] < 0, 1, 0) - np.where(p + g["p0"] > 180, 1, 0)
    return n, g, t, p


def cast(v, kind):
    if kind == "array":
        return np.array(v, float)
    if kind == "list":
        return [float(x) for x in v]
    if kind == "tuple":
        return tuple(float(x) for x in v)
    if kind == "scalar":
        return float(v[0])
    return [int(x) for x in v]


def arm(t, p, g):
    """documented two-link arm: external theta turns the first arm from +x, phi the second from the first"""
    a = np.exp(1j * np.radians(t + g["t0"]))
    z = g["r1"] * a + g["r2"] * a * np.exp(1j * np.radians(p + g["p0"]))
    return z.real, z.imag


def params(g, kind, one, keys):
    """one value for all points, or one per point"""
    if one:
        return [float(g[k][0]) for k in keys]
    k2 = "array" if kind in ("array", "int") else kind
    return [cast(g[k], k2) for k in keys]


def poly_tol(s):
    s = np.asarray(s, float)
    return np.interp(s, [0, 5, 10, 15, 20, 25, 50, 100, 300, 400, 410, 420, 450], np.array([4.1, 4.1, 3.9, 3.1, 2.3, 1.6, 1.1, .65, .25, .35, .7, 1.5, 30.]) * 1.5e-3)


@sub(P, robots, 2500, 25000, "several points with their own parameters", shards=4, floor=.15)
def local(c, ctx):
    """internal <-> external <-> local"""
    from desimeter.transform import pos2ptl as M, xy2tp
    n, g, t, p = unpack(c)
    kind, one = c["kind"], c["one"]
    ctx.nontrivial(n > 1 and not one)
    ctx.label(kind)
    ctx.label("one parameter set", one)
    T, PH = cast(t, kind), cast(p, kind)
    r1, r2, t0, p0 = params(g, kind, one, ["r1", "r2", "t0", "p0"])
    te, pe = M.int2ext(T, t0), M.int2ext(PH, p0)
    ctx.close(te, t + g["t0"], 1e-9, "external theta")
    ctx.close(pe, p + g["p0"], 1e-9, "external phi")
    ctx.close([M.ext2int(te, t0), M.ext2int(pe, p0)], [t, p], 1e-9, "internal -> external -> internal")
    x, y = M.int2loc(T, PH, r1, r2, t0, p0)
    want = arm(t, p, g)
    ctx.close([x, y], want, 1e-9, "local position of the two-link arm [mm]")
    x2, y2 = M.ext2loc(te, pe, r1, r2)
    ctx.close([x2, y2], want, 1e-9, "external -> local [mm]")
    for i in range(n):
        a = xy2tp.tp2xy([float(te[i]), float(pe[i])], [g["r1"][i], g["r2"][i]])
        ctx.close(a, [want[0][i], want[1][i]], 1e-9, "tp2xy [mm]")
    X, Y = (x, y) if kind in ("array", "int") else (cast(x, kind), cast(y, kind))
    ti, pi, un = M.loc2int(X, Y, r1, r2, t0, p0)
    ctx.expect(len(ti) == n and len(pi) == n and len(un) == n, "lengths %d %d %d for %d points" % (len(ti), len(pi), len(un), n))
    xb, yb = M.int2loc(ti, pi, r1, r2, t0, p0)
    ctx.close([xb, yb], want, 1e-6, "local -> internal -> local [mm]")
    regular = np.minimum(p + g["p0"], 180 - p - g["p0"]) > .05
    # folded onto the axis, theta is not defined
    fold = np.hypot(*want) < 1e-3
    tol = 1e-6 / np.maximum(np.sin(np.radians(p + g["p0"])), 1e-3)
    ok = regular & ~fold
    if ok.any():
        ctx.angle_close(np.array(ti)[ok], t[ok], (tol / np.maximum(np.hypot(*want), 1e-3))[ok] * 4, "theta after local and back")
        ctx.close(np.array(pi)[ok], p[ok], tol[ok], "phi after local and back")
        ctx.expect(not np.any(np.array(un, bool)[ok]), "reachable point flagged: %s" % un)
        e = M.loc2ext(X, Y, r1, r2, t0, p0)
        ctx.close([M.ext2int(e[0], t0), M.ext2int(e[1], p0)], [ti, pi], 1e-9, "loc2int is loc2ext then ext2int")


@sub(P, robots, 2000, 20000, "several points with their own parameters", shards=4, floor=.15)
def petal(c, ctx):
    """internal <-> petal, flat, local"""
    from desimeter.transform import pos2ptl as M
    n, g, t, p = unpack(c)
    kind, one = c["kind"], c["one"]
    ctx.nontrivial(n > 1 and not one)
    ctx.label(kind)
    T, PH = cast(t, kind), cast(p, kind)
    r1, r2, t0, p0, x0, y0 = params(g, kind, one, ["r1", "r2", "t0", "p0", "x0", "y0"])
    xl, yl = arm(t, p, g)
    K = lambda v: np.array(v, float) if kind in ("array", "int") else cast(v, kind)
    xf, yf = M.loc2flat(K(xl), x0), M.loc2flat(K(yl), y0)
    ctx.close([xf, yf], [xl + g["x0"], yl + g["y0"]], 1e-9, "local -> flat [mm]")
    ctx.close([M.flat2loc(K(xf), x0), M.flat2loc(K(yf), y0)], [xl, yl], 1e-9, "flat -> local [mm]")
    s = np.hypot(xf, yf)
    tol = poly_tol(s)
    x, y = M.int2ptl(T, PH, r1, r2, t0, p0, x0, y0)
    # flat: path length along the surface in the same direction
    ctx.close(np.hypot(x, y), np.interp(s, SURF()["S"], SURF()["R"]), tol, "petal radius against the tabulated surface [mm]")
    ctx.close(np.asarray(x) * yf - np.asarray(y) * xf, 0 * s, 1e-6, "petal direction")
    ctx.expect(np.all(np.asarray(x) * xf + np.asarray(y) * yf >= -1e-9), "petal direction reversed")
    xb, yb = M.ptl2flat(x, y)
    ctx.close([xb, yb], [xf, yf], tol, "flat -> petal -> flat [mm]")
    x2, y2 = M.flat2ptl(xb, yb)
    ctx.close([x2, y2], [x, y], tol, "petal -> flat -> petal [mm]")
    ti, pi, un = M.ptl2int(K(np.ravel(x)), K(np.ravel(y)), r1, r2, t0, p0, x0, y0)
    a, b = arm(np.array(ti), np.array(pi), g)
    ctx.close(np.hypot(a - xl, b - yl), 0 * s, 2 * tol + 1e-6, "petal -> internal, local position [mm]")
    q = M.int2ptl(ti, pi, r1, r2, t0, p0, x0, y0)
    ctx.close(np.hypot(q[0] - x, q[1] - y), 0 * s, 2 * tol + 1e-6, "petal -> internal -> petal [mm]")
    pe = p + g["p0"]
    margin = (g["r1"] + g["r2"] - np.hypot(xl, yl) > .05) & (np.hypot(xl, yl) - abs(g["r1"] - g["r2"]) > .05)
    if margin.any():
        at = np.degrees(2 * tol / np.minimum(g["r1"], g["r2"])) / np.maximum(np.sin(np.radians(pe)), .05)
        ctx.close(np.array(pi)[margin], p[margin], 3 * at[margin], "phi after petal and back")
        ctx.angle_close(np.array(ti)[margin], t[margin], (3 * at * np.maximum(1, 3. / np.maximum(np.hypot(xl, yl), .05)))[margin], "theta after petal and back")
        ctx.expect(not np.any(np.array(un, bool)[margin]), "reachable point flagged: %s" % un)
    g1 = M.ptl2int(K(np.ravel(x)), K(np.ravel(y)), r1, r2, t0, p0, x0, y0, t_int_guess=K(t))
    xg, yg = M.int2ptl(g1[0], g1[1], r1, r2, t0, p0, x0, y0)
    ctx.close(np.hypot(xg - x, yg - y), 0 * s, 2 * tol + 1e-6, "petal -> internal -> petal with a guess [mm]")


_surf = {}


def SURF():
    if not _surf:
        from checks.c09 import T
        _surf.update(T())
    return _surf


@sub(P, lambda: fixed(g=geometry(), t=mix(-179.9, 179.9, 0., 90.), p=mix(-19.9, 199.9, 0., 180., 90., -10., 190.), d=mix(-8., 8., 0.), kind=st.sampled_from(["scalar", "array"])), 3000, 30000,
     "second arm on the other side", shards=2, floor=.05)
def with_guess(c, ctx):
    """over the whole phi range, a theta guess near the truth brings the same angles back"""
    from desimeter.transform import pos2ptl as M
    g = c["g"]
    t, p = c["t"], c["p"]
    pe = p + g["p0"]
    ctx.nontrivial(pe < 0 or pe > 180)
    ctx.label("phi below 0", pe < 0)
    ctx.label("phi above 180", pe > 180)
    x, y = arm(t, p, {k: np.array(v) for k, v in g.items()})
    # angle between the two solutions, in theta
    alpha = abs(((2 * np.degrees(np.angle(np.exp(1j * (np.angle(x + 1j * y) - np.radians(t + g["t0"])))))) + 180) % 360 - 180)
    if np.hypot(x, y) < 1e-2 or abs(np.sin(np.radians(pe))) < .02 or alpha < 2 * abs(c["d"]) + .1:
        ctx.nontrivial(False)
        return
    guess = t + c["d"]
    f = (lambda v: float(v)) if c["kind"] == "scalar" else (lambda v: np.array([float(v)]))
    ti, pi, un = M.loc2int(f(x), f(y), g["r1"], g["r2"], g["t0"], g["p0"], t_int_guess=f(guess))
    ctx.close(ti, [t], 1e-4, "theta with a guess %.3f deg away" % c["d"])
    ctx.close(pi, [p], 1e-4, "phi with a theta guess")
    ctx.expect(not un[0], "reachable point flagged")
    ti, pi, un = M.loc2int(f(x), f(y), g["r1"], g["r2"], g["t0"], g["p0"], t_int_guess=f(guess), t_guess_tol=abs(c["d"]) + 1e-3)
    ctx.close([ti[0], pi[0]], [t, p], 1e-4, "angles with a guess just within its tolerance")
