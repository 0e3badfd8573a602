"""C11 target solving."""
import math
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, mix

P = "C11"


def solutions(x, y, r1, r2, ranges):
    """every in-range (theta, phi) in degrees that puts the fibre on (x, y), from the triangle of the two arms"""
    d = math.hypot(x, y)
    if d > r1 + r2 or d < abs(r1 - r2) or d == 0:
        return []
    a = math.degrees(math.atan2(y, x))
    # angle at the centre between the first arm and the target, by the law of cosines
    ca = (r1 * r1 + d * d - r2 * r2) / (2 * r1 * d)
    al = math.degrees(math.acos(max(-1., min(1., ca))))
    cp = (d * d - r1 * r1 - r2 * r2) / (2 * r1 * r2)
    ph = math.degrees(math.acos(max(-1., min(1., cp))))
    out = []
    for s in (1, -1):
        for kt in (-720, -360, 0, 360, 720):
            for kp in (-360, 0, 360):
                t, p = a - s * al + kt, s * ph + kp
                if ranges[0][0] <= t <= ranges[0][1] and ranges[1][0] <= p <= ranges[1][1]:
                    out.append((t, p, s))
    return out


def target():
    """distance as a fraction of the reachable annulus (below 0: inside the hole, above 1: outside)"""
    return fixed(f=st.one_of(mix(0., 1., 0., 1., .5), mix(-.9, 1.5, -.01, 1.01, 1.000001, -1e-6)), a=gen.angle(-180., 180.))


def folded():
    """close to the rim or to the fold, where both arm configurations fit the shipped ranges"""
    return fixed(phi=st.one_of(mix(0., 40.), mix(0., 19., 5.), mix(140., 180.), mix(160., 179.9)), a=gen.angle(-180., 180.))


def arms():
    return dict(r1=mix(1.5, 4.5, 3.), r2=mix(1.5, 4.5, 3.))


def point(c):
    lo, hi = abs(c["r1"] - c["r2"]), c["r1"] + c["r2"]
    f = c["t"].get("f")
    if f is None:
        d = math.sqrt(max(0., c["r1"] ** 2 + c["r2"] ** 2 + 2 * c["r1"] * c["r2"] * math.cos(math.radians(c["t"]["phi"]))))
    else:
        d = lo + f * (hi - lo) if f >= 0 else lo * (1 + f)
    a = math.radians(c["t"]["a"])
    return d * math.cos(a), d * math.sin(a), d, lo, hi


def where(tp, r):
    a = math.radians(tp[0])
    b = a + math.radians(tp[1])
    return r[0] * math.cos(a) + r[1] * math.cos(b), r[0] * math.sin(a) + r[1] * math.sin(b)


def full_ranges():
    """theta covers at least a full turn, phi at least [0, 180]: every configuration the instrument uses"""
    return fixed(tmin=mix(-200., -100., -180.), tw=mix(360., 420., 360.), pmin=mix(-40., 0., -20., 0.), pmax=mix(180., 220., 200., 180.))


def rng(c):
    k = c["ranges"]
    return [[k["tmin"], k["tmin"] + k["tw"]], [k["pmin"], k["pmax"]]]


def in_ranges(ctx, tp, ranges, what):
    for v, (lo, hi), n in zip(tp, ranges, ("theta", "phi")):
        ctx.expect(lo - 1e-9 <= v <= hi + 1e-9, "{}: {} = {!r} outside [{!r}, {!r}]", what, n, v, lo, hi)


def judge(ctx, c, tp, unreach, ranges, what):
    x, y, d, lo, hi = point(c)
    r = (c["r1"], c["r2"])
    in_ranges(ctx, tp, ranges, what)
    px, py = where(tp, r)
    e = math.hypot(px - x, py - y)
    if lo + 1e-9 <= d <= hi - 1e-9:
        ctx.expect(not unreach, "{}: reachable point flagged", what)
        ctx.expect(e < 2e-6, "{}: fibre {:.3g} mm away from a reachable point", what, e)
    elif d > hi + 1e-9 or d < lo - 1e-9:
        ctx.expect(bool(unreach), "{}: point at {!r} outside [{!r}, {!r}] not flagged", what, d, lo, hi)
        best = max(d - hi, lo - d)
        ctx.expect(e <= best + 2e-6, "{}: fibre {!r} mm away, could be {!r}", what, e, best)


@sub(P, lambda: fixed(t=target(), ranges=full_ranges(), swap=st.booleans(), **arms()), 4000, 40000, "reachable point away from the rim, or unreachable", shards=2)
def solve(c, ctx):
    """the answer reaches the target if any in-range configuration does, else is flagged and as near as the ranges allow"""
    from desimeter.transform.xy2tp import xy2tp, tp2xy
    x, y, d, lo, hi = point(c)
    ranges = rng(c)
    arg = [list(v)[::-1] for v in ranges] if c["swap"] else [list(v) for v in ranges]
    keep = [list(v) for v in arg]
    xy, r = [x, y], [c["r1"], c["r2"]]
    ctx.nontrivial(c["t"]["f"] not in (0., 1.))
    ctx.label("reachable", lo < d < hi)
    ctx.label("outside", d > hi)
    ctx.label("in the hole", d < lo)
    tp, un = xy2tp(xy, r, arg)
    ctx.expect(arg == keep and xy == [x, y] and r == [c["r1"], c["r2"]], "inputs modified")
    judge(ctx, c, tp, un, ranges, "solve")
    ctx.expect(-1e-9 <= tp[1] <= 180. + 1e-9, "phi %r not in [0,180] without a guess" % tp[1])
    ctx.close(tp2xy(tp, r), where(tp, r), 1e-12, "tp2xy")


@sub(P, lambda: fixed(t=st.one_of(target(), folded(), folded(), folded()), ranges=full_ranges(),
                      guess=st.one_of(mix(-400., 400., 0., 180., -180.), fixed(arm=st.sampled_from([-1, 1]), off=mix(-60., 60., 0., 29.9, 30.1), turn=st.sampled_from([-360., 0., 0., 360.]))), tol=st.one_of(st.just(30.), mix(0., 400., 0., 5.)), **arms()), 6000, 60000,
     "two equivalent solutions in range", shards=4, floor=.1)
def guess(c, ctx):
    """a guess selects the nearest in-range arm configuration and never makes the answer worse"""
    from desimeter.transform.xy2tp import xy2tp
    x, y, d, lo, hi = point(c)
    ranges = rng(c)
    r = (c["r1"], c["r2"])
    tp0, un0 = xy2tp([x, y], r, ranges)
    g = c["guess"]
    if isinstance(g, dict):
        # near one of the two arm configurations
        sol = [t for t, p, s in solutions(x, y, r[0], r[1], [[-360., 360.], [-180., 180.]]) if s == g["arm"]]
        g = (sol[0] if sol else 0.) + g["off"] + g["turn"]
    kw = {} if c["tol"] == 30. else dict(t_guess_tol=c["tol"])
    tp, un = xy2tp([x, y], r, ranges, t_guess=g, **kw)
    judge(ctx, c, tp, un, ranges, "with a guess")
    e0 = math.hypot(where(tp0, r)[0] - x, where(tp0, r)[1] - y)
    e1 = math.hypot(where(tp, r)[0] - x, where(tp, r)[1] - y)
    ctx.expect(e1 <= e0 + 2e-6, "guess moved the fibre from {!r} to {!r} mm off", e0, e1)
    ctx.expect(bool(un) == bool(un0), "guess changed the reachability flag to {}", un)
    if not (lo + 1e-4 < d < hi - 1e-4):
        ctx.nontrivial(False)
        return
    wide = [[ranges[0][0] - 1e-7, ranges[0][1] + 1e-7], [ranges[1][0] - 1e-7, ranges[1][1] + 1e-7]]
    thin = [[ranges[0][0] + 1e-7, ranges[0][1] - 1e-7], [ranges[1][0] + 1e-7, ranges[1][1] - 1e-7]]
    near = solutions(x, y, r[0], r[1], thin)
    ctx.nontrivial(len({s for _, _, s in near}) > 1 or len(near) > 1)
    ctx.label("both arms in range", len({s for _, _, s in near}) > 1)
    ctx.label("theta one turn away in range", any(abs(abs(a[0] - b[0]) - 360) < 1e-6 for a in near for b in near))
    got = abs(tp[0] - g)
    if near:
        best = min(abs(t - g) for t, _, _ in near)
        if best < c["tol"] - 1e-6:
            ctx.label("guess applies")
            ctx.expect(got <= best + 1e-5, "theta {!r} is {:.6f} from the guess {!r}, {:.6f} possible", tp[0], got, g, best)
        elif len({s for _, _, s in near}) > 1 and got > c["tol"] + 1e-6 and min([abs(t - g) for t, _, _ in solutions(x, y, r[0], r[1], wide)] + [1e9]) > c["tol"] + 1e-6:
            ctx.label("guess ignored")
            ctx.close(tp, tp0, 1e-9, "a guess that no solution is near is ignored")


@sub(P, lambda: fixed(t=target(), tmin=mix(-200., 150.), tw=mix(10., 400.), pmin=mix(-60., 120., 0.), pw=mix(10., 260., 180.), guess=st.one_of(st.none(), mix(-400., 400.)), **arms()), 4000, 40000,
     "solution out of range", shards=2, floor=.1)
def narrow_ranges(c, ctx):
    """any ranges at all: angles in range, an unflagged answer is on the target, a flagged one could not be had
    with the arm configuration that was asked for"""
    from desimeter.transform.xy2tp import xy2tp
    x, y, d, lo, hi = point(c)
    ranges = [[c["tmin"], c["tmin"] + c["tw"]], [c["pmin"], c["pmin"] + c["pw"]]]
    r = (c["r1"], c["r2"])
    tp, un = xy2tp([x, y], r, ranges, t_guess=c["guess"])
    in_ranges(ctx, tp, ranges, "narrow ranges")
    px, py = where(tp, r)
    e = math.hypot(px - x, py - y)
    sols = solutions(x, y, r[0], r[1], ranges)
    ctx.nontrivial(bool(un))
    ctx.label("flagged", bool(un))
    ctx.label("no solution", not sols)
    if not un:
        ctx.expect(e < 2e-6, "not flagged but {:.3g} mm off the target", e)
    if un and lo + 1e-4 < d < hi - 1e-4:
        thin = [[v[0] + 1e-7, v[1] - 1e-7] for v in ranges]
        prim = [s for s in solutions(x, y, r[0], r[1], thin) if s[2] == 1]
        ctx.expect(not prim, "flagged although {} reaches the point within the ranges", prim)
    if d > hi + 1e-9 or d < lo - 1e-9:
        ctx.expect(bool(un), "point out of reach not flagged")


@sub(P, lambda: fixed(rows=st.lists(fixed(t=target(), t0=mix(-180., 180., 0.), p0=mix(-20., 20., 0.), guess=mix(-200., 200.), **arms()), min_size=1, max_size=6), g=st.sampled_from(["none", "one", "each"]),
                      tol=st.sampled_from(["default", "one", "each"])), 2000, 20000, "several points", shards=2)
def vectors(c, ctx):
    """the vectorised solver gives, point by point, what the scalar one gives, in the default internal ranges"""
    from desimeter.transform import pos2ptl as M
    rows = c["rows"]
    pts = [point(k) for k in rows]
    x, y = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    g = {k: np.array([r[k] for r in rows]) for k in ("r1", "r2", "t0", "p0", "guess")}
    n = len(rows)
    kw = {}
    if c["g"] == "one":
        kw["t_int_guess"] = rows[0]["guess"]
        g["guess"][:] = rows[0]["guess"]
        g["t0"][:] = g["t0"][0]             # the guess is shifted by the offset, so one guess needs one offset
    elif c["g"] == "each":
        kw["t_int_guess"] = g["guess"]
    tols = np.full(n, 30.)
    if c["tol"] == "one":
        kw["t_guess_tol"] = 50.
        tols[:] = 50.
    elif c["tol"] == "each":
        tols = 10. + 20 * np.arange(n)
        kw["t_guess_tol"] = list(tols)
    ctx.nontrivial(n > 1)
    ctx.label("guess " + c["g"])
    t, p, u = M.loc2int(x, y, g["r1"], g["r2"], g["t0"], g["p0"], **kw)
    ctx.expect(len(t) == n and len(u) == n, "length")
    for i in range(n):
        in_ranges(ctx, (t[i], p[i]), [[-180., 180.], [-20., 200.]], "internal angles of point %d" % i)
        judge(ctx, rows[i], (t[i] + g["t0"][i], p[i] + g["p0"][i]), u[i], [[-1e9, 1e9]] * 2, "point %d" % i)
        k1 = dict(t_guess_tol=float(tols[i]))
        if c["g"] != "none":
            k1["t_int_guess"] = float(g["guess"][i])
        a = M.loc2int(float(x[i]), float(y[i]), float(g["r1"][i]), float(g["r2"][i]), float(g["t0"][i]), float(g["p0"][i]), **k1)
        ctx.close([a[0][0], a[1][0]], [t[i], p[i]], 1e-9, "point %d alone" % i)
        ctx.expect(bool(a[2][0]) == bool(u[i]), "flag of point %d alone" % i)
        b = M.loc2ext(x, y, g["r1"], g["r2"], g["t0"], g["p0"], **({} if c["g"] == "none" else dict(t_ext_guess=g["guess"] + g["t0"])), t_guess_tol=list(tols))
    ctx.close([b[0] - g["t0"], b[1] - g["p0"]], [t, p], 1e-9, "loc2ext")
