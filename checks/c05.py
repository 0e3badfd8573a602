"""C05 fits recover the transform that generated the data."""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, env, zb, tx
from vf.gen import fixed, mix

P = "C05"
_metro = None


def metro():
    """own reading of the shipped metrology"""
    global _metro
    if _metro is None:
        from astropy.table import Table
        import os
        t = Table.read(os.path.join(env.REPO, "py/desimeter/data/fp-metrology.csv"))
        _metro = t
    return _metro


def scene():
    return fixed(t=tx.camera(sro_small=True), seed=gen.seeds(), nfid=st.integers(40, 123), nominal_reduce=st.just(True),
                 npos=st.integers(0, 60), nunk=st.integers(0, 10), drop=st.integers(0, 60))


def build(c, perm_seed=None):
    """spot table from the true transform: fiducial pinholes, positioners, unmatched spots, shuffled"""
    from astropy.table import Table
    rng = np.random.RandomState(c["seed"])
    m = metro()
    fid = (m["PINHOLE_ID"] > 0) & (m["LOCATION"] >= 0)
    locs = np.unique(np.array(m["LOCATION"][fid]))
    locs = np.sort(rng.permutation(locs)[:c["nfid"]])
    ii = np.where(fid & np.isin(m["LOCATION"], locs))[0]
    # always keep the coverage wide: only drop single pinholes
    drop = rng.permutation(len(ii))[:min(c["drop"], len(ii) // 3)]
    ii = np.delete(ii, drop)
    pos = np.where((m["DEVICE_TYPE"] == "POS") & (m["PINHOLE_ID"] == 0))[0]
    pp = rng.permutation(pos)[:c["npos"]]
    X = np.concatenate([np.array(m["X_FP"][ii]), np.array(m["X_FP"][pp]) + rng.uniform(-4, 4, len(pp)), rng.uniform(-250, 250, c["nunk"])])
    Y = np.concatenate([np.array(m["Y_FP"][ii]), np.array(m["Y_FP"][pp]) + rng.uniform(-4, 4, len(pp)), rng.uniform(-250, 250, c["nunk"])])
    L = np.concatenate([np.array(m["LOCATION"][ii]), np.array(m["LOCATION"][pp]), np.repeat(-1, c["nunk"])]).astype(int)
    H = np.concatenate([np.array(m["PINHOLE_ID"][ii]), np.zeros(len(pp)), np.zeros(c["nunk"])]).astype(int)
    xp, yp = tx.inverse(c["t"], X, Y)
    s = Table(dict(XPIX=xp, YPIX=yp, LOCATION=L, PINHOLE_ID=H, TRUE_X=X, TRUE_Y=Y, COUNTS=rng.uniform(100, 5000, len(X))))
    perm = np.random.RandomState(c["seed"] + 1 if perm_seed is None else perm_seed).permutation(len(s))
    return s[perm], len(ii)


def new_tx(c):
    from desimeter.transform.fvc2fp import FVC2FP
    t = FVC2FP()
    t.xfvc_scale, t.yfvc_scale, t.xfvc_offset, t.yfvc_offset = c["t"]["reduce"]
    return t


def budget(c, extra=0.):
    """The family (shift/scale/rotation, then distortion) is closed under composition only to second
    order in the coefficients, and the linear part is fitted first: the prediction error of a correct
    fit is second order in their size (measured: below 0.45 of this scale at the fiducials)."""
    a = np.abs(c["t"]["coeffs"])
    return 420 * .25 * (a.sum() + extra) * ((a * GRAD).sum() + 2 * extra) + 1e-3


GRAD = np.array([1, 1, 2, 2, 2, 5, 5, 9, 50, 2, 5, 5, 9.])     # typical gradient of each standard term over the unit disc


def least_squares_residual(t, s):
    """smallest r.m.s. residual over the distortion coefficients, for the fitted scale, rotation and offset [mm]"""
    m = metro()
    key = {(int(l), int(p)): (float(x), float(y)) for l, p, x, y in zip(m["LOCATION"], m["PINHOLE_ID"], m["X_FP"], m["Y_FP"])}
    k = np.array(s["PINHOLE_ID"]) > 0
    XY = np.array([key[(int(l), int(p))] for l, p in zip(s["LOCATION"][k], s["PINHOLE_ID"][k])]) / 420.
    u, v = (np.array(s["XPIX"])[k] - t.xfvc_offset) / t.xfvc_scale, (np.array(s["YPIX"])[k] - t.yfvc_offset) / t.yfvc_scale
    x, y = zb.forward(u, v, t.scale, t.rotation, t.offset_x, t.offset_y, [], [])
    T = zb.terms(x, y)
    H = np.array([np.concatenate(T[i]) for i in tx.STD]).T
    d = np.concatenate([XY[:, 0] - x, XY[:, 1] - y])
    r = d - H.dot(np.linalg.lstsq(H, d, rcond=None)[0])
    return 420 * np.sqrt(2 * np.mean(r**2))


def same_table(ctx, a, b, cols, what):
    for k in cols:
        ctx.expect(np.array_equal(np.array(a[k]), np.array(b[k])), "%s: column %s changed" % (what, k))


@sub(P, scene, 160, 1600, "non-zero distortion", shards=8)
def camera_fit(c, ctx):
    """fit of spots made by a known transform reproduces it; distortion against an own least-squares solution"""
    s, nfid = build(c)
    m = metro().copy()
    t = new_tx(c)
    keep = s.copy()
    mkeep = m.copy()
    ctx.nontrivial(any(c["t"]["coeffs"]))
    ctx.label("with positioner rows", c["npos"] > 0)
    ctx.label("with unmatched rows", c["nunk"] > 0)
    t.fit(s, metrology=m)
    ctx.expect(s.colnames == keep.colnames, "fit without update changed the table")
    same_table(ctx, s, keep, keep.colnames, "fit without update")
    same_table(ctx, m, mkeep, ["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP"], "metrology given to the fit")
    ctx.expect(t.nmatch == nfid, "nmatch %r, %d fiducial spots" % (t.nmatch, nfid))
    fid = np.array(s["PINHOLE_ID"]) > 0
    x, y = t.fvc2fp(np.array(s["XPIX"]), np.array(s["YPIX"]))
    d = np.hypot(x - s["TRUE_X"], y - s["TRUE_Y"])
    ctx.close(np.array(d[fid]), np.zeros(fid.sum()), budget(c), "fiducial prediction error [mm]")
    best = least_squares_residual(t, s)
    ctx.close(np.sqrt(np.mean(d[fid]**2)), best, 1e-6 + 1e-5 * best, "rms residual, against the least-squares distortion [mm]")
    # everywhere between the fiducials
    r, p = np.meshgrid([20., 120., 220., 300., 350.], np.arange(0, 360, 40.))
    X, Y = (r * np.cos(np.radians(p))).ravel(), (r * np.sin(np.radians(p))).ravel()
    xp, yp = tx.inverse(c["t"], X, Y)
    x, y = t.fvc2fp(xp, yp)
    ctx.close(np.hypot(x - X, y - Y), np.zeros(len(X)), 2.5 * budget(c), "prediction error away from the fiducials [mm]")
    dd = 1000 * np.array(d[fid])
    ctx.close([t.meandistance, t.mediandistance, t.rmsdistance], [dd.mean(), np.median(dd), np.sqrt(np.mean(dd**2))], 1e-6 + 1e-6 * dd.max(),
              "reported residuals [um]")


@sub(P, scene, 80, 800, "table with several kinds of rows", shards=8)
def table_update(c, ctx):
    """updated table columns; order of rows and rows without identification do not matter; nothing else changes"""
    s, nfid = build(c)
    m = metro()
    if c["seed"] % 3 == 0:     # spots without a location that still carry the number of a hole
        k = np.flatnonzero(np.array(s["LOCATION"]) < 0)[::2]
        s["PINHOLE_ID"][k] = 1 + np.arange(len(k)) % 4
        ctx.label("number without a location", len(k) > 0)
    keep = s.copy()
    t, u, v = new_tx(c), new_tx(c), new_tx(c)
    ctx.nontrivial(c["npos"] > 0 and c["nunk"] > 0)
    t.fit(s, metrology=m.copy(), update_spots=True)
    same_table(ctx, s, keep, keep.colnames, "fit with update")
    # order of rows and presence of other rows do not matter
    s2 = keep[np.random.RandomState(c["seed"] + 7).permutation(len(keep))]
    u.fit(s2, metrology=m[np.random.RandomState(c["seed"] + 8).permutation(len(m))], update_spots=True)
    s3 = keep[(np.array(keep["PINHOLE_ID"]) > 0) & (np.array(keep["LOCATION"]) >= 0)]
    v.fit(s3)
    for o in (u, v):
        ctx.close([o.scale, o.rotation, o.offset_x, o.offset_y], [t.scale, t.rotation, t.offset_x, t.offset_y], 1e-9, "parameters, other row order")
        ctx.close(o.zbcoeffs, t.zbcoeffs, 1e-9, "coefficients, other row order")
    key = {(int(l), int(p)): (float(x), float(y), float(z)) for l, p, x, y, z in zip(m["LOCATION"], m["PINHOLE_ID"], m["X_FP"], m["Y_FP"], m["Z_FP"])}
    for tab, fit in ((s, t), (s2, u)):
        x, y = fit.fvc2fp(np.array(tab["XPIX"]), np.array(tab["YPIX"]))
        ctx.close(np.array(tab["X_FP"]), x, 1e-9, "X_FP column")
        ctx.close(np.array(tab["Y_FP"]), y, 1e-9, "Y_FP column")
        want = np.array([key[(int(l), int(p))] if p > 0 and l >= 0 else (0., 0., 0.) for l, p in zip(tab["LOCATION"], tab["PINHOLE_ID"])])
        got = np.array([tab["X_FP_METRO"], tab["Y_FP_METRO"], tab["Z_FP_METRO"]]).T
        ctx.close(got, want, 1e-9, "metrology columns")


@sub(P, lambda: fixed(s=scene(), fs=st.booleans(), fr=st.booleans(), zbfit=st.booleans(), zero=st.booleans(), ds=mix(-.01, .01), dr=mix(-.01, .01)), 120, 1200,
     "scale or rotation held fixed", shards=8)
def fixed_components(c, ctx):
    """held components stay exactly as they were; with the distortion held too the rest is recovered"""
    if c["zero"]:        # a rotation of exactly zero is a value like any other
        c = dict(c, s=dict(c["s"], t=dict(c["s"]["t"], rotation=0.)), dr=0.)
    s, nfid = build(c["s"])
    t = new_tx(c["s"])
    p = c["s"]["t"]
    t.zbcoeffs = np.array(p["coeffs"], dtype=float)
    t.scale = p["scale"] + (0. if not c["zbfit"] else c["ds"])
    t.rotation = p["rotation"] + (0. if not c["zbfit"] else c["dr"])
    s0, r0, z0 = t.scale, t.rotation, t.zbcoeffs.copy()
    ctx.nontrivial(c["fs"] or c["fr"])
    t.fit(s, zbfit=c["zbfit"], fixed_scale=c["fs"], fixed_rotation=c["fr"])
    if c["fs"]:
        ctx.expect(t.scale == s0, "fixed scale changed from %r to %r" % (s0, t.scale))
    if c["fr"]:
        ctx.expect(t.rotation == r0, "fixed rotation changed from %r to %r" % (r0, t.rotation))
    fid = np.array(s["PINHOLE_ID"]) > 0
    x, y = t.fvc2fp(np.array(s["XPIX"])[fid], np.array(s["YPIX"])[fid])
    d = np.hypot(x - np.array(s["TRUE_X"])[fid], y - np.array(s["TRUE_Y"])[fid])
    if not c["zbfit"]:
        ctx.expect(np.array_equal(z0, t.zbcoeffs), "distortion changed although it is not fitted")
        ctx.close([t.scale, t.rotation, t.offset_x, t.offset_y], [p[k] for k in ("scale", "rotation", "offset_x", "offset_y")], 3e-6, "recovered parameters")
        ctx.close(d, 0 * d, 2e-3, "fiducial prediction error [mm]")
    else:
        ctx.close(d, 0 * d, budget(c["s"], abs(c["ds"]) + abs(c["dr"])), "fiducial prediction error, fixed components [mm]")


@sub(P, lambda: fixed(ids=st.one_of(st.just(tx.STD), st.lists(st.integers(0, 32), unique=True, min_size=1, max_size=20)),
                      co=st.lists(mix(-.01, .01, 0.), min_size=33, max_size=33), seed=gen.seeds(), n=st.integers(40, 120)),
     400, 4000, "at least two terms", shards=2)
def distortion_fit(c, ctx):
    """linear fit of the distortion terms recovers every coefficient"""
    from desimeter.transform.zhaoburge import fitZhaoBurge
    rng = np.random.RandomState(c["seed"])
    r, p = np.sqrt(rng.uniform(0, 1, c["n"])), rng.uniform(0, 2 * np.pi, c["n"])
    x, y = r * np.cos(p), r * np.sin(p)
    ids, co = np.array(c["ids"]), np.array([c["co"][i] for i in c["ids"]])
    dx, dy = zb.eval(ids, co, x, y)
    ctx.nontrivial(len(ids) > 1)
    for perm in (np.arange(len(x)), rng.permutation(len(x))):
        keep = x[perm].copy()
        ri, rc = fitZhaoBurge(x[perm], y[perm], (x + dx)[perm], (y + dy)[perm], polids=ids)
        ctx.expect(list(ri) == list(ids), "polynomial ids changed")
        ctx.close(rc, co, 1e-8, "coefficients")
    if list(ids) == tx.STD:
        ri, rc = fitZhaoBurge(x, y, x + dx, y + dy)
        ctx.expect(list(ri) == tx.STD, "default polynomial ids")
        ctx.close(rc, co, 1e-8, "coefficients with the default terms")


@sub(P, lambda: fixed(co=tx.coeffs(tx.STD), seed=gen.seeds(), n=st.integers(60, 200)), 500, 5000, "non-zero distortion", shards=2)
def platemaker_fit(c, ctx):
    """fit of the platemaker transform recovers a known one"""
    from desimeter.transform.dm2pm import DM2PM
    rng = np.random.RandomState(c["seed"])
    r, p = 410 * np.sqrt(rng.uniform(0, 1, c["n"])), rng.uniform(0, 2 * np.pi, c["n"])
    x, y = r * np.cos(p), r * np.sin(p)
    co = 0.05 * np.array(c["co"])            # the two systems differ by tens of microns
    dx, dy = zb.eval(tx.STD, co, x / 420., y / 420.)
    xpm, ypm = x + 420 * dx, y + 420 * dy
    ctx.nontrivial(any(c["co"]))
    t = DM2PM()
    t.fit(x, y, xpm, ypm)
    ctx.close(t.dm2pm_zbcoeffs, co, 1e-9, "coefficients")
    ctx.close(t.dm2pm(x, y), [xpm, ypm], 1e-7, "fitted points [mm]")
    r2, p2 = 400 * np.sqrt(rng.uniform(0, 1, 30)), rng.uniform(0, 2 * np.pi, 30)
    u, v = r2 * np.cos(p2), r2 * np.sin(p2)
    du, dv = zb.eval(tx.STD, co, u / 420., v / 420.)
    ctx.close(t.dm2pm(u, v), [u + 420 * du, v + 420 * dv], 1e-7, "other points [mm]")
    ctx.close(t.pm2dm(*t.dm2pm(u, v)), [u, v], 2e-3, "back to the first system [mm]")
    ctx.close(t.dm2pm(*t.pm2dm(u, v)), [u, v], 2e-3, "and the other way [mm]")
    q = rng.permutation(len(x))
    t2 = DM2PM()
    t2.fit(x[q], y[q], xpm[q], ypm[q])
    ctx.close(t2.dm2pm_zbcoeffs, t.dm2pm_zbcoeffs, 1e-10, "row order, forward")
    ctx.close(t2.pm2dm_zbcoeffs, t.pm2dm_zbcoeffs, 1e-10, "row order, backward")


@sub(P, lambda: fixed(pts=st.lists(st.tuples(mix(0., 410., 0.), gen.angle()).map(list), min_size=1, max_size=6)), 300, 3000, "point off centre")
def shipped_platemaker(c, ctx):
    """the shipped platemaker transform against own polynomials, round trips"""
    import os, json
    from desimeter.transform.dm2pm import DM2PM
    fn = os.path.join(env.REPO, "py/desimeter/data/dm2pm.json")
    t = DM2PM.read(fn)
    raw = json.load(open(fn))
    p = np.array(c["pts"])
    x, y = p[:, 0] * np.cos(np.radians(p[:, 1])), p[:, 0] * np.sin(np.radians(p[:, 1]))
    ctx.nontrivial(p[:, 0].max() > 0)
    dx, dy = zb.eval(raw["zbpolids"], raw["dm2pm_zbcoeffs"], x / 420, y / 420)
    ctx.close(t.dm2pm(x, y), [x + 420 * dx, y + 420 * dy], 1e-9, "to platemaker [mm]")
    ctx.close(t.pm2dm(*t.dm2pm(x, y)), [x, y], 1e-3, "round trip [mm]")
    ctx.close(t.dm2pm(*t.pm2dm(x, y)), [x, y], 1e-3, "round trip [mm]")
