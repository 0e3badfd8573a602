"""C08 guider camera and petal frames."""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, data, fresh
from vf.gen import fixed, mix

P = "C08"
NX, NY = 2048, 1032


def gfa_reference(p):
    """affine map by least squares from pixel corners to surveyed corners, moved along the sensor normal
    by 2.23 mm because the sensor is below the focal surface (comment in gfa2fp.py, DESI-5336)"""
    m = data.metro_np()
    k = np.where((m["DEVICE_TYPE"] == "GFA") & (m["PETAL_LOC"] == p))[0]
    k = k[np.argsort(m["PINHOLE_ID"][k])]
    X = np.array([m["X_FP"][k], m["Y_FP"][k], m["Z_FP"][k]], float)
    A = np.array([[1, 0, 0], [1, NX - 1, 0], [1, NX - 1, NY - 1], [1, 0, NY - 1]], float)
    cx = np.linalg.lstsq(A, X[0], rcond=None)[0]
    cy = np.linalg.lstsq(A, X[1], rcond=None)[0]
    n = np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 1])
    return cx, cy, 2.23 * n[0] / n[2], 2.23 * n[1] / n[2], X


def pix():
    return st.lists(st.tuples(mix(-200., 2250., 0., 2047., 1023.5), mix(-200., 1250., 0., 1031., 515.5)).map(list), min_size=1, max_size=6)


@sub(P, lambda: fixed(p=st.integers(0, 9), pts=pix(), kind=st.sampled_from(["array", "scalar", "int"])), 3000, 30000, "several points or off-sensor point", shards=2)
def guider(c, ctx):
    """pixel frames of the guide cameras against the shipped metrology; rigid, orientation preserving, invertible"""
    from desimeter.transform.gfa2fp import gfa2fp, fp2gfa
    p = c["p"]
    a = np.array(c["pts"])
    if c["kind"] == "int":
        a = np.round(a).astype(int)
    x, y = a[:, 0], a[:, 1]
    if c["kind"] == "scalar":
        x, y = float(x[0]), float(y[0])
    ctx.nontrivial(len(c["pts"]) > 1 or not (0 <= a[0, 0] <= NX and 0 <= a[0, 1] <= NY))
    ctx.label(c["kind"])
    u, v = gfa2fp(p, x, y)
    cx, cy, dx, dy, X = gfa_reference(p)
    ctx.close(u, cx[0] + cx[1] * x + cx[2] * y + dx, 2e-3, "GFA %d pixel to focal plane, x [mm]" % p)
    ctx.close(v, cy[0] + cy[1] * x + cy[2] * y + dy, 2e-3, "GFA %d pixel to focal plane, y [mm]" % p)
    bx, by = fp2gfa(p, u, v)
    ctx.close([bx, by], [np.asarray(x, float), np.asarray(y, float)], 1e-6, "GFA %d to focal plane and back [pixel]" % p)
    u2, v2 = gfa2fp(p, *fp2gfa(p, np.asarray(u) + 1., np.asarray(v) - 2.))
    ctx.close([u2, v2], [np.asarray(u) + 1., np.asarray(v) - 2.], 1e-8, "focal plane to GFA %d and back [mm]" % p)
    # similarity: 15 micron pixels, right angles, orientation kept
    o = np.array(gfa2fp(p, 0., 0.))
    ex = (np.array(gfa2fp(p, 1000., 0.)) - o) / 1000.
    ey = (np.array(gfa2fp(p, 0., 1000.)) - o) / 1000.
    ctx.close([np.hypot(*ex), np.hypot(*ey)], [.015, .015 * np.cos(np.radians(5.33))], .015 * 1.5e-3, "pixel size of GFA %d" % p)
    ctx.close(np.dot(ex, ey) / np.hypot(*ex) / np.hypot(*ey), 0., 3e-3, "axes of GFA %d" % p)
    ctx.expect(ex[0] * ey[1] - ex[1] * ey[0] > 0, "orientation of GFA %d" % p)
    # surveyed corners
    cxs, cys = gfa2fp(p, np.array([0, NX - 1, NX - 1, 0.]), np.array([0, 0, NY - 1, NY - 1.]))
    ctx.close([cxs - dx, cys - dy], [X[0], X[1]], 2e-3, "surveyed corners of GFA %d [mm]" % p)
    ctx.close(np.hypot(dx, dy), 2.23 * np.tan(np.radians(5.33)), .01, "tilt of the surveyed sensor")


@sub(P, lambda: fixed(p=st.sampled_from([-1, 10, 11, 25]), q=st.integers(0, 9)), 60, 200, "always", floor=.01)
def guider_without_metrology(c, ctx):
    """the same with generated metrology sets loaded from another data directory"""
    from desimeter.transform.gfa2fp import gfa2fp, fp2gfa
    ctx.nontrivial()
    want = gfa2fp(c["q"], 100., 200.)
    for f in (gfa2fp, fp2gfa):
        ctx.raises((KeyError,), lambda: f(c["p"], 1., 2.), "GFA of petal location %d" % c["p"])
    ctx.close(gfa2fp(c["q"], 100., 200.), want, 0., "after a refused petal")


def ptl_points(n_max=6):
    return st.lists(st.tuples(mix(-30., 420., 0.), mix(-140., 140., 0.), mix(-25., 5., 0.)).map(list), min_size=1, max_size=n_max)


def ref_matrix(a):
    from scipy.spatial.transform import Rotation
    # turn about the fixed x axis by alpha, then y by beta, then z by gamma
    return Rotation.from_euler("xyz", [a["alpha"], a["beta"], a["gamma"]]).as_matrix()


@sub(P, lambda: fixed(p=st.integers(0, 9), pts=ptl_points()), 2500, 25000, "several points", shards=2)
def petal(c, ctx):
    """petal frames against an own Euler-angle matrix; distances kept; round trips with and without z"""
    from desimeter.transform.ptl2fp import ptl2fp, fp2ptl
    a = data.petals()[c["p"]]
    x, y, z = np.array(c["pts"]).T
    ctx.nontrivial(len(x) > 1)
    R, T = ref_matrix(a), np.array([a["Tx"], a["Ty"], a["Tz"]])
    f = np.array(ptl2fp(c["p"], x, y, z))
    ctx.close(f, R.dot([x, y, z]) + T[:, None], 1e-9, "petal %d to focal plane [mm]" % c["p"])
    ctx.close(np.array(fp2ptl(c["p"], *f)), [x, y, z], 1e-9, "petal %d to focal plane and back" % c["p"])
    ctx.close(np.array(ptl2fp(c["p"], *fp2ptl(c["p"], x, y, z))), [x, y, z], 1e-9, "focal plane to petal %d and back" % c["p"])
    d = lambda v: np.sqrt(((v[:, :, None] - v[:, None, :])**2).sum(axis=0))
    ctx.close(d(f), d(np.array([x, y, z])), 1e-9, "distances")
    # without z: the nominal sag, and still a round trip in x, y
    r = np.hypot(x, y)
    zt = np.interp(r, np.array(SURF()["R"]), np.array(SURF()["Z"]), left=np.nan, right=np.nan)
    f2 = np.array(ptl2fp(c["p"], x, y))
    ctx.close(f2, R.dot([x, y, zt]) + T[:, None], 1e-9, "petal %d to focal plane, nominal z" % c["p"])
    b = fp2ptl(c["p"], f2[0], f2[1])
    ctx.close([b[0], b[1]], [x, y], 1e-6, "petal %d and back, nominal z" % c["p"])
    ctx.close(b[2], zt, 2e-2, "nominal z after a round trip")
    s = ptl2fp(c["p"], float(x[0]), float(y[0]), float(z[0]))
    ctx.close(np.ravel(s), f[:, 0], 1e-12, "single point")


_surf = {}


def SURF():
    if not _surf:
        from astropy.table import Table
        t = Table.read(data.path("focal_surface_lookup.csv"), format="csv", comment="#")
        for k in "RZSN":
            _surf[k] = np.array(t[k], float)
    return _surf


@sub(P, lambda: fixed(rows=st.lists(st.tuples(st.integers(0, 9), mix(-30., 420.), mix(-140., 140.), mix(-25., 5.)).map(list), min_size=1, max_size=30), seed=gen.seeds()),
     1000, 10000, "several petals", shards=2)
def petal_table(c, ctx):
    """conversion of tables row by row, other columns untouched"""
    from astropy.table import Table
    from desimeter.transform.ptl2fp import apply_ptl2fp, ptl2fp
    r = np.array(c["rows"])
    t = Table(dict(PETAL_LOC=r[:, 0].astype(int), X_PTL=r[:, 1], Y_PTL=r[:, 2], Z_PTL=r[:, 3], OTHER=np.arange(len(r))))
    keep = t.copy()
    ctx.nontrivial(len(set(r[:, 0])) > 1)
    o = apply_ptl2fp(t)
    for k in keep.colnames:
        ctx.expect(np.array_equal(np.array(o[k]), np.array(keep[k])), "column %s changed" % k)
    got = np.array([o["X_FP"], o["Y_FP"], o["Z_FP"]])
    for i, (p, x, y, z) in enumerate(r):
        a = data.petals()[int(p)]
        ctx.close(got[:, i], ref_matrix(a).dot([x, y, z]) + [a["Tx"], a["Ty"], a["Tz"]], 1e-9, "row %d of petal %d" % (i, p))
        ctx.close(np.ravel(ptl2fp(int(p), x, y, z)), got[:, i], 1e-9, "row alone")


@sub(P, lambda: fixed(al=st.lists(fixed(alpha=mix(-.01, .01, 0.), beta=mix(-.01, .01, 0.), gamma=mix(-3.2, 3.2, 0.), Tx=mix(-1., 1., 0.), Ty=mix(-1., 1.), Tz=mix(-1., 1.)), min_size=1, max_size=4),
                      big=st.booleans(), pts=ptl_points(4)), 200, 2000, "tilted petal", shards=2)
def petal_other_alignment(c, ctx):
    """an alignment table with tilts, in the data directory named by DESIMETER_DATA"""
    import yaml
    from astropy.table import Table
    al = {i: dict(a) for i, a in enumerate(c["al"])}
    if c["big"]:
        for a in al.values():
            a["alpha"] *= 50; a["beta"] *= 50
    ctx.nontrivial(any(a["alpha"] or a["beta"] for a in al.values()))
    x, y, z = np.array(c["pts"]).T
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "petal-alignments.yaml"), "w") as f:
            yaml.safe_dump(al, f)
        with fresh.Package(d) as imp:
            m = imp("desimeter.transform.ptl2fp")
            order = list(al)[::-1] + list(al)
            for p in order:
                a = al[p]
                want = ref_matrix(a).dot([x, y, z]) + np.array([a["Tx"], a["Ty"], a["Tz"]])[:, None]
                f = np.array(m.ptl2fp(p, x, y, z))
                ctx.close(f, want, 1e-9, "petal %d to focal plane" % p)
                ctx.close(np.array(m.fp2ptl(p, *f)), [x, y, z], 1e-9, "petal %d and back" % p)
            ps = np.arange(len(x)) % len(al)
            t = m.apply_ptl2fp(Table(dict(PETAL_LOC=ps, X_PTL=x, Y_PTL=y, Z_PTL=z)))
            for i, p in enumerate(ps):
                a = al[p]
                ctx.close([t["X_FP"][i], t["Y_FP"][i], t["Z_FP"][i]], ref_matrix(a).dot([x[i], y[i], z[i]]) + [a["Tx"], a["Ty"], a["Tz"]], 1e-9, "table row %d" % i)


@sub(P, lambda: fixed(seed=gen.seeds(), petals=st.lists(st.integers(0, 9), unique=True, min_size=1, max_size=10), shift=mix(-5., 5., 0.), turn=mix(-180., 180., 90., 0., 180.)), 300, 3000, "camera moved", shards=2)
def guider_other_metrology(c, ctx):
    """sensors at any place and angle: the fit depends on that petal's rows only, in any order"""
    from desimeter.transform.gfa2fp import fit_gfa2fp
    m = data.metrology()
    g = m[(m["DEVICE_TYPE"] == "GFA") | (m["DEVICE_TYPE"] == "GIF")].copy()
    rng = np.random.RandomState(c["seed"])
    g = g[np.isin(g["PETAL_LOC"], c["petals"])]
    t = np.radians(c["turn"])
    for p in c["petals"]:
        k = np.where(g["PETAL_LOC"] == p)[0]
        x, y = np.array(g["X_FP"][k]), np.array(g["Y_FP"][k])
        # a turn of the sensor about its own centre
        x0, y0 = x.mean(), y.mean()
        g["X_FP"][k] = x0 + np.cos(t) * (x - x0) - np.sin(t) * (y - y0) + c["shift"]
        g["Y_FP"][k] = y0 + np.sin(t) * (x - x0) + np.cos(t) * (y - y0) - c["shift"]
    g = g[rng.permutation(len(g))]
    keep = g.copy()
    ctx.nontrivial(c["turn"] != 0)
    f = fit_gfa2fp(g)
    ctx.expect(all(np.array_equal(np.array(g[k]), np.array(keep[k])) for k in ("X_FP", "Y_FP", "Z_FP", "PETAL_LOC", "PINHOLE_ID")), "metrology table modified")
    ctx.expect(sorted(f) == sorted(c["petals"]), "cameras %s for petals %s" % (sorted(f), sorted(c["petals"])))
    for p in c["petals"]:
        k = np.where((keep["PETAL_LOC"] == p) & (keep["DEVICE_TYPE"] == "GFA"))[0]
        k = k[np.argsort(keep["PINHOLE_ID"][k])]
        X = np.array([keep["X_FP"][k], keep["Y_FP"][k], keep["Z_FP"][k]])
        n = np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 1])
        u, v = f[p].apply(np.array([0, NX - 1, NX - 1, 0.]), np.array([0, 0, NY - 1, NY - 1.]))
        ctx.close([u - 2.23 * n[0] / n[2], v - 2.23 * n[1] / n[2]], X[:2], 2e-3, "corners of GFA %d [mm]" % p)
        b = f[p].apply_inverse(u, v)
        ctx.close(b, [np.array([0, NX - 1, NX - 1, 0.]), np.array([0, 0, NY - 1, NY - 1.])], 1e-6, "and back [pixel]")
