"""C04 camera <-> focal plane."""
import os
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, env, zb, tx
from vf.gen import fixed, mix

P = "C04"


def fppoints(n=8):
    return st.lists(st.tuples(mix(0., 425., 0., 425., 420.), gen.angle()).map(list), min_size=1, max_size=n)


def xy(pts):
    p = np.array(pts)
    return p[:, 0] * np.cos(np.radians(p[:, 1])), p[:, 0] * np.sin(np.radians(p[:, 1]))


def label(c, ctx):
    ctx.label("distorted", any(c["t"]["coeffs"]))
    ctx.label("large rotation", abs(c["t"]["rotation"]) > 0.5)
    ctx.label("other reduction", c["t"]["reduce"] != [-3000., 3000., 3000., 3000.])
    ctx.label("other terms", c["t"]["ids"] != tx.STD)
    ctx.nontrivial(any(c["t"]["coeffs"]) and max(p[0] for p in c["pts"]) > 1)


IDS = st.one_of(st.just(tx.STD), st.just([2, 5, 6, 9, 20, 28, 29, 30]),
                st.lists(st.integers(0, 32), unique=True, min_size=0, max_size=33))


def case():
    return IDS.flatmap(lambda ids: fixed(t=tx.camera(ids), pts=fppoints()))


@sub(P, case, 2500, 30000, "non-zero distortion and a point off centre", shards=4)
def both_ways(c, ctx):
    """focal plane -> pixels -> focal plane and pixels -> focal plane -> pixels"""
    t = tx.make(c["t"])
    label(c, ctx)
    xf, yf = xy(c["pts"])
    xp, yp = t.fp2fvc(xf, yf)
    px = abs(c["t"]["reduce"][0])
    x2, y2 = t.fvc2fp(xp, yp)
    ctx.close(x2, xf, 1e-6, "xfp after round trip [mm]")
    ctx.close(y2, yf, 1e-6, "yfp after round trip [mm]")
    x3, y3 = t.fp2fvc(x2, y2)
    ctx.close(x3, xp, 1e-5, "xpix after round trip")
    ctx.close(y3, yp, 1e-5, "ypix after round trip")
    # and starting from pixels near those
    qx, qy = xp + 0.37, yp - 0.81
    f = t.fvc2fp(qx, qy)
    keep = np.hypot(f[0], f[1]) < 426
    if np.any(keep):
        b = t.fp2fvc(f[0][keep], f[1][keep])
        ctx.close(b[0], qx[keep], 1e-5, "pixel x after round trip")
        ctx.close(b[1], qy[keep], 1e-5, "pixel y after round trip")


@sub(P, case, 2500, 30000, "non-zero distortion and a point off centre", shards=3)
def documented_map(c, ctx):
    """both directions against an own model of reduction, scale, rotation, offset and distortion"""
    t = tx.make(c["t"])
    label(c, ctx)
    xf, yf = xy(c["pts"])
    xp, yp = tx.inverse(c["t"], xf, yf)
    ctx.close(t.fvc2fp(xp, yp), [xf, yf], 1e-6, "forward map against the reference model [mm]")
    ctx.close(t.fp2fvc(xf, yf), [xp, yp], 1e-5, "inverse map against the reference model [pixel]")


@sub(P, lambda: fixed(polid=st.integers(0, 32), pts=st.lists(st.tuples(mix(0., 1.05, 0., 1.), gen.angle()).map(list), min_size=1, max_size=6),
                      c=st.lists(st.tuples(st.integers(0, 32), mix(-2., 2., 0., 1.)).map(list), min_size=1, max_size=12)),
     2000, 20000, "a point off centre", shards=2)
def polynomials(c, ctx):
    """every Zhao-Burge term against its Cartesian form; curl or divergence free; sums of terms"""
    from desimeter.transform import zhaoburge as Z
    x, y = xy(c["pts"])
    p = c["polid"]
    ctx.nontrivial(max(q[0] for q in c["pts"]) > 0)
    ref = zb.terms(x, y)
    got = Z.getZhaoBurgeTerm(p, x, y)
    ctx.close(got[0] + 0 * x, ref[p][0], 1e-10, "term %d, x" % p)
    ctx.close(got[1] + 0 * x, ref[p][1], 1e-10, "term %d, y" % p)
    ids, co = [q[0] for q in c["c"]], [q[1] for q in c["c"]]
    dx, dy = Z.getZhaoBurgeXY(ids, co, x, y)
    ex, ey = zb.eval(ids, co, x, y)
    ctx.close([dx, dy], [ex, ey], 1e-9, "sum of terms")
    # gradient (S) terms are curl free, the others (T) divergence free
    h = 1e-4
    xs, ys = np.array([x + h, x - h, x, x]), np.array([y, y, y + h, y - h])
    g = Z.getZhaoBurgeTerm(p, xs.ravel(), ys.ravel())
    gx, gy = (g[0] + 0 * xs.ravel()).reshape(xs.shape), (g[1] + 0 * xs.ravel()).reshape(xs.shape)
    if p < 27:
        ctx.close((gy[0] - gy[1] - gx[2] + gx[3]) / 2 / h, 0 * x, 2e-5, "curl of term %d" % p)
    else:
        ctx.close((gx[0] - gx[1] + gy[2] - gy[3]) / 2 / h, 0 * x, 2e-5, "divergence of term %d" % p)


_tx = {}


@sub(P, lambda: fixed(f=st.sampled_from(["init-fvc2fp", "single-lens-fvc2fp", "canon-lens-fvc2fp"]), pts=fppoints()), 600, 6000,
     "a point off centre")
def shipped(c, ctx):
    """round trips of the shipped transforms"""
    from desimeter.transform.fvc2fp import FVC2FP, read_jsonfile
    fn = os.path.join(env.REPO, "py/desimeter/data/%s.json" % c["f"])
    ctx.nontrivial(max(q[0] for q in c["pts"]) > 0)
    for t in (FVC2FP.read(fn), read_jsonfile(fn)):
        xf, yf = xy(c["pts"])
        xp, yp = t.fp2fvc(xf, yf)
        ctx.expect(np.all((xp > 0) & (xp < 6000) & (yp > 0) & (yp < 6000)), "focal plane outside the camera frame")
        ctx.close(t.fvc2fp(xp, yp), [xf, yf], 1e-7, "round trip of shipped transform [mm]")
        x3, y3 = t.fp2fvc(*t.fvc2fp(xp, yp))
        ctx.close([x3, y3], [xp, yp], 1e-6, "pixel round trip of shipped transform")
