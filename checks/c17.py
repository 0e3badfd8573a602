"""C17 spot detection"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import erf
from vf.core import sub
from vf import gen
from vf.gen import fixed, uni

P = "C17"


def spot(shape, x, y, flux, s):
    a = 1 / np.sqrt(2) / s
    u, v = np.arange(shape[1]), np.arange(shape[0])
    return flux * .25 * (erf(a * (u + .5 - x)) - erf(a * (u - .5 - x)))[None] * (erf(a * (v + .5 - y)) - erf(a * (v - .5 - y)))[:, None]


def centres(rs, n, shape, margin, sep):
    out = []
    for _ in range(60 * n):
        if len(out) == n:
            break
        x, y = rs.uniform(margin, shape[1] - 1 - margin), rs.uniform(margin, shape[0] - 1 - margin)
        if all(max(abs(x - a), abs(y - b)) > sep for a, b in out):
            out.append((x, y))
    return np.array(out)


def scene():
    return dict(seed=gen.seeds(), n0=st.integers(60, 220), n1=st.integers(60, 220), n=st.integers(1, 25), bg=st.one_of(uni(0., 3000.), st.sampled_from([0., 1000., 20000.])),
                noise=st.sampled_from([1., 5., 20., 35.]), sigma=st.sampled_from([1., 1., 1., .9, 1.15]), grid=st.sampled_from([0., 0., .5, 1.]),
                logmax=uni(4.2, 6.5))


def build(c, margin=8., sep=14.):
    rs = np.random.RandomState(c["seed"] % 2**32)
    shape = c["n0"], c["n1"]
    xy = centres(rs, c["n"], shape, margin, sep)
    if c["grid"] == 1.:
        xy = np.round(xy)
    elif c["grid"] == .5:          # half way between pixels
        xy = np.round(xy) + .5
        xy = xy + 1e-3 * rs.normal(size=xy.shape)
    flux = 10 ** rs.uniform(4.2, c["logmax"], len(xy)) if len(xy) else np.zeros(0)
    im = rs.normal(c["bg"], c["noise"], shape)
    for (x, y), f in zip(xy, flux):
        im += spot(shape, x, y, f, c["sigma"])
    return rs, im, xy, flux


def check(ctx, t, xy, flux, noise, sigma, what, flux_known=True):
    x, y = np.array(t["XPIX"]), np.array(t["YPIX"])
    ctx.expect(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "{}: position is not a number", what)
    d = np.hypot(x[:, None] - xy[:, 0], y[:, None] - xy[:, 1])
    k = d.argmin(axis=1) if len(xy) else np.zeros(0, int)
    dup = np.bincount(k, minlength=len(xy))
    ctx.expect(np.all(dup >= 1), "{}: spot at {} of {} counts not detected", what, xy[dup == 0][:1].tolist(), flux[dup == 0][:1])
    ctx.expect(np.all(dup <= 1), "{}: spot at {} detected {} times", what, xy[dup > 1][:1].tolist(), dup.max())
    tol = .004 + 8 * 5.013 * noise * sigma ** 2 / flux[k] + (0. if sigma == 1. else .01)
    ctx.close(d[np.arange(len(k)), k], 0., tol, what + ": distance to the true centre")
    if sigma == 1. and flux_known:
        ctx.close(np.array(t["COUNTS"]), flux[k], .003 * flux[k] + 8 * 3.545 * noise + 3 * noise, what + ": counts")
    return k


def error_ratio(shape, x, y, flux, px, py):
    """yerr/xerr of a least squares fit of flux and centre to the 7x7 pixels around the peak pixel that are in the image"""
    v0, u0 = int(py), int(px)
    v, u = np.mgrid[max(v0 - 3, 0):min(v0 + 4, shape[0]), max(u0 - 3, 0):min(u0 + 4, shape[1])]
    cut = lambda x, y: spot(shape, x, y, flux, 1.)[v, u].ravel()
    h = 1e-4
    H = np.array([cut(x, y) / flux, (cut(x + h, y) - cut(x - h, y)) / 2 / h, (cut(x, y + h) - cut(x, y - h)) / 2 / h])
    C = np.linalg.inv(H.dot(H.T))
    return np.sqrt(C[2, 2] / C[1, 1])


def shuffled(t):
    return np.array(t["XPIX"]), np.array(t["YPIX"]), np.array(t["COUNTS"])


def paired(ctx, a, b, dx, dy, tol, what):
    """two tables with the same spots, second one shifted"""
    xa, ya, ca = a
    xb, yb, cb = b
    ctx.expect(len(xa) == len(xb), "{}: {} spots instead of {}", what, len(xb), len(xa))
    d = np.hypot(xa[:, None] + dx - xb, ya[:, None] + dy - yb)
    k = d.argmin(axis=1)
    ctx.expect(len(np.unique(k)) == len(k), "{}: other spots", what)
    ctx.close(d[np.arange(len(k)), k], 0., tol, what)


@sub(P, lambda: fixed(add=uni(0., 5000.), dx=st.integers(0, 40), dy=st.integers(0, 40), raw=st.booleans(), psf=st.sampled_from([1., 1., 1.2]), **scene()), 500, 5000, "at least two spots", shards=6)
def detection(c, ctx):
    """rendered spots come back once each at the true centre; other background, shift, transposition, raw type agree"""
    from desimeter.detectspots import detectspots
    rs, im, xy, flux = build(c)
    ctx.nontrivial(len(xy) > 1)
    ctx.label("sigma %g" % c["sigma"])
    kw = {} if c["psf"] == 1. else dict(psf_sigma=c["psf"])
    keep = im.copy()
    t = detectspots(im, **kw)
    ctx.expect(np.array_equal(im, keep), "image modified")
    check(ctx, t, xy, flux, c["noise"], c["sigma"], "detection")
    ctx.expect(np.all(np.array(t["XERR"]) > 0) and np.all(np.array(t["YERR"]) > 0), "position errors are not positive")
    a = shuffled(t)
    tol = np.full(len(a[0]), .003) + .02 * 50. * c["noise"] / a[2]
    paired(ctx, a, shuffled(detectspots(im + c["add"], **kw)), 0., 0., tol, "with another background")
    big = rs.normal(c["bg"], c["noise"], (im.shape[0] + 45, im.shape[1] + 45))
    s = (slice(c["dy"], c["dy"] + im.shape[0]), slice(c["dx"], c["dx"] + im.shape[1]))
    big[s] = im
    paired(ctx, a, shuffled(detectspots(big, **kw)), c["dx"], c["dy"], tol, "shifted by whole pixels")
    x, y, n = shuffled(detectspots(im.T.copy(), **kw))
    paired(ctx, a, (y, x, n), 0., 0., tol, "with exchanged axes")
    if c["raw"]:
        u = np.clip(np.round(im), 0, None).astype(np.uint32)
        paired(ctx, shuffled(detectspots(u.astype(float), **kw)), shuffled(detectspots(u, **kw)), 0., 0., tol, "integer image")


@sub(P, lambda: fixed(faint=st.integers(1, 8), which=st.sampled_from(["pixel", "spot", "noise"]), **scene()), 400, 4000, "a spot on each side of the threshold", shards=3)
def threshold(c, ctx):
    """spots on either side of each threshold"""
    from desimeter.detectspots import detectspots
    rs = np.random.RandomState(c["seed"] % 2**32)
    shape = c["n0"], c["n1"]
    xy = centres(rs, c["n"] + c["faint"], shape, 8., 14.)
    if len(xy) < 2:
        return
    nf = min(c["faint"], len(xy) - 1)
    peak = 4 * np.pi          # flux over peak of a sigma=1 spot after convolution with sigma=1
    noise = c["noise"]
    if c["which"] == "pixel":
        kw = dict(min_counts_per_pixel=600. + 10 * noise, min_counts_per_spot=0.)
        lim = kw["min_counts_per_pixel"] * peak
    elif c["which"] == "noise":
        kw = dict(min_counts_per_pixel=None, min_counts_per_spot=0.)
        lim = 7 * noise / (2 * np.sqrt(np.pi)) * peak
    else:
        kw = dict(min_counts_per_pixel=50. + 4 * noise, min_counts_per_spot=30000. + 1000. * noise)
        lim = kw["min_counts_per_spot"]
    # (the convolved peak is lower by a few percent when the centre is not on a pixel)
    bright = lim * 10 ** rs.uniform(.25, 1.2, len(xy))
    dim = lim * 10 ** rs.uniform(-.6, -.2, len(xy)) * (.4 if c["which"] == "noise" else 1.)      # (leave room for the noise itself)
    flux = np.where(np.arange(len(xy)) < nf, dim, bright)
    im = rs.normal(c["bg"], noise, shape)
    for (x, y), f in zip(xy, flux):
        im += spot(shape, x, y, f, 1.)
    ctx.nontrivial(True)
    ctx.label(c["which"])
    t = detectspots(im, **kw)
    if c["which"] == "noise":      # positions are those of noise dominated spots
        d = np.hypot(np.array(t["XPIX"])[:, None] - xy[:, 0], np.array(t["YPIX"])[:, None] - xy[:, 1])
        ctx.expect(len(t) == len(xy) - nf and np.all(d.min(axis=1) < 1.5) and len(np.unique(d.argmin(axis=1))) == len(t) and np.all(d.argmin(axis=1) >= nf),
                   "{} spots detected, {} are brighter than 7 sigma", len(t), len(xy) - nf)
    else:
        check(ctx, t, xy[nf:], flux[nf:], noise, 1., "threshold on the " + c["which"])


@sub(P, lambda: fixed(nb=st.integers(1, 4), **scene()), 400, 4000, "always", shards=3)
def border(c, ctx):
    """spots near the border neither abort the detection nor harm the others"""
    from desimeter.detectspots import detectspots
    rs, im, xy, flux = build(c, 12., 14.)
    shape = im.shape
    bx, by = [], []
    for _ in range(c["nb"]):
        e = rs.uniform(-.5, 4.)
        side = rs.randint(4)
        u = rs.uniform(-.5, shape[1] - .5) if side < 2 else rs.uniform(-.5, shape[0] - .5)
        x, y = [(u, e), (u, shape[0] - 1 - e), (e, u), (shape[1] - 1 - e, u)][side]
        if all(np.hypot(x - a, y - b) > 14. for a, b in list(zip(bx, by)) + xy.tolist()):
            bx.append(x)
            by.append(y)
    bx, by = np.array(bx), np.array(by)
    fb = 10 ** rs.uniform(4.5, 5.5, len(bx))
    if len(xy) == 0:
        return
    for x, y, f in zip(bx, by, fb):
        im += spot(shape, x, y, f, c["sigma"])
    ctx.nontrivial(len(bx) > 0)
    t = detectspots(im)
    x, y = np.array(t["XPIX"]), np.array(t["YPIX"])
    d = np.hypot(x[:, None] - bx, y[:, None] - by).min(axis=1) if len(bx) else np.full(len(x), 99.)
    near = d < 7.
    check(ctx, t[~near], xy, flux, c["noise"], c["sigma"], "spots inside")
    # what is reported at the border is where a spot is, unless the spot itself is cut
    for i in np.flatnonzero(near):
        j = np.hypot(x[i] - bx, y[i] - by).argmin()
        m = min(bx[j], by[j], shape[1] - 1 - bx[j], shape[0] - 1 - by[j])
        if m > .6 and d[i] < .05 and c["sigma"] == 1. and fb[j] > 2000 * c["noise"] and fb[j] > 40 * c["bg"]:
            # (the peak pixel is that of the rounded centre or next to it: the convolution darkens the border, which a high background amplifies)
            r = [error_ratio(shape, bx[j], by[j], fb[j], np.clip(np.round(bx[j] + a), 0, shape[1] - 1), np.clip(np.round(by[j] + b), 0, shape[0] - 1)) for a in (-1, 0, 1) for b in (-1, 0, 1)]
            g = float(t["YERR"][i] / t["XERR"][i])
            ctx.label("errors differ" if abs(r[4] - 1) > .05 else "errors alike")
            ctx.expect(min(r) * .98 < g < max(r) * 1.02, "errors of the spot at {:.3f},{:.3f} in an image of {}: y/x is {:.4f} instead of {:.4f} to {:.4f}", bx[j], by[j], shape, g, min(r), max(r))
        if m > 1.:
            ctx.label("reported near the border")
            ctx.expect(d[i] < .05 + 8 * 5.013 * c["noise"] / fb[j] + (0. if c["sigma"] == 1. else .05), "spot at {:.3f},{:.3f} in an image of {} reported {:.3f} pixels away", bx[j], by[j], shape, d[i])
    for j in range(len(bx)):
        m = min(bx[j], by[j], shape[1] - 1 - bx[j], shape[0] - 1 - by[j])
        if m > 3.5:
            ctx.expect(np.sum(np.hypot(x - bx[j], y - by[j]) < .5) == 1, "spot at {:.3f},{:.3f} of an image of {} is not reported once", bx[j], by[j], shape)


@sub(P, lambda: fixed(**scene()), 60, 600, "always", shards=1)
def nothing(c, ctx):
    """no spot: says so"""
    from desimeter.detectspots import detectspots
    rs = np.random.RandomState(c["seed"] % 2**32)
    ctx.nontrivial(True)
    im = rs.normal(c["bg"], c["noise"], (c["n0"], c["n1"]))
    try:
        t = detectspots(im)
    except RuntimeError:
        return
    ctx.expect(len(t) == 0, "{} spots found in pure noise", len(t))


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.integers(2, 6), x=uni(-.9, .9), y=uni(-.9, .9), s=uni(.6, 2.), flux=uni(1e3, 1e6), w=st.integers(5, 40), h=st.integers(5, 40)), 400, 4000, "off centre", shards=2)
def pieces(c, ctx):
    """point spread function, its derivatives, centroids of a stamp, convolution"""
    from desimeter import detectspots as D
    rs = np.random.RandomState(c["seed"] % 2**32)
    ctx.nontrivial(max(abs(c["x"]), abs(c["y"])) > .05)
    x, y, s = c["x"], c["y"], c["s"]
    j, i = np.mgrid[-12:13, -12:13]
    p = D.psf(j, i, x, y, s)
    ctx.close(p, spot((25, 25), x + 12, y + 12, 1., s), 1e-12, "psf")
    h = 1e-5
    ctx.close(D.dpsfdxc(j, i, x, y, s), (D.psf(j, i, x + h, y, s) - D.psf(j, i, x - h, y, s)) / 2 / h, 1e-7, "derivative of the psf along x")
    ctx.close(D.dpsfdyc(j, i, x, y, s), (D.psf(j, i, x, y + h, s) - D.psf(j, i, x, y - h, s)) / 2 / h, 1e-7, "derivative of the psf along y")
    # bary centre, of a spot well inside the stamp
    st_ = spot((31, 31), 15 + x, 15 + y, c["flux"], min(max(s, 1.), 1.5))
    xb, yb, _, _, f = D.fitcentroid_barycenter(st_)
    ctx.close([xb, yb], [x, y], 1e-6, "barycentre")
    ctx.close(f, c["flux"], 1e-6 * c["flux"], "flux of the barycentre")
    # gaussian fit of an exact spot, at most one pixel from the start
    n = 2 * c["n"] + 1 if c["n"] > 2 else 7
    xf, yf = (.55 * x, .55 * y)
    r = D.fitcentroid(spot((n, n), n // 2 + xf, n // 2 + yf, c["flux"], 1.))
    ctx.close(r[:2], [xf, yf], .003, "centre of the gaussian fit")
    ctx.close(r[4], c["flux"], .01 * c["flux"], "flux of the gaussian fit")
    # a real convolution with a normalised gaussian
    im = rs.normal(0, 1, (c["h"] + 10, c["w"] + 10))
    sig = 1. if c["n"] % 2 else s
    out = D.gaussian_convolve(im, sig) if sig != 1. else D.gaussian_convolve(im)
    hw = int(3 * sig)
    k = np.exp(-np.arange(-hw, hw + 1) ** 2 / 2. / sig ** 2)
    k = np.outer(k, k)
    k /= k.sum()
    from scipy.signal import convolve2d
    ctx.close(out, convolve2d(im, k, "same"), 1e-9, "convolved image")
