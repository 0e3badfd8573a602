"""C34 arms seen in front-illuminated images"""
import contextlib, csv, os, tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, cli, data, tx
from vf.gen import fixed, uni

P = "C34"
PAD = 31
_cache = {}


def outline():
    if "t" not in _cache:
        import fitsio
        from scipy import ndimage
        t = fitsio.read(data.path("fiber_arm_outline.fits")).astype(float)
        _cache["t"] = t, ndimage.binary_fill_holes(t > .3).astype(float)
    return _cache["t"]


def draw(image, x, y, angle, flux):
    """an arm whose tip is at pixel (x,y), its body towards angle [rad]"""
    from scipy import ndimage
    full = outline()[1]
    v, u = np.mgrid[-PAD:PAD + 1, -PAD:PAD + 1].astype(float)
    along, across = u * np.cos(angle) + v * np.sin(angle), -u * np.sin(angle) + v * np.cos(angle)
    shape = ndimage.map_coordinates(full, [PAD - along, PAD + across], order=1, cval=0.)
    i, j = int(round(y)), int(round(x))
    image[i - PAD:i + PAD + 1, j - PAD:j + PAD + 1] += flux * shape


def turn(a):
    return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


@sub(P, lambda: fixed(seed=gen.seeds(), angle=uni(-180, 180), flux=st.sampled_from([200., 50., 2000.]), noise=st.sampled_from([2., .5, 5.]), step=st.sampled_from([1., .5, 2.]), dx=uni(-.4, .4), dy=uni(-.4, .4)), 250, 2500, "always", shards=4)
def arm(c, ctx):
    """the angle found for an arm drawn in an image is its direction, whatever the scale of the image, and follows when the image is turned"""
    from desimeter.brightimage import detect_phi_arm
    rs = np.random.RandomState(c["seed"] % 2**32)
    t = outline()[0]
    ny, nx = rs.randint(70, 130, 2)
    x, y = int(rs.randint(PAD, nx - PAD)), int(rs.randint(PAD, ny - PAD))
    a = np.radians(c["angle"])
    im = rs.normal(100., c["noise"], (ny, nx))
    draw(im, x, y, a, c["flux"])
    ctx.nontrivial(True)
    keep, tk = im.copy(), t.copy()
    got = detect_phi_arm(x + c["dx"], y + c["dy"], im, t, ang_step=c["step"])
    tol = np.radians(3.)
    ctx.expect(abs(turn(got[0] - a)) < tol, "angle {:.1f} deg instead of {:.1f}", np.degrees(got[0]), np.degrees(a))
    ctx.expect(0 < got[1] <= 1 + 1e-9 and got[1] >= got[2] and got[3] >= 0, "correlation {}, mean {}, scatter {}", got[1], got[2], got[3])
    ctx.close(got[4], im[y - PAD:y + PAD + 1, x - PAD:x + PAD + 1].mean(), 1e-9 * abs(im).max(), "mean of the image")
    ctx.expect(np.array_equal(im, keep) and np.array_equal(t, tk), "image or template modified")
    # brightness and offset do not matter
    again = detect_phi_arm(x, y, 4. * im + 64., t, ang_step=c["step"])
    ctx.close([turn(again[0] - got[0]), again[1] - got[1]], 0., 1e-3, "angle and correlation of the rescaled image")
    # the image turned by 90 degrees
    r = detect_phi_arm(ny - 1 - y, x, np.ascontiguousarray(np.rot90(im, -1)), t, ang_step=c["step"])
    ctx.expect(abs(turn(r[0] - a - np.pi / 2)) < tol, "angle {:.1f} deg instead of {:.1f} after a quarter turn", np.degrees(r[0]), np.degrees(a) + 90)


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(1, 6), nproc=st.sampled_from([1, 1, 1, 2, 3]), first=st.sampled_from(["image", "empty primary", "table first", "cube first"]), int16=st.booleans()), 60, 600, "several arms", shards=4)
def arms(c, ctx):
    """every spot gets the angle of its own arm, with one process or several, from the first two-dimensional image of the file"""
    from astropy.io import fits
    from astropy.table import Table
    from desimeter.brightimage import detect_phi_arms, detect_phi_arm
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    cells = rs.permutation(12)[:n]
    x, y = 40 + 75 * (cells % 4) + rs.uniform(-5, 5, n), 40 + 75 * (cells // 4) + rs.uniform(-5, 5, n)
    a = rs.uniform(-np.pi, np.pi, n)
    im = rs.normal(300., 2., (250, 320))
    for i in range(n):
        draw(im, x[i], y[i], a[i], 150.)
    im = np.round(im).astype("i2") if c["int16"] else im.astype("f4")
    hdus = dict(image=[fits.PrimaryHDU(im)], **{"empty primary": [fits.PrimaryHDU(), fits.ImageHDU(im, name="F0000")], "table first": [fits.PrimaryHDU(), fits.BinTableHDU(Table(dict(A=[1., 2.]))), fits.ImageHDU(im), fits.ImageHDU(im[::-1] * 0)], "cube first": [fits.PrimaryHDU(np.zeros((3, 250, 320))), fits.ImageHDU(im), fits.ImageHDU(im[::-1].copy())]})[c["first"]]
    ctx.nontrivial(n > 1)
    ctx.label("several processes", c["nproc"] > 1)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "f.fits")
        fits.HDUList(hdus).writeto(fn)
        spots = Table(dict(XPIX=x, YPIX=y, NAME=["s%d" % i for i in range(n)]))
        detect_phi_arms(spots, fn, data.path("fiber_arm_outline.fits"), 1., c["nproc"])
    ctx.expect(list(spots["NAME"]) == ["s%d" % i for i in range(n)] and np.array_equal(spots["XPIX"], x), "spots modified")
    for i in range(n):
        ctx.expect(abs(turn(spots["ANGLE"][i] - a[i])) < np.radians(3.), "angle of spot {}: {:.1f} deg instead of {:.1f}", i, np.degrees(spots["ANGLE"][i]), np.degrees(a[i]))
    one = detect_phi_arm(x[0], y[0], im.astype(float), outline()[0], 1.)
    ctx.close([spots[k][0] for k in ("ANGLE", "CCF", "MCCF", "RMSCCF", "MIMAGE", "NORM", "CHI2")], one, 1e-9, "columns")


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.sampled_from([60, 30, 150, 300]), seen=st.sampled_from([False] * 7 + [True]), sel=st.sampled_from([False, False, True]), table=st.booleans(), stray=gen.count(0, 4), twice=gen.count(0, 2), camera=st.booleans(), petals=st.booleans()), 60, 600, "several devices", shards=4)
def analysed(c, ctx):
    """analyze_bright_image: knees lie 3 mm from the fibers along the arms, and each belongs to the device it is closest to, within 4 mm; all coordinates of a row agree"""
    from astropy.io import fits
    from astropy.table import Table
    import desimeter.brightimage
    from desimeter.io import fvc2fp_filename
    from desimeter.transform.ptl2fp import fp2ptl
    from desimeter.transform.xy2qs import qs2xy
    from checks.c31 import read_camera
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    if c["seen"]:
        c = dict(c, n=min(c["n"], 30), twice=0)
    # the camera moved a little since its calibration
    t0 = read_camera(fvc2fp_filename())
    if c["camera"]:
        t0 = dict(t0, scale=t0["scale"] * (1 + 1e-3 * rs.randn()), rotation=t0["rotation"] + .05 * rs.randn(), offset_x=t0["offset_x"] + 1e-3 * rs.randn(), offset_y=t0["offset_y"] + 1e-3 * rs.randn())
    ok = (m["DEVICE_TYPE"] == "POS") | (m["DEVICE_TYPE"] == "ETC")
    if c["petals"]:
        ok &= np.isin(m["PETAL_LOC"], rs.permutation(10)[:5])
    k = rs.permutation(np.flatnonzero(ok))[:c["n"]]
    cx, cy = m["X_FP"][k], m["Y_FP"][k]
    off, b = rs.uniform(0, 2., len(k)), rs.uniform(0, 2 * np.pi, len(k))
    kx, ky = cx + off * np.cos(b), cy + off * np.sin(b)
    dev = list(k)
    for i in range(c["stray"]):              # far from any device
        e = rs.permutation(np.flatnonzero(ok & (np.hypot(m["X_FP"], m["Y_FP"]) > 405.)))[0]
        r, w = np.hypot(m["X_FP"][e], m["Y_FP"][e]) + rs.uniform(4.15, 4.9), np.arctan2(m["Y_FP"][e], m["X_FP"][e])
        if np.hypot(m["X_FP"][ok] - r * np.cos(w), m["Y_FP"][ok] - r * np.sin(w)).min() > (4.5 if c["seen"] else 4.15):
            kx, ky, dev = np.r_[kx, r * np.cos(w)], np.r_[ky, r * np.sin(w)], dev + [-1]
    for i in range(min(c["twice"], len(k))):  # further from the same device
        w = b[i] + np.pi * rs.uniform(.7, 1.3)
        kx, ky, dev = np.r_[kx, cx[i] + 2.8 * np.cos(w)], np.r_[ky, cy[i] + 2.8 * np.sin(w)], dev + [-1]
    n = len(kx)
    u, v = tx.inverse(t0, kx, ky)
    # mm per pixel here and around
    X, Y = tx.forward(t0, u + 1, v)
    sx = np.median(abs(X - kx))
    X, Y = tx.forward(t0, u, v + 1)
    radius = 3. / np.sqrt(sx * np.median(abs(Y - ky)))
    a = rs.uniform(-np.pi, np.pi, n)
    x, y = u - radius * np.cos(a), v - radius * np.sin(a)
    fx, fy = tx.forward(t0, x, y)
    d = np.hypot(x[:, None] - x, y[:, None] - y) + 1e5 * np.eye(n)
    seen = c["seen"]
    want = [i for i in range(n) if dev[i] >= 0]
    args = []
    if c["sel"]:
        pick = rs.permutation(n)[:max(12, n // 2)]
        args = ["--xpix", ",".join("%.3f" % (q + rs.uniform(-3, 3)) for q in x[pick]), "--ypix", ",".join("%.3f" % (q + rs.uniform(-3, 3)) for q in y[pick])]
        if any(0 < q < 16 for q in d.min(1)) or len(set(m["PETAL_LOC"][k])) < 3:
            return ctx.label("spots too close to be selected")
        want = [i for i in want if i in pick]
        for i in range(len(dev)):        # the first of a pair on the same device was not selected
            if dev[i] < 0 and i >= n - min(c["twice"], len(k)) and i in pick:
                first = i - (n - min(c["twice"], len(k)))
                if first not in pick:
                    want.append(i)
                    dev[i] = k[first]
    if c["seen"] and d.min() < 70:             # arms drawn over each other
        seen = False
    o = rs.permutation(n)
    truth = {}
    with tempfile.TemporaryDirectory() as tmp:
        spots = os.path.join(tmp, "spots.csv")
        Table(dict(XPIX=x[o], YPIX=y[o], X_FP=fx[o], Y_FP=fy[o], COUNTS=np.full(n, 1e4), NUMBER=o)).write(spots)
        image = os.path.join(tmp, "front.fits")
        if seen:
            im = rs.randint(95, 106, (6000, 6000)).astype("f4")
            for i in range(n):
                draw(im, x[i], y[i], a[i], 200.)
            fits.PrimaryHDU(im.astype("i2")).writeto(image)
            stand_in = contextlib.nullcontext()
        else:
            def found(s, fn, template, step, nproc, plot=False):
                assert fn == image and os.path.basename(template) == "fiber_arm_outline.fits"
                s["ANGLE"] = a[np.array(s["NUMBER"])]
            stand_in = mock.patch.object(desimeter.brightimage, "detect_phi_arms", found)
        ctx.label("arms detected", seen)
        out = os.path.join(tmp, "out.csv")
        with stand_in:
            rc, text = cli.run("analyze_bright_image", ["--front-illuminated", image, "--back-illuminated", spots if not c["table"] else "none.fits", "-o", out] + (["--phi-arm-angle-table", spots] if c["table"] else []) + args)
        ctx.expect(rc == 0, "status {}", rc)
        with open(out) as f:
            got = list(csv.DictReader(f))
    ctx.nontrivial(len(want) > 3)
    g = {int(r["NUMBER"]): r for r in got}
    ctx.expect(sorted(g) == sorted(want) and len(got) == len(want), "spots {} instead of {}", sorted(g), sorted(want))
    F = lambda r, *names: [float(r[q]) for q in names]
    tol = .35 if seen else .1
    radii = []
    for i, r in g.items():
        j = dev[i]
        for q in ("PETAL_LOC", "PETAL_ID", "DEVICE_LOC", "LOCATION", "DEVICE_TYPE", "DEVICE_ID", "BUS_ID"):
            ctx.expect(r[q] == str(m[q][j]), "{} of spot {}: {} instead of {}", q, i, r[q], m[q][j])
        ctx.close(F(r, "X_FP", "Y_FP", "XPIX", "YPIX"), [fx[i], fy[i], x[i], y[i]], 1e-9, "position of the fiber")
        ctx.close(F(r, "X_FP_METRO", "Y_FP_METRO"), [m["X_FP"][j], m["Y_FP"][j]], 1e-9, "centre")
        ctx.close(F(r, "X_FP_KNEE", "Y_FP_KNEE"), [kx[i], ky[i]], tol, "knee of spot {} at {:.1f} deg".format(i, np.degrees(a[i])))
        ctx.close(np.array(tx.forward(t0, *F(r, "XPIX_KNEE", "YPIX_KNEE"))), F(r, "X_FP_KNEE", "Y_FP_KNEE"), .01, "pixel of the knee")
        ctx.close(np.array(tx.forward(t0, *F(r, "XPIX_METRO", "YPIX_METRO"))), F(r, "X_FP_METRO", "Y_FP_METRO"), .01, "pixel of the centre")
        ctx.close([float(np.ravel(q)[0]) for q in fp2ptl(int(m["PETAL_LOC"][j]), np.array([fx[i]]), np.array([fy[i]]))[:2]], F(r, "PTL_X", "PTL_Y"), 1e-6, "petal coordinates")
        ctx.close(qs2xy(*F(r, "Q", "S")), [fx[i], fy[i]], .01, "Q and S")
        ctx.expect(r["FLAGS"] == "4", "flags {}", r["FLAGS"])
