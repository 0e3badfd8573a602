"""C16 identification of fiducials"""
import os, stat, subprocess, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, data, tx
from vf.fresh import Package
from vf.gen import fixed, uni
from checks.c14 import recognisable

P = "C16"
_m = {}


def pinholes():
    if not _m:
        m = data.metro_np()
        k = (m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")
        for n in ("LOCATION", "PINHOLE_ID", "X_FP", "Y_FP"):
            _m[n] = m[n][k]
        p = m["DEVICE_TYPE"] == "POS"
        _m["pos"] = m["X_FP"][p], m["Y_FP"][p]
    return _m


def exposure():
    return fixed(seed=gen.seeds(), base=st.sampled_from(["default", "default", "canon-lens-fvc2fp.json", "single-lens-fvc2fp.json", "own"]),
                 shift=st.tuples(uni(-300., 300.), uni(-300., 300.)).map(list), turn=st.sampled_from([0., 0., np.pi, .5]),
                 off=uni(0., 40.), rot=uni(-.05, .05), scale=uni(-.004, .004), noise=st.sampled_from([0., .005, .01]),
                 lost=st.sampled_from([0., 0., .02, .08]), gone=st.sampled_from([0., 0., .3]), npos=st.sampled_from([0, 0, 300, 2000]), nnoise=st.integers(0, 40), clusters=st.integers(0, 3),
                 sep=st.sampled_from([1.5, 1.5, 2.1]), old=st.booleans())


def camera_of(e, FVC2FP):
    """the input transform of an exposure"""
    if e["base"] == "default":
        return FVC2FP.read(data.path("init-fvc2fp.json"))
    if e["base"] != "own":
        return FVC2FP.read(data.path(e["base"]))
    t = FVC2FP.read(data.path("init-fvc2fp.json"))
    t.offset_x += e["shift"][0] / 3000.
    t.offset_y += e["shift"][1] / 3000.
    t.rotation += e["turn"]
    return t


def far(x, y, px, py, r):
    from scipy.spatial import cKDTree
    d, _ = cKDTree(np.c_[px, py]).query(np.c_[x, y])
    return d > r


def scene(e, t):
    """pixel positions, true location and pinhole (-1, 0 for anything else), set of fiducials that must be found"""
    m = pinholes()
    rs = np.random.RandomState(e["seed"] % 2**32)
    L, Pn, X, Y = m["LOCATION"], m["PINHOLE_ID"], m["X_FP"], m["Y_FP"]
    locs = np.unique(L)
    gone = locs[rs.rand(len(locs)) < e["gone"]]
    keep = ~np.isin(L, gone) & (rs.rand(len(L)) >= e["lost"])
    # spots of fibers and noise, away from the fiducials and from one another
    px, py = m["pos"]
    k = rs.permutation(len(px))[:e["npos"]]
    r, a = 6. * np.sqrt(rs.rand(len(k))), rs.uniform(0, 2 * np.pi, len(k))
    ox, oy = px[k] + r * np.cos(a), py[k] + r * np.sin(a)
    n = e["nnoise"]
    r, a = 400. * np.sqrt(rs.rand(n)), rs.uniform(0, 2 * np.pi, n)
    ox, oy = np.r_[ox, r * np.cos(a)], np.r_[oy, r * np.sin(a)]
    for _ in range(e["clusters"]):
        r, a = 400. * np.sqrt(rs.rand()), rs.uniform(0, 2 * np.pi)
        cx, cy = r * np.cos(a) + rs.uniform(-.6, .6, 5), r * np.sin(a) + rs.uniform(-.6, .6, 5)
        if far(cx, cy, X, Y, 8.).all():
            ox, oy = np.r_[ox, cx], np.r_[oy, cy]
    if len(ox):
        f = far(ox, oy, X, Y, 4.)
        ox, oy = ox[f], oy[f]
    x, y = np.r_[X[keep], ox], np.r_[Y[keep], oy]
    loc, pin = np.r_[L[keep], np.full(len(ox), -1)], np.r_[Pn[keep], np.zeros(len(ox), int)]
    x0, y0 = t.fp2fvc(x, y)
    a, s, ph = np.radians(e["rot"]), 1 + e["scale"], rs.uniform(0, 2 * np.pi)
    xx, yy = x0 - 3000., y0 - 3000.
    x1 = s * (np.cos(a) * xx - np.sin(a) * yy) + 3000. + e["off"] * np.cos(ph) + rs.normal(0, 1, len(x)) * e["noise"]
    y1 = s * (np.sin(a) * xx + np.cos(a) * yy) + 3000. + e["off"] * np.sin(ph) + rs.normal(0, 1, len(x)) * e["noise"]
    o = rs.permutation(len(x))
    x1, y1, loc, pin = x1[o], y1[o], loc[o], pin[o]
    # fiducials that are complete and whose pinholes can be told apart in the presence of this rotation and noise
    xe, ye = t.fp2fvc(X, Y)
    must, doubtful = [], []
    for l in locs:
        k, j = np.flatnonzero(L == l), np.flatnonzero(loc == l)
        if len(j) == 0:
            continue
        i1 = np.array([list(Pn[k]).index(v) for v in pin[j]])
        good = len(k) == 4 and (len(j) < 3 or recognisable(x1[j], y1[j], i1, xe[k], ye[k], np.arange(len(k)), len(k), 1.5))
        if not good:
            doubtful.append(l)
        elif len(j) == 4:
            must.append(l)
    return x1, y1, loc, pin, must, doubtful


@sub(P, lambda: st.lists(exposure(), min_size=1, max_size=3).map(lambda l: dict(exposures=l)), 320, 3000, "several exposures, or missing pinholes, or other spots", shards=8)
def identification(c, ctx):
    """pinholes of generated scenes get their true identity, in sequences of calls with different transforms"""
    from astropy.table import Table
    with tempfile.TemporaryDirectory() as tmp, Package() as imp:
        FVC2FP = imp("desimeter.transform.fvc2fp").FVC2FP
        F = imp("desimeter.findfiducials")
        ctx.nontrivial(len(c["exposures"]) > 1 or any(e["lost"] or e["gone"] or e["npos"] or e["nnoise"] for e in c["exposures"]))
        ctx.label("%d exposures" % len(c["exposures"]))
        for n, e in enumerate(c["exposures"]):
            ctx.label(e["base"])
            t = camera_of(e, FVC2FP)
            x, y, loc, pin, must, doubtful = scene(e, t)
            if len(must) < 30:
                continue
            spots = Table(dict(XPIX=x, YPIX=y, COUNTS=np.full(len(x), 1e5)))
            if e["old"]:      # a table that went through an earlier identification
                for k in ("LOCATION", "PETAL_LOC", "DEVICE_LOC", "PINHOLE_ID"):
                    spots[k] = np.full(len(x), 3)
            kw = {}
            if e["base"] == "own":
                kw["input_transform"] = os.path.join(tmp, "own%d.json" % n)
                t.write_jsonfile(kw["input_transform"])
            elif e["base"] != "default":
                kw["input_transform"] = data.path(e["base"])
            if e["sep"] != 1.5:
                kw["pinhole_max_separation_mm"] = e["sep"]
            res = F.findfiducials(spots, **kw)
            ctx.expect(len(res) == len(x), "{} spots in, {} out", len(x), len(res))
            ctx.expect(np.array_equal(np.array(res["XPIX"]), x) and np.array_equal(np.array(res["YPIX"]), y), "spots moved")
            gl, gp = np.array(res["LOCATION"]), np.array(res["PINHOLE_ID"])
            w = "exposure %d (%s)" % (n, e["base"])
            other = loc < 0
            bad = np.flatnonzero(other & ((gl != -1) | (gp != 0)))
            ctx.expect(len(bad) == 0, "{}: {} spots that are no fiducial are identified, e.g. as {} {}", w, len(bad), gl[bad[:1]], gp[bad[:1]])
            bad = np.flatnonzero(~other & (gl != -1) & (gl != loc))
            ctx.expect(len(bad) == 0, "{}: {} pinholes have a wrong location, {} for {}", w, len(bad), gl[bad[:3]], loc[bad[:3]])
            k = ~other & ~np.isin(loc, doubtful)
            bad = np.flatnonzero(k & (gp > 0) & (gp != pin))
            ctx.expect(len(bad) == 0, "{}: {} wrong pinhole numbers, {} {} for {} {}", w, len(bad), gl[bad[:3]], gp[bad[:3]], loc[bad[:3]], pin[bad[:3]])
            bad = np.flatnonzero(np.isin(loc, must) & (gp != pin))
            ctx.expect(len(bad) == 0, "{}: {} pinholes of complete fiducials not found, e.g. {} {}", w, len(bad), loc[bad[:3]], pin[bad[:3]])
            ctx.expect(np.all((gp > 0) <= (gl >= 0)), "{}: pinhole number without location", w)
            pl, dl = np.array(res["PETAL_LOC"]), np.array(res["DEVICE_LOC"])
            ok = gl >= 0
            ctx.expect(np.all(pl[ok] * 1000 + dl[ok] == gl[ok]) and np.all(dl[ok] < 1000) and np.all(pl[~ok] == -1) and np.all(dl[~ok] == -1), "{}: petal and device locations", w)


STANDIN = '''#!%s
"""records its arguments and matches every measured spot to the nearest target"""
import json, math, os, sys
a = sys.argv[1:]
if os.environ.get("STANDIN_OLD") and "-positioner_reach" in a:
    print("unexpected command-line argument [ -positioner_reach ]")
    sys.exit(3)
if os.environ.get("STANDIN_FAIL"):
    sys.exit(5)
o = {a[i][1:]: a[i + 1] for i in range(0, len(a), 2)}
json.dump(o, open(os.environ["STANDIN_LOG"], "w"))
rd = lambda f: [l.split() for l in open(o[f]) if l.strip()]
t = [(int(r[0]), float(r[1]), float(r[2]), int(r[5])) for r in rd("target_pos_file")]
p = [(int(r[0]), float(r[1]), float(r[2])) for r in rd("reference_pos_file")]
rad = float(o["match_radius"])
with open(o["reduced_pos_file"], "w") as f:
    f.write("# comment\\n")
    for r in rd("measured_pos_file"):
        x, y = float(r[0]), float(r[1])
        d, loc, fl = min((math.hypot(x - b, y - c), l, g) for l, b, c, g in t)
        dp, lp = min((math.hypot(x - b, y - c), l) for l, b, c in p)
        if dp < 2. and not (d < 2. and fl == 8):
            kind, loc = "pinhole", lp
        elif d < rad:
            kind = "fiducial" if fl == 8 else "fiber"
        else:
            kind, loc = "unknown", -1
        f.write("%%d %%s %%s 12.0 %%d 0.01 %%s\\n" %% (loc, r[0], r[1], 4, kind))
''' % sys.executable


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.integers(1, 80), given=st.booleans(), own=st.booleans(), old=st.booleans(), fail=st.sampled_from([False] * 9 + [True]), radius=st.sampled_from([70, 70., 25.])),
     120, 1200, "always", shards=4)
def external_matcher(c, ctx):
    """the wrapper of the external matching program describes the scene to it and labels its answer"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    ctx.nontrivial(True)
    ctx.label("given positions" if c["given"] else "positioner centres")
    pos = np.flatnonzero(m["DEVICE_TYPE"] == "POS")
    with tempfile.TemporaryDirectory() as tmp, Package() as imp:
        exe = os.path.join(tmp, "match_positions")
        with open(exe, "w") as f:
            f.write(STANDIN)
        os.chmod(exe, 0o755)
        FVC2FP = imp("desimeter.transform.fvc2fp").FVC2FP
        S = imp("desimeter.spotmatch")
        t = FVC2FP.read(data.path("init-fvc2fp.json"))
        kw = {}
        if c["own"]:
            t.offset_x += .002
            t.rotation += .001
            kw["fvc2fp"] = t
        k = rs.permutation(pos)[:c["n"]]
        ex, ey = m["X_FP"][k] + rs.uniform(-3, 3, len(k)), m["Y_FP"][k] + rs.uniform(-3, 3, len(k))
        if not c["given"]:
            ex, ey = m["X_FP"][k], m["Y_FP"][k]
        else:
            kw.update(expected_x_fp=ex, expected_y_fp=ey, expected_location=m["LOCATION"][k])
        if c["radius"] != 70:
            kw["match_radius_pixels"] = c["radius"]
        fid = np.flatnonzero((m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF"))
        floc = np.unique(m["LOCATION"][fid])
        fx, fy = np.array([[m[v][fid][m["LOCATION"][fid] == l].mean() for l in floc] for v in ("X_FP", "Y_FP")])
        # the scene: the expected fibers, some fiducial centres and their pinholes, a stray spot
        sel = rs.rand(len(floc)) < .3
        pin = fid[np.isin(m["LOCATION"][fid], floc[sel]) & (m["PINHOLE_ID"][fid] <= 4)]
        d = FVC2FP.read(data.path("init-fvc2fp.json"))
        sx, sy = np.r_[ex, fx[sel], [0.]], np.r_[ey, fy[sel], [500.]]
        x, y = t.fp2fvc(sx, sy)
        px, py = d.fp2fvc(m["X_FP"][pin], m["Y_FP"][pin])
        loc = np.r_[m["LOCATION"][k], floc[sel], [-1]]
        kind = np.array(["fiber"] * len(k) + ["fiducial"] * sel.sum() + ["unknown"])
        if not c["own"]:     # (with another transform the pinholes may not be where the reference says)
            x, y, loc, kind = np.r_[x, px], np.r_[y, py], np.r_[loc, m["LOCATION"][pin]], np.r_[kind, ["pinhole"] * len(pin)]
        o = rs.permutation(len(x))
        x, y, loc, kind = x[o], y[o], loc[o], kind[o]
        env = dict(PATH=tmp + ":" + os.environ["PATH"], STANDIN_LOG=os.path.join(tmp, "log.json"))
        if c["old"]:
            env["STANDIN_OLD"] = "1"
        if c["fail"]:
            env["STANDIN_FAIL"] = "1"
        saved, savedtmp = dict(os.environ), tempfile.tempdir
        os.environ.update(env)
        tempfile.tempdir = tmp
        try:
            if c["fail"]:
                try:
                    S.spotmatch(x, y, **kw)
                except RuntimeError:
                    return ctx.label("program fails")
                ctx.fail("failure of the external program is ignored")
            r = S.spotmatch(x, y, **kw)
        finally:
            tempfile.tempdir = savedtmp
            os.environ.clear()
            os.environ.update(saved)
        import json
        opt = json.load(open(env["STANDIN_LOG"]))
        ctx.close(float(opt["match_radius"]), c["radius"], 0, "match radius")
        x0, y0 = t.fvc2fp(np.array([3000., 3000.1, 3000.]), np.array([3000., 3000., 3000.1]))
        scale = np.sqrt(abs((x0[1] - x0[0]) * (y0[2] - y0[0]) - (x0[2] - x0[0]) * (y0[1] - y0[0]))) / .1
        ctx.close(float(opt["exp_pixel_scale"]), scale, 1e-4 * scale, "pixel scale")
        if not c["old"]:
            ctx.close(float(opt["positioner_reach"]) * scale, 6.6, .01, "positioner reach")
        # the camera has 6000 x 6000 pixels, targets are given in its pixels, and its x axis runs against that of the focal plane
        for q, v in dict(image_rows=6000, image_cols=6000, target_x0=0, target_y0=0, target_x_dir=1, target_y_dir=1, fid_x_dir=-1, fid_y_dir=1).items():
            ctx.expect(q in opt and float(opt[q]) == v, "{} is {} instead of {}", q, opt.get(q), v)
        rd = lambda n: [l.split() for l in open(opt[n]) if l.strip()]
        tg = rd("target_pos_file")
        wl = np.r_[m["LOCATION"][k] if c["given"] else m["LOCATION"][pos], floc]
        wx, wy = t.fp2fvc(np.r_[ex if c["given"] else m["X_FP"][pos], fx], np.r_[ey if c["given"] else m["Y_FP"][pos], fy])
        got = {(int(v[0]), int(v[-1])): (float(v[1]), float(v[2])) for v in tg}
        ctx.expect(len(tg) == len(wl) and len(got) == len(wl), "{} targets written for {}", len(tg), len(wl))
        nf = len(wl) - len(floc)
        keys = [(int(l), 4 if i < nf else 8) for i, l in enumerate(wl)]
        ctx.expect(set(keys) == set(got), "targets missing: {}", sorted(set(keys) - set(got))[:3])
        ctx.close(np.array([got[q] for q in keys]), np.c_[wx, wy], 6e-4, "positions of the targets")
        cl, cf = np.r_[m["LOCATION"][pos], floc], np.r_[np.full(len(pos), 4), np.full(len(floc), 8)]
        cx, cy = np.r_[m["X_FP"][pos], fx], np.r_[m["Y_FP"][pos], fy]
        got = {int(v[0]): (float(v[1]), float(v[2]), int(v[-1])) for v in rd("device_centers_file")}
        ctx.expect(set(got) == set(cl.tolist()), "device centres of {} devices instead of {}", len(got), len(cl))
        got = np.array([got[l] for l in cl.tolist()])
        ctx.expect(np.array_equal(got[:, 2], cf), "flags of the device centres")
        dd = [np.hypot(*(got[:, :2].T - np.array(w.fp2fvc(cx, cy)))) for w in (d, t)]
        ctx.close(np.minimum(*dd), 0., 1e-3, "positions of the device centres")
        ms = np.array([[float(v[0]), float(v[1])] for v in rd("measured_pos_file")])
        ctx.close(ms, np.c_[x, y], 6e-4, "measured spots")
        for v in rd("fiducial_config_file"):
            l, p = int(v[0]), int(v[5])
            if p:
                j = fid[(m["LOCATION"][fid] == l) & (m["PINHOLE_ID"][fid] == p)]
                ctx.expect(len(j) == 1 and p <= 4, "pinhole {} of {} in the fiducial pattern", p, l)
                q = floc == l
                ctx.close([float(v[1]), float(v[2])], [m["X_FP"][j[0]] - fx[q][0], m["Y_FP"][j[0]] - fy[q][0]], 6e-4, "pattern of fiducial %d" % l)
        num = {515: 1, 1027: 2, 259: 3, 771: 4}
        seen = set()
        refs = {(l, p): (a, b, e, f) for l, p, a, b, e, f in zip(m["LOCATION"][fid], m["PINHOLE_ID"][fid], *d.fp2fvc(m["X_FP"][fid], m["Y_FP"][fid]), *t.fp2fvc(m["X_FP"][fid], m["Y_FP"][fid]))}
        for v in rd("reference_pos_file"):
            l, p = int(v[0]), num[int(v[4])]
            seen.add((l, p))
            ctx.expect((l, p) in refs, "reference pinhole {} {}", l, p)
            rx, ry, ux, uy = refs[l, p]
            a, b = float(v[1]), float(v[2])
            ctx.expect(min(np.hypot(a - rx, b - ry), np.hypot(a - ux, b - uy)) < 1e-3, "position of reference pinhole {} {}", l, p)
        ctx.expect(len(seen) == (m["PINHOLE_ID"][fid] <= 4).sum(), "reference pinholes")
        # the table
        ctx.expect(len(r) == len(x), "{} spots out of {}", len(r), len(x))
        ctx.close(np.c_[r["XPIX"], r["YPIX"]], np.c_[x, y], 6e-4, "positions returned")
        gl, gp = np.array(r["LOCATION"]), np.array(r["PINHOLE_ID"])
        first = {}
        for i, l in enumerate(m["LOCATION"]):
            first.setdefault(int(l), i)
        kk = np.array(r["SPOTMATCH_DEVICE_TYPE"]).astype(str)
        for i in range(len(r)):
            if gl[i] < 0:
                ctx.expect(str(r["DEVICE_ID"][i]) == "unknown" and gp[i] == 0, "unmatched spot has device {}", r["DEVICE_ID"][i])
                continue
            j = first[int(gl[i])]
            for name in ("DEVICE_TYPE", "DEVICE_ID"):
                ctx.expect(str(r[name][i]) == str(m[name][j]), "{} of location {}: {} instead of {}", name, gl[i], r[name][i], m[name][j])
            for name in ("PETAL_LOC", "DEVICE_LOC"):
                ctx.expect(int(r[name][i]) == int(m[name][j]), "{} of location {}", name, gl[i])
        ctx.expect(np.all((gp == 99) == (kk == "fiducial")), "number of fiducial centres")
        ctx.expect(np.all(gp[kk == "fiber"] == 0), "number of fibers")
        for l in np.unique(gl[kk == "fiducial"]):
            q = gp[(gl == l) & (kk == "pinhole")]
            ctx.expect(sorted(q) == list(range(10, 10 + len(q))), "numbers of the pinholes of {}: {}", l, q)
