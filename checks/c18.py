"""C18 processing of camera images"""
import glob, io, json, os, subprocess, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, data, tx, sky
from vf.fresh import Package
from vf.gen import fixed, uni
from checks.c14 import recognisable
from checks.c16 import far, STANDIN
from checks import c17

P = "C18"


class Quiet:
    """the driver prints a lot"""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o
        return False


def as_dict(raw):
    return dict(scale=raw["scale"], rotation=raw["rotation"], offset_x=raw["offset_x"], offset_y=raw["offset_y"], ids=raw["zbpolids"], coeffs=raw["zbcoeffs"],
                reduce=[raw["xfvc_scale"], raw["yfvc_scale"], raw["xfvc_offset"], raw["yfvc_offset"]])


def nominal():
    return as_dict(json.load(open(data.path("init-fvc2fp.json"))))


def exposure():
    return dict(seed=gen.seeds(), off=uni(0., 30.), rot=uni(-.001, .001), scale=uni(-.003, .003), npos=st.sampled_from([0, 20, 150, 600]),
                nnoise=st.integers(0, 20), lost=st.sampled_from([0., 0., .03]), miss=st.sampled_from([0., .1, .5]))


def options():
    return dict(zbfit=st.booleans(), fixed=st.sampled_from(["", "", "", "scale", "rotation", "both"]),
                expected=st.sampled_from(["none", "X_FP", "X_FP", "X_FP_EXP", "QS"]), pinrows=st.booleans(), loc=st.booleans(), fmt=st.sampled_from(["csv", "fits"]),
                dmax=st.sampled_from([7, 7, 2., .05, 15.]), turb=st.sampled_from(["", "", "", "gp", "pol"]), model=st.booleans(), mkdir=st.booleans(), extra=st.booleans(), own_input=st.sampled_from(["", "near", "turned"]), sep=st.sampled_from([1.5, 1.5, 1.8, 1.]))


def turn(c):
    """rotation of a camera for which an input transform is given"""
    o = c.get("opt", {})
    if o.get("own_input") != "turned" or o["fixed"] in ("rotation", "both"):
        return 0.
    return .1 + c["seed"] % 7 / 10. if c["seed"] % 2 else -.1 - c["seed"] % 5 / 10.


def input_transform(c, fn):
    raw = json.load(open(data.path("init-fvc2fp.json")))
    raw["offset_x"] += c["off"] / 6000.
    raw["rotation"] += turn(c)
    json.dump(raw, open(fn, "w"))
    return raw


def scene(c):
    """pixels, true location, pinhole; table of expected positions"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    fid = np.flatnonzero((m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF"))
    pos = np.flatnonzero(m["DEVICE_TYPE"] == "POS")
    t = nominal()
    ph = rs.uniform(0, 2 * np.pi)
    o = c.get("opt", {})
    true = dict(t, scale=t["scale"] * (1 + (0. if o.get("fixed") in ("scale", "both") else c["scale"])), rotation=t["rotation"] + (0. if o.get("fixed") in ("rotation", "both") else c["rot"]) + c.get("turned", turn(c)),
                offset_x=t["offset_x"] + c["off"] / 3000. * np.cos(ph), offset_y=t["offset_y"] + c["off"] / 3000. * np.sin(ph))
    keep = fid[rs.rand(len(fid)) >= c["lost"]]
    k = rs.permutation(pos)[:c["npos"]]
    r, a = 5. * np.sqrt(rs.rand(len(k))), rs.uniform(0, 2 * np.pi, len(k))
    ex, ey = m["X_FP"][k] + r * np.cos(a), m["Y_FP"][k] + r * np.sin(a)
    d = np.where(rs.rand(len(k)) < .15, rs.uniform(.03, 9., len(k)), np.abs(rs.normal(0, .02, len(k))))
    a = rs.uniform(0, 2 * np.pi, len(k))
    sx, sy = ex + d * np.cos(a), ey + d * np.sin(a)
    if o.get("turb") == "gp":        # (spots far from their expected position make the search of the covariance ill defined)
        sx, sy = [w + (z - w) * np.minimum(d, .05) / d for w, z in ((ex, sx), (ey, sy))]
    if o.get("turb"):
        sx, sy = sx + .15 * np.sin(ex / 150. + ph), sy + .15 * np.cos(ey / 130. + ph)
    seen = rs.rand(len(k)) >= c["miss"]
    n = c["nnoise"]
    r, a = 400. * np.sqrt(rs.rand(n)), rs.uniform(0, 2 * np.pi, n)
    ox, oy = np.r_[sx[seen], r * np.cos(a)], np.r_[sy[seen], r * np.sin(a)]
    if len(ox):
        f = far(ox, oy, m["X_FP"][fid], m["Y_FP"][fid], 4.)
        ox, oy = ox[f], oy[f]
    x, y = np.r_[m["X_FP"][keep], ox], np.r_[m["Y_FP"][keep], oy]
    loc, pin = np.r_[m["LOCATION"][keep], np.full(len(ox), -1)], np.r_[m["PINHOLE_ID"][keep], np.zeros(len(ox), int)]
    u, v = tx.inverse(true, x, y)
    q = rs.permutation(len(x))
    return rs, dict(x=x[q], y=y[q], u=u[q], v=v[q], loc=loc[q], pin=pin[q]), dict(x=ex, y=ey, loc=m["LOCATION"][k], id=m["DEVICE_ID"][k])


def write_expected(imp, c, e, rs, fn):
    """returns x, y, LOCATION, EXP_Q_0 of the rows that may be matched"""
    from astropy.table import Table
    o = c["opt"]
    t = Table()
    x, y, loc, ids = np.array(e["x"]), np.array(e["y"]), np.array(e["loc"]), np.array(e["id"]).astype(str)
    typ = np.repeat("POS", len(x))
    if o["extra"]:           # expected position of a device that is nowhere near
        x, y, loc, ids, typ = np.r_[x, 5000.], np.r_[y, 0.], np.r_[loc, 9999], np.append(ids, "M99999"), np.append(typ, "POS")
    pin = np.zeros(len(x), int)
    if o["pinrows"]:
        m = data.metro_np()
        f = np.flatnonzero((m["DEVICE_TYPE"] == "FIF"))[:40]
        x, y, loc, pin = np.r_[x, m["X_FP"][f]], np.r_[y, m["Y_FP"][f]], np.r_[loc, m["LOCATION"][f]], np.r_[pin, m["PINHOLE_ID"][f]]
        ids, typ = np.append(ids, m["DEVICE_ID"][f].astype(str)), np.append(typ, m["DEVICE_TYPE"][f].astype(str))
    p = rs.permutation(len(x))
    x, y, loc, pin, ids, typ = x[p], y[p], loc[p], pin[p], ids[p], typ[p]
    if o["loc"]:
        t["LOCATION"] = loc
    else:
        t["PETAL_LOC"], t["DEVICE_LOC"] = loc // 1000, loc % 1000
    ok = np.ones(len(x), bool)
    q = None
    if o["expected"] == "QS":
        q, s = imp("desimeter.transform.xy2qs").xy2qs(np.where(np.abs(x) > 1000, 10., x), y)
        q, s = np.array(q), np.array(s)
        ok = (np.abs(x) < 1000) & (rs.rand(len(x)) > .1)
        q[~ok] = np.nan
        s[~ok] = np.nan
        t["EXP_Q_0"], t["EXP_S_0"] = q, s
    else:
        sfx = "_EXP" if o["expected"] == "X_FP_EXP" else ""
        t["X_FP" + sfx], t["Y_FP" + sfx] = x, y
    t["DEVICE_ID"], t["DEVICE_TYPE"] = ids, typ
    if o["pinrows"]:
        t["PINHOLE_ID"] = pin
    t.write(fn, overwrite=True)
    ok &= pin == 0
    return x[ok], y[ok], loc[ok], ids[ok], (None if q is None else q[ok])


def nearest_unique(x1, y1, x2, y2, dmax):
    """index in 2 for each of 1 or -1"""
    out = np.full(len(x1), -1)
    if len(x1) == 0 or len(x2) == 0:
        return out, np.full(len(x1), np.inf)
    d = np.hypot(np.subtract.outer(x1, x2), np.subtract.outer(y1, y2))
    k, dm = d.argmin(axis=1), d.min(axis=1)
    for j in np.unique(k):
        i = np.flatnonzero(k == j)
        b = i[dm[i].argmin()]
        if dm[b] < dmax:
            out[b] = j
    return out, dm


def run(imp, args):
    p = imp("desimeter.processfvc")
    with Quiet():
        return p.fvc_proc(p.get_parser().parse_args([str(a) for a in args]), imp("desimeter.log").get_logger())


def tonum(col):
    return np.array(np.ma.filled(np.ma.asarray(col).astype(float), np.nan), dtype=float)


@sub(P, lambda: fixed(opt=fixed(**options()), again=st.sampled_from(["", "", "same", "rows", "history"]), **exposure()), 160, 2600, "positioner spots, or other spots", shards=8)
def spots_table(c, ctx):
    """from a table of spots to the table of identified and located spots"""
    from astropy.table import Table
    o = c["opt"]
    rs, s, e = scene(c)
    ctx.nontrivial(c["npos"] > 0 or c["nnoise"] > 0)
    ctx.label("expected " + o["expected"])
    ctx.label(c["again"] or "once")
    with tempfile.TemporaryDirectory() as tmp, Package() as imp:
        src = os.path.join(tmp, "spots.csv")
        t = Table(dict(XPIX=s["u"], YPIX=s["v"], COUNTS=np.arange(len(s["u"])) + 1000.))
        t.write(src)
        out = os.path.join(tmp, "a", "b", "out.csv") if o["mkdir"] else os.path.join(tmp, "out.csv")
        jfn = os.path.join(tmp, "c", "d", "tx.json") if o["mkdir"] else os.path.join(tmp, "tx.json")
        args = ["-i", src, "-o", out, "--output-transform", jfn]
        if o["mkdir"]:
            args += ["--make-directory"]
        if o["zbfit"]:
            args += ["--zbfit"]
        if o["fixed"] in ("scale", "both"):
            args += ["--fixed-scale"]
        if o["fixed"] in ("rotation", "both"):
            args += ["--fixed-rotation"]
        if o["dmax"] != 7:
            args += ["--max-match-distance", o["dmax"]]
        if o["own_input"]:
            fn = os.path.join(tmp, "input.json")
            raw = input_transform(c, fn)
            args += ["--input-transform", fn]
            ctx.label("turned camera", turn(c) != 0)
        if o["sep"] != 1.5:
            args += ["--pinhole-max-separation-mm", o["sep"]]
        m = data.metro_np()
        if o["expected"] == "none" or len(e["x"]) == 0:
            k = m["PINHOLE_ID"] == 0
            exp = m["X_FP"][k], m["Y_FP"][k], m["LOCATION"][k], m["DEVICE_ID"][k].astype(str), None
            given = False
        else:
            fn = os.path.join(tmp, "expected." + o["fmt"])
            exp = write_expected(imp, c, e, rs, fn)
            args += ["--expected-positions", fn]
            given = True
        if o["turb"] and c["npos"] <= 150:
            args += [{"gp": "--turbulence-correction", "pol": "--turbulence-correction-with-pol"}[o["turb"]]]
            turb = given
        else:
            turb = False
        if o["model"]:
            fm = imp("desimeter.fieldmodel").FieldModel()
            fm.ra, fm.dec, fm.lst, fm.hexrot_deg, fm.mjd, fm.adc1, fm.adc2, fm.expid, fm.nstars = 120.3, 22.1, 118., .05, 59000., 30., 40., 7, 11
            for att in ("sxx", "syy"):
                setattr(fm, att, 1.)
            fn = os.path.join(tmp, "fm.json")
            with open(fn, "w") as f:
                f.write(fm.tojson())
            args += ["--field-model", fn]
        if c["again"] == "history":        # another exposure first
            rs2, s2, e2 = scene(dict(c, seed=c["seed"] + 1, off=30. - c["off"], rot=-c["rot"], opt={}, turned=turn(c)))
            src2 = os.path.join(tmp, "other.csv")
            Table(dict(XPIX=s2["u"], YPIX=s2["v"], COUNTS=np.ones(len(s2["u"])))).write(src2)
            other = ["-i", src2, "-o", os.path.join(tmp, "other-out.csv"), "--zbfit"]
            if o["own_input"]:
                raw["rotation"] += .0003
                json.dump(raw, open(os.path.join(tmp, "input2.json"), "w"))
                other += ["--input-transform", os.path.join(tmp, "input2.json")]
            ctx.expect(run(imp, other) == 0, "the other exposure failed")
        err = run(imp, args)
        ctx.expect(err == 0, "error code {}", err)
        ctx.expect(os.path.exists(out) and os.path.exists(jfn), "an output is missing: {} {}", os.path.exists(out), os.path.exists(jfn))
        want_dirs = {"a", "c"} if o["mkdir"] else set()
        ctx.expect({d for d in os.listdir(tmp) if os.path.isdir(os.path.join(tmp, d))} == want_dirs, "directories {}", os.listdir(tmp))
        r = Table.read(out, format="csv")
        ctx.expect(len(r) == len(s["x"]), "{} spots in, {} out", len(s["x"]), len(r))
        ctx.close(tonum(r["XPIX"]), s["u"], 1e-9, "XPIX")
        ctx.close(tonum(r["YPIX"]), s["v"], 1e-9, "YPIX")
        ctx.close(tonum(r["COUNTS"]), np.arange(len(r)) + 1000., 0, "COUNTS")
        raw = json.load(open(jfn))
        td = as_dict(raw)
        n0 = nominal()
        if o["fixed"] in ("scale", "both"):
            ctx.expect(td["scale"] == n0["scale"], "fixed scale changed")
        if o["fixed"] in ("rotation", "both"):
            ctx.expect(td["rotation"] == n0["rotation"], "fixed rotation changed")
        if not o["zbfit"]:
            ctx.expect(np.array_equal(td["coeffs"], n0["coeffs"]), "distortions changed without --zbfit")
        x, y = tx.forward(td, s["u"], s["v"])
        ctx.close(np.hypot(x - s["x"], y - s["y"]), 0., .02 if o["zbfit"] else .004, "distance of the fitted transform to the truth")
        gl, gp = np.array(r["LOCATION"]), np.array(r["PINHOLE_ID"])
        isf = gp > 0
        ctx.expect(np.all(gl[isf] == s["loc"][isf]), "fiducial with wrong location")
        ctx.expect(isf.sum() > (300 if o["sep"] >= 1.5 else 30), "only {} pinholes identified", isf.sum())
        with Quiet():
            ff = imp("desimeter.findfiducials").findfiducials(t.copy(), input_transform=os.path.join(tmp, "input.json") if o["own_input"] else None, pinhole_max_separation_mm=o["sep"])
        ctx.expect(np.array_equal(np.array(ff["PINHOLE_ID"]), gp) and np.array_equal(np.array(ff["LOCATION"])[isf], gl[isf]), "fiducials are not those identified with the given input transform and separation: {} instead of {}", isf.sum(), np.sum(ff["PINHOLE_ID"] > 0))
        key = {(a, b): i for i, (a, b) in enumerate(zip(m["LOCATION"], m["PINHOLE_ID"]))}
        j = np.array([key[a, b] for a, b in zip(gl[isf], gp[isf])])
        for name in ("X_FP", "Y_FP"):
            for suffix in ("_METRO", "_EXP"):
                ctx.close(tonum(r[name + suffix])[isf], m[name][j], 1e-9, name + suffix + " of fiducials")
            ctx.close(tonum(r[name + "_METRO"])[~isf], 0., 0., name + "_METRO of other spots")
        d = np.hypot(x[isf] - m["X_FP"][j], y[isf] - m["Y_FP"][j]) * 1000
        ctx.expect(raw["nmatch"] == isf.sum(), "nmatch {} for {} fiducials", raw["nmatch"], isf.sum())
        ctx.close([raw["meandistance"], raw["mediandistance"], raw["rmsdistance"]], [d.mean(), np.median(d), np.sqrt(np.mean(d ** 2))], 1e-6, "quality of the fit")
        # fibers
        free = np.flatnonzero(~(isf | ((s["loc"] >= 0) & (gl == s["loc"]))))
        ex, ey, el, eid, eq = exp
        k, dm = nearest_unique(x[free], y[free], ex, ey, o["dmax"])
        if np.any(np.abs(dm - o["dmax"]) < 1e-5):
            return ctx.label("on the edge")
        ctx.label("some matched", np.any(k >= 0))
        ctx.label("some spots unmatched", np.any(k < 0))
        want = np.where(k >= 0, el[k] if len(el) else -1, -1)
        bad = np.flatnonzero(gl[free] != want)
        ctx.expect(len(bad) == 0, "{} of {} spots have a wrong location, e.g. {} instead of {}, {} mm from the expected position", len(bad), len(free), gl[free][bad[:1]], want[bad[:1]], dm[bad[:1]])
        tol = 1e-9 if eq is None else 3e-3
        ctx.close(tonum(r["X_FP_EXP"])[free], np.where(k >= 0, ex[k] if len(ex) else 0., 0.), tol, "X_FP_EXP of fibers")
        ctx.close(tonum(r["Y_FP_EXP"])[free], np.where(k >= 0, ey[k] if len(ey) else 0., 0.), tol, "Y_FP_EXP of fibers")
        if eq is not None and np.any(k >= 0):
            ctx.close(tonum(r["EXP_Q_0"])[free][k >= 0], eq[k[k >= 0]], 1e-9, "EXP_Q_0")
        if "DEVICE_ID" in r.colnames:
            g = np.array(r["DEVICE_ID"]).astype(str)[free]
            ctx.expect(np.all(g[k >= 0] == eid[k[k >= 0]]), "device identifiers of fibers")
            ctx.expect(np.all(np.char.strip(g[k < 0]) == "None"), "device identifiers of unmatched spots: {}", np.unique(g[k < 0]))
        if not (given and o["loc"]) or o["expected"] == "none":
            pl, dl = np.array(r["PETAL_LOC"]), np.array(r["DEVICE_LOC"])
            q = gl >= 0
            ctx.expect(np.all(pl[q] * 1000 + dl[q] == gl[q]), "petal and device locations")
        gx, gy = tonum(r["X_FP"]), tonum(r["Y_FP"])
        cor = np.zeros(len(r), bool)
        if turb and np.any(k >= 0):
            T = imp("desimeter.turbulence")
            # (the correction of GP kind is a function of the set of points: same set, same order)
            cor[free[k >= 0]] = True
            f = np.flatnonzero(cor)
            xe, ye = tonum(r["X_FP_EXP"])[f], tonum(r["Y_FP_EXP"])[f]
            cf = T.correct if o["turb"] == "gp" else T.correct_with_pol
            with Quiet():
                nx, ny = cf(x[f], y[f], xe, ye)
            tol = (.02 if o["turb"] == "gp" else 5e-4) + .01 * np.hypot(nx - x[f], ny - y[f])      # (the search of the covariance stops at several places of a flat valley)
            ctx.label("turbulence %s" % o["turb"])
            if np.any(np.hypot(gx[f] - nx, gy[f] - ny) > tol) and o["turb"] == "gp":
                # the search of the covariance can get lost, which depends on the rounding of its data: judged where it never does
                with Quiet():
                    shaken = [cf(x[f] + rs.normal(size=len(f)) * 1e-8, y[f] + rs.normal(size=len(f)) * 1e-8, xe, ye) for i in range(24)]
                if any(np.any(np.hypot(nx - u, ny - v) > .3 * tol) for u, v in shaken):
                    ctx.label("turbulence ill defined")
                    nx, ny = gx[f], gy[f]
            ctx.close(gx[f], nx, tol, "X_FP corrected for turbulence")
            ctx.close(gy[f], ny, tol, "Y_FP corrected for turbulence")
        ctx.close(gx[~cor], x[~cor], 1e-9, "X_FP under the written transform")
        ctx.close(gy[~cor], y[~cor], 1e-9, "Y_FP under the written transform")
        if o["model"]:
            ra, dec = fm.fp2radec(gx, gy)
            ctx.expect(np.all(sky.sep(tonum(r["RA"]), tonum(r["DEC"]), ra, dec) < 1e-5), "RA, DEC are not those of the field model")
        else:
            ctx.expect("RA" not in r.colnames, "RA without a field model")
        if c["again"] == "same":
            first = open(out).read()
            ctx.expect(run(imp, args) == 0, "second run failed")
            ctx.expect(open(out).read() == first, "second run of the same command gives another table")
        elif c["again"] == "history":
            first = open(out).read()
            run(imp, other)
            ctx.expect(run(imp, args) == 0, "run after another exposure failed")
            ctx.expect(open(out).read() == first, "result depends on the exposures processed before")
    if c["again"] == "history":
        with tempfile.TemporaryDirectory() as tmp2, Package() as imp:    # and alone, as in a new program
            fresh(ctx, imp, c, tmp2, t, gl, gx, turb)
    elif c["again"] == "rows":
        p = rs.permutation(len(t))
        with tempfile.TemporaryDirectory() as tmp2, Package() as imp:
            fresh(ctx, imp, c, tmp2, t, gl, gx, turb, p)


def fresh(ctx, imp, c, tmp, t, gl, gx, turb, p=None):
    """same spots (rows in another order), same options, in a new program"""
    from astropy.table import Table
    o = c["opt"]
    rs, s, e = scene(c)
    src, out = os.path.join(tmp, "x.csv"), os.path.join(tmp, "y.csv")
    (t if p is None else t[p]).write(src)
    args = ["-i", src, "-o", out] + (["--zbfit"] if o["zbfit"] else []) + ["--max-match-distance", o["dmax"], "--pinhole-max-separation-mm", o["sep"]]
    if o["fixed"] in ("scale", "both"):
        args += ["--fixed-scale"]
    if o["fixed"] in ("rotation", "both"):
        args += ["--fixed-rotation"]
    if o["own_input"]:
        fn = os.path.join(tmp, "input.json")
        input_transform(c, fn)
        args += ["--input-transform", fn]
    if o["expected"] != "none" and len(e["x"]):
        fn = os.path.join(tmp, "e." + o["fmt"])
        write_expected(imp, c, e, rs, fn)
        args += ["--expected-positions", fn]
    ctx.expect(run(imp, args) == 0, "run alone failed")
    r = Table.read(out, format="csv")
    w = "in another order of rows" if p is not None else "alone"
    p = np.arange(len(t)) if p is None else p
    bad = np.flatnonzero(np.array(r["LOCATION"]) != gl[p])
    ctx.expect(len(bad) == 0, "{}: {} locations differ", w, len(bad))
    if not turb:
        ctx.close(tonum(r["X_FP"]), gx[p], 1e-3, "X_FP " + w)


@sub(P, lambda: fixed(seed=gen.seeds(), nmin=st.integers(-3, 3), nmax=st.integers(-3, 3), use=st.sampled_from(["min", "max", "both"])), 60, 600, "always", shards=2)
def spot_number_limits(c, ctx):
    """exposures with too few or too many spots give no table, others do"""
    from astropy.table import Table
    ctx.nontrivial(True)
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = rs.randint(5, 40)
    with tempfile.TemporaryDirectory() as tmp, Package() as imp:
        src, out = os.path.join(tmp, "s.csv"), os.path.join(tmp, "o.csv")
        u, v = rs.uniform(0, 6000, n), rs.uniform(0, 6000, n)
        Table(dict(XPIX=u, YPIX=v)).write(src)
        args = ["-i", src, "-o", out, "--nomatch"]
        ok = True
        if c["use"] != "max":
            args += ["--min-spots", n + c["nmin"]]
            ok &= c["nmin"] <= 0
        if c["use"] != "min":
            args += ["--max-spots", n + c["nmax"]]
            ok &= c["nmax"] >= 0
        run(imp, args)
        ctx.label("table" if ok else "no table")
        ctx.expect(os.path.exists(out) == ok, "{} spots, limits {}: table {}", n, args[5:], os.path.exists(out))
        if ok:
            r = Table.read(out)
            ctx.close(tonum(r["XPIX"]), u, 1e-9, "XPIX")
            ctx.close(tonum(r["YPIX"]), v, 1e-9, "YPIX")


@sub(P, lambda: fixed(seed=gen.seeds(), next=st.integers(1, 4), primary=st.booleans(), how=st.sampled_from(["default", "last", "sequence", "name"]),
                      bias=st.sampled_from(["none", "file", "data", "data-unused"]), counts=st.booleans(), per_pixel=st.booleans(), psf=st.sampled_from([1., 1., 1.2]), fz=st.booleans(), raw=st.booleans(), limit=st.sampled_from(["", "", "min", "max", "min seq"])),
     120, 1200, "more than one image, or a bias", shards=4)
def image_files(c, ctx):
    """reading of images: extensions, sequences, bias, thresholds"""
    import fitsio
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    shape = rs.randint(70, 140), rs.randint(70, 140)
    if c["limit"] == "min seq":      # an image with too few spots amid a sequence
        c = dict(c, limit="min", how="sequence", next=max(3, c["next"]))
    scenes = []
    for i in range(c["next"]):
        xy = c17.centres(rs, rs.randint(1, 8), shape, 9., 14.)
        im = rs.normal(1000., 5., shape)
        flux = 10 ** rs.uniform(4.3, 5.5, len(xy))
        for (x, y), f in zip(xy, flux):
            im += c17.spot(shape, x, y, f, 1.)
        scenes.append((xy, flux, im))
    ctx.nontrivial(c["next"] > 1 or c["bias"] != "none")
    ctx.label(c["how"])
    ctx.label("bias " + c["bias"])
    bias = None
    with tempfile.TemporaryDirectory() as tmp:
        datadir = None
        import shutil
        fake = os.path.join(tmp, "data")
        shutil.copytree(data.path(""), fake)
        if os.path.exists(os.path.join(fake, "bias.fits")):
            os.unlink(os.path.join(fake, "bias.fits"))
        if c["bias"] != "none":
            bias = rs.uniform(0, 300., shape) + 400 * (rs.rand(*shape) < .02)     # hot pixels would be in the way
            for b in scenes:
                b[2][...] += bias
            bfn = os.path.join(tmp, "b.fits") if c["bias"] == "file" else os.path.join(fake, "bias.fits")
            fitsio.write(bfn, bias)
        out = os.path.join(tmp, "o.csv")
        one = c["next"] == 1 and not c["primary"]
        fz = c["fz"] and c["raw"] and not one           # compressed without loss
        src = os.path.join(tmp, "im.fits.fz" if fz else "im.fits")
        ctx.label("compressed", fz)
        conv = (lambda a: np.round(a).astype(np.int32)) if c["raw"] else (lambda a: a)
        with fitsio.FITS(src, "rw", clobber=True) as f:
            if one:
                f.write(conv(scenes[0][2]))
            else:
                f.write(None)
                for i, b in enumerate(scenes):
                    f.write(conv(b[2]), extname="F%04d" % i, **(dict(compress="gzip") if fz else {}))
                if c["primary"]:      # something else after the images
                    f.write(np.zeros((4, 4)), extname="OTHER")
        with Package(fake) as imp:
            args = ["-i", src, "-o", out, "--nomatch"]
            want = [0]
            if c["how"] == "last":
                args += ["--extname", "last"]
                want = [c["next"] - 1]
            elif c["how"] == "name" and not one:
                want = [rs.randint(c["next"])]
                args += ["--extname", "F%04d" % want[0]]
            elif c["how"] == "sequence" and not one:
                args += ["--sequence"]
                want = list(range(c["next"]))
            used = bias
            if c["bias"] == "file":
                args += ["--bias", bfn]
            elif c["bias"] == "data-unused":
                args += ["--no-bias"]
                used = None
            kw = dict(min_counts_per_pixel=500., min_counts_per_spot=10000., nsig=7, psf_sigma=1.)
            if c["counts"]:
                kw["min_counts_per_spot"] = float(np.round(10 ** rs.uniform(4., 5.3)))
                args += ["--min-counts", kw["min_counts_per_spot"]]
            if c["per_pixel"]:
                kw["min_counts_per_pixel"] = float(np.round(10 ** rs.uniform(2.5, 3.7)))
                args += ["--min-counts-per-pixel", kw["min_counts_per_pixel"]]
            if c["psf"] != 1.:
                kw["psf_sigma"] = c["psf"]
                args += ["--fvc-psf-sigma", c["psf"]]
            for i in want:     # an image without any spot is refused
                f = scenes[i][1]
                if not np.any((f > 1.1 * kw["min_counts_per_spot"]) & (.06 * f > kw["min_counts_per_pixel"])):
                    return ctx.label("no spot")
            if c["limit"]:     # an image with too few or too many spots has no table, the others do
                with Quiet():
                    n = [len(imp("desimeter.detectspots").detectspots(conv(scenes[i][2]).astype(float) - (0. if used is None else used), **kw)) for i in want]
                at = sorted(n)[len(n) // 2] + rs.randint(2)
                args += ["--min-spots" if c["limit"] == "min" else "--max-spots", at]
                want = [i for i, k in zip(want, n) if (k >= at if c["limit"] == "min" else k <= at)]
                ctx.label("some out of limits", len(want) < len(n))
            err = run(imp, args)
            ctx.expect(err == 0, "error code {}", err)
            if len(want) != 1 or ("--sequence" in args):
                files = sorted(glob.glob(os.path.join(tmp, "o*.csv")), key=str.lower)
                ctx.expect([os.path.basename(f).lower() for f in files] == ["o-f%04d.csv" % i for i in want], "files written: {}", [os.path.basename(f) for f in files])
            else:
                files = [out]
                ctx.expect(glob.glob(os.path.join(tmp, "o*.csv")) == files, "files written: {}", glob.glob(os.path.join(tmp, "o*")))
            for i, fn in zip(want, files):
                r = Table.read(fn)
                w = "image %d" % i
                xy, flux, im = scenes[i]
                im = conv(im).astype(float)
                with Quiet():
                    t = imp("desimeter.detectspots").detectspots(im if used is None else im - used, **kw)
                ctx.expect(len(t) == len(r), "{}: {} spots instead of {}", w, len(r), len(t))
                a, b = [np.array(sorted(zip(tonum(q["XPIX"]), tonum(q["YPIX"]), tonum(q["COUNTS"])))) for q in (t, r)]
                if len(a):
                    ctx.close(b[:, :2], a[:, :2], .005, w + ": positions")
                    ctx.close(b[:, 2], a[:, 2], 2. + 2e-3 * a[:, 2], w + ": counts")
                if used is not None or c["bias"] == "none":       # the truth
                    peak = flux * .06
                    sure = (flux > 1.1 * kw["min_counts_per_spot"]) & (peak > kw["min_counts_per_pixel"])
                    x, y = tonum(r["XPIX"]), tonum(r["YPIX"])
                    for (u, v) in xy[sure]:
                        ctx.expect(len(x) and np.hypot(x - u, y - v).min() < .1, "{}: spot at {:.1f},{:.1f} missing", w, u, v)
                    for u, v in zip(x, y):
                        ctx.expect(len(xy) and np.hypot(xy[:, 0] - u, xy[:, 1] - v).min() < .1, "{}: spot at {:.1f},{:.1f} does not exist", w, u, v)


@sub(P, lambda: fixed(given=st.booleans(), dup=st.booleans(), **exposure()), 60, 600, "always", shards=4)
def external_matcher(c, ctx):
    """processing with the external matching program"""
    from astropy.table import Table
    ctx.nontrivial(True)
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    fid = np.flatnonzero((m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF"))
    pos = np.flatnonzero(m["DEVICE_TYPE"] == "POS")
    floc = np.unique(m["LOCATION"][fid])
    fx, fy = np.array([[m[v][fid][m["LOCATION"][fid] == l].mean() for l in floc] for v in ("X_FP", "Y_FP")])
    k = rs.permutation(pos)[:min(c["npos"], 100) + 1]
    ex, ey = m["X_FP"][k], m["Y_FP"][k]
    if c["given"]:
        ex, ey = ex + rs.uniform(-3, 3, len(k)), ey + rs.uniform(-3, 3, len(k))
    sx, sy = ex + rs.normal(0, .01, len(k)), ey + rs.normal(0, .01, len(k))
    sel = rs.permutation(len(floc))[:rs.randint(6, len(floc))]
    x, y = np.r_[sx, fx[sel], 0.], np.r_[sy, fy[sel], 500.]
    loc = np.r_[m["LOCATION"][k], floc[sel], -1]
    ckind = np.r_[np.zeros(len(k)), np.full(len(sel), 99), 0]
    t = nominal()
    true = dict(t, offset_x=t["offset_x"] + .0002, rotation=t["rotation"] + .0001)
    u, v = tx.inverse(true, x, y)
    q = rs.permutation(len(x))
    x, y, u, v, loc, ckind = x[q], y[q], u[q], v[q], loc[q], ckind[q]
    ctx.label("given positions" if c["given"] else "positioner centres")
    with tempfile.TemporaryDirectory() as tmp, Package() as imp:
        exe = os.path.join(tmp, "match_positions")
        with open(exe, "w") as f:
            f.write(STANDIN)
        os.chmod(exe, 0o755)
        src, out, jfn = [os.path.join(tmp, n) for n in ("s.csv", "o.csv", "t.json")]
        Table(dict(XPIX=u, YPIX=v, COUNTS=np.ones(len(u)))).write(src)
        args = ["-i", src, "-o", out, "--use-spotmatch", "--output-transform", jfn]
        if c["given"]:
            fn = os.path.join(tmp, "e.csv")
            p = rs.permutation(len(k))
            Table(dict(LOCATION=m["LOCATION"][k][p], X_FP=ex[p], Y_FP=ey[p])).write(fn)
            args += ["--expected-positions", fn]
        saved, savedtmp = dict(os.environ), tempfile.tempdir
        os.environ.update(PATH=tmp + ":" + os.environ["PATH"], STANDIN_LOG=os.path.join(tmp, "log.json"))
        tempfile.tempdir = tmp
        try:
            err = run(imp, args)
        finally:
            tempfile.tempdir = savedtmp
            os.environ.clear()
            os.environ.update(saved)
        ctx.expect(err == 0, "error code {}", err)
        r = Table.read(out)
        ctx.expect(len(r) == len(x), "{} spots instead of {}", len(r), len(x))
        ctx.close(tonum(r["XPIX"]), u, 6e-4, "XPIX")
        gl = np.array(r["LOCATION"])
        bad = np.flatnonzero(gl != loc)
        ctx.expect(len(bad) == 0, "{} wrong locations, {} for {}", len(bad), gl[bad[:2]], loc[bad[:2]])
        td = as_dict(json.load(open(jfn)))
        px, py = tx.forward(td, tonum(r["XPIX"]), tonum(r["YPIX"]))
        ctx.close(tonum(r["X_FP"]), px, 1e-8, "X_FP under the written transform")
        ctx.close(tonum(r["Y_FP"]), py, 1e-8, "Y_FP under the written transform")
        ctx.close(px, x, .01, "distance of the fitted transform to the truth")
        wx, wy = np.zeros(len(x)), np.zeros(len(x))
        for a, b, d in zip(m["LOCATION"][k], ex, ey):
            wx[loc == a], wy[loc == a] = b, d
        for a, b, d in zip(floc, fx, fy):
            wx[loc == a], wy[loc == a] = b, d
        ctx.close(tonum(r["X_FP_EXP"]), wx, 1e-8, "X_FP_EXP")
        ctx.close(tonum(r["Y_FP_EXP"]), wy, 1e-8, "Y_FP_EXP")
        f = ckind == 99
        ctx.close(tonum(r["X_FP_METRO"])[f], wx[f], 1e-8, "X_FP_METRO")
        ctx.close(tonum(r["Y_FP_METRO"])[f], wy[f], 1e-8, "Y_FP_METRO")


@sub(P, lambda: fixed(seed=gen.seeds(), ext=st.sampled_from([".fits", ".fits.fz", ".csv", ".fits"]), old=st.booleans(), overwrite=st.booleans(), sub=st.booleans(), err=st.sampled_from([0, 0, 0, 12]), dots=st.booleans()), 120, 1200, "image", shards=2)
def one_call(c, ctx):
    """process_fvc returns the table made from that image, or the one made before unless told to overwrite it"""
    from astropy.table import Table
    from unittest import mock
    rs = np.random.RandomState(c["seed"] % 2**32)
    row = lambda: Table(dict(XPIX=rs.uniform(0, 6000, 3), YPIX=rs.uniform(0, 6000, 3)))
    ctx.nontrivial(c["ext"] != ".csv")
    with tempfile.TemporaryDirectory(prefix="vf-fvc-" + ("a.b-" if c["dots"] else "")) as tmp, Package() as imp:
        M = imp("desimeter.processfvc")
        name = os.path.basename(tmp) + "-x"
        src = os.path.join(tmp, name + c["ext"])
        want, old = row(), row()
        calls = []
        def made(infile, outfile):
            calls.append((infile, outfile))
            if c["err"] == 0:
                want.write(outfile, overwrite=True)
            return c["err"]
        def call(cmd, *a, **k):
            cmd = list(cmd) if isinstance(cmd, (list, tuple)) else cmd.split()
            assert os.path.basename(cmd[0]) == "desi_fvc_proc" and len(cmd) == 5
            o = dict(zip(cmd[1::2], cmd[2::2]))
            return made(o["-i"], o["-o"])

        def runner(cmd, *a, **k):
            r = call(cmd)
            if r and k.get("check"):
                raise subprocess.CalledProcessError(r, cmd)
            return subprocess.CompletedProcess(cmd, r)
        if c["ext"] == ".csv":
            want.write(src)
            dest = None
        else:
            open(src, "w").close()
            dest = M.get_outfilename(src)
            ctx.expect(os.path.basename(dest) == name + ".csv", "{} is processed into {}", src, dest)
            if c["old"]:
                old.write(dest, overwrite=True)
        try:
            with mock.patch.object(subprocess, "call", call), mock.patch.object(subprocess, "run", runner), mock.patch.object(M, "fvc_proc", lambda args, log: made(args.infile, args.outfile)):
                r = M.process_fvc(src, overwrite=c["overwrite"], use_subprocess=c["sub"])
        finally:
            if dest and os.path.exists(dest):
                os.unlink(dest)
    if c["ext"] == ".csv":
        ctx.expect(not calls, "a table of coordinates is processed")
    elif c["old"] and not c["overwrite"]:
        ctx.expect(not calls, "processed again")
        want = old
    else:
        ctx.expect(calls == [(src, dest)], "processed {}", calls)
        if c["err"]:
            return ctx.expect(r is None, "a result although the processing failed")
    ctx.expect(r is not None and r.colnames == want.colnames and all(np.allclose(r[k], want[k], rtol=0, atol=1e-9) for k in r.colnames), "another table is returned")


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.integers(1, 30)), 30, 200, "always", floor=.1)
def table_as_sequence(c, ctx):
    """a table of spots given as a sequence of one is written as its first image"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    ctx.nontrivial()
    with tempfile.TemporaryDirectory() as tmp, Package() as imp:
        t = Table(dict(XPIX=rs.uniform(0, 6000, c["n"]), YPIX=rs.uniform(0, 6000, c["n"]), COUNTS=rs.uniform(1e3, 1e6, c["n"])))
        t.write(os.path.join(tmp, "in.csv"))
        err = run(imp, ["-i", os.path.join(tmp, "in.csv"), "-o", os.path.join(tmp, "o.csv"), "--nomatch", "--sequence"])
        ctx.expect(err == 0, "error code {}", err)
        ctx.expect(sorted(os.path.basename(f) for f in glob.glob(os.path.join(tmp, "o*"))) == ["o-F0000.csv"], "files written: {}", os.listdir(tmp))
        r = Table.read(os.path.join(tmp, "o-F0000.csv"))
        ctx.expect(len(r) == c["n"], "{} rows", len(r))
        ctx.close(np.array([r[k] for k in t.colnames]), np.array([t[k] for k in t.colnames]), 1e-6, "spots")
