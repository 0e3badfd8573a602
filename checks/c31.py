"""C31 command-line tools working on files"""
import contextlib, csv, io, os, re, sys, tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, cli, data, tx, zb
from vf.gen import fixed, uni, mix

P = "C31"
D = np.pi / 180


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)


def read(fn):
    with open(fn) as f:
        return list(csv.DictReader(f))


def positioners():
    m = data.metro_np()
    return np.flatnonzero(m["DEVICE_TYPE"] == "POS")


# ---------------------------------------------------------------- wedged positioners
@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(4, 60), group=st.sampled_from([50, 1, 3, 7, 20]), line=st.booleans(), pin=st.booleans(), out=st.booleans()), 300, 4000, "some spots may move and some may not", shards=2)
def may_move(c, ctx):
    """the listed positioners are those not wedged between their two nearest neighbours"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y = [0.], [0.]
    while len(x) < c["n"]:
        k = rs.randint(len(x))
        if c["line"] and len(x) > 1 and rs.rand() < .4:
            # three spots in a row, exactly aligned
            px, py = x[k] + 40. + rs.randint(50), y[k] + rs.randint(50)
            s = rs.choice([1., 1.5, 2.5, .7])
            add = [(px, py), (px + s, py + s), (px + 2.2 * s, py + 2.2 * s)]
        else:
            a, d = rs.uniform(0, 2 * np.pi), rs.choice([1., 2.5, 3.4, 3.6, 5., 12.]) * rs.uniform(.98, 1.02)
            add = [(x[k] + d * np.cos(a), y[k] + d * np.sin(a))]
        for p in add:
            if min(np.hypot(np.array(x) - p[0], np.array(y) - p[1])) > .3:
                x.append(p[0]), y.append(p[1])
    x, y = np.array(x), np.array(y)
    n = len(x)
    ids = np.array(["M%05d" % k for k in rs.permutation(90000)[:n]])
    pin = np.zeros(n, int)
    if c["pin"]:
        pin[rs.permutation(n)[:rs.randint(0, n - 3)]] = rs.randint(1, 5)
    k = np.flatnonzero(pin == 0)
    want, sure = [], []
    for i in k:
        d = np.hypot(x[k] - x[i], y[k] - y[i])
        o = np.argsort(d)
        j1, j2 = k[o[1]], k[o[2]]
        far = int(d[o[1]] >= 3.5) + int(d[o[2]] >= 3.5)
        # opening angle below a right angle when the scalar product is positive
        p = (x[j1] - x[i]) * (x[j2] - x[i]) + (y[j1] - y[i]) * (y[j2] - y[i])
        want.append(far > 0 or p > 0)
        third = d[o[3]] - d[o[2]] if len(o) > 3 else 1.
        sure.append(min(abs(d[o[1]] - 3.5), abs(d[o[2]] - 3.5)) > 1e-6 and (far > 0 or abs(p) > 1e-6) and (third > 1e-6 or d[o[3]] > 3.51))
    want, sure = np.array(want), np.array(sure)
    ctx.nontrivial(want.any() and not want.all())
    with scratch():
        Table(dict(DEVICE_ID=ids, X_FP=x, Y_FP=y, PINHOLE_ID=pin, XPIX=x * 7 + 3000, YPIX=y * 7 + 3000)).write("in.csv")
        rc, out = cli.run("ok2move", ["-i", "in.csv", "-g", c["group"]] + (["-o", "out.txt"] if c["out"] else []))
        ctx.expect(rc == 0, "status {}", rc)
        if c["out"]:
            out = open("out.txt").read()
    groups = re.findall(r"^group(\d+) = \['(.*)'\]$", out, re.M)
    ctx.expect([int(g[0]) for g in groups] == list(range(len(groups))), "groups numbered {}", [g[0] for g in groups])
    lists = [g[1].split("','") for g in groups]
    ctx.expect(all(len(q) == c["group"] for q in lists[:-1]) and all(0 < len(q) <= c["group"] for q in lists), "groups of {}", [len(q) for q in lists])
    got = [i for q in lists for i in q]
    ctx.expect(len(set(got)) == len(got) and set(got) <= set(ids[k]), "listed: {}", got)
    for i, w, s in zip(k, want, sure):
        if s:
            ctx.expect((ids[i] in got) == w, "{} at {},{} {}", ids[i], x[i], y[i], "may move but is not listed" if w else "is listed although it is wedged")
    ctx.expect(got == [i for i in ids[k] if i in got], "order of the listed positioners")


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(4, 9), group=st.sampled_from([1, 2, 3, 50]), ext=st.sampled_from([None, "F0001"])), 16, 160, "several pages", shards=4)
def may_move_pages(c, ctx):
    """with an image, a picture of every positioner, on the page of its group or on that of those not to move"""
    from astropy.table import Table
    import fitsio
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    x = np.cumsum(rs.choice([1., 2., 3., 6.], n) * rs.uniform(.97, 1.03, n))
    y = rs.uniform(-.5, .5, n)
    ids = np.array(["M%05d" % k for k in rs.permutation(90000)[:n]])
    pin = np.zeros(n, int)
    if n > 5:
        pin[rs.randint(n)] = 1
    with scratch():
        Table(dict(DEVICE_ID=ids, X_FP=x, Y_FP=y, PINHOLE_ID=pin, XPIX=x * 5 + 5, YPIX=y * 5 + 40.)).write("in.csv")
        with fitsio.FITS("im.fits", "rw", clobber=True) as f:
            im = rs.normal(1000., 10., (80, 300)).astype("f4")
            f.write(im if c["ext"] is None else None)
            f.write(im, extname="F0001")
        rc, out = cli.run("ok2move", ["-i", "in.csv", "-g", c["group"], "--plotdir", "qa/plots", "--fvcimage", "im.fits"] + (["--extname", c["ext"]] if c["ext"] == "F0001" else []))
        ctx.expect(rc == 0, "status {}", rc)
        ok = [g.split("','") for _, g in re.findall(r"^group(\d+) = \['(.*)'\]$", out, re.M)]
        ctx.nontrivial(len(ok) > 1)
        files = sorted(os.listdir("qa/plots"))
        ctx.expect([q for q in files if q.endswith(".png")] == sorted(i + ".png" for i in ids[pin == 0]), "pictures {} of {}", files, ids[pin == 0])
        page = {q[:-5]: re.findall(r'<IMG SRC="(\w+)\.png"/>', open("qa/plots/" + q).read()) for q in files if q.endswith(".html")}
        flat = [i for g in ok for i in g]
        ctx.expect(page.pop("dontmove", None) == [i for i in ids[pin == 0] if i not in flat], "page of the positioners not to move: {}", files)
        page = {k: v for k, v in page.items() if v}
        ctx.expect(page == {"group%d" % k: g for k, g in enumerate(ok)}, "pages {} of the groups {}", page, ok)


# ---------------------------------------------------------------- groups of positioners
@sub(P, lambda: fixed(seed=gen.seeds(), n=st.sampled_from([30, 8, 60, 120, 300]), pitch=st.sampled_from([10.4, 10.4, 9., 11.9, 12.5])), 40, 400, "more than one group", shards=2)
def groups(c, ctx):
    """groups of positioners that may move together hold no two neighbours"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = int(np.ceil(np.sqrt(c["n"] * 1.5)))
    i, j = [a.ravel() for a in np.meshgrid(np.arange(g), np.arange(g))]
    x, y = c["pitch"] * (i + .5 * j), c["pitch"] * np.sqrt(.75) * j
    k = rs.permutation(len(x))[:c["n"]]
    x, y = x[k] + rs.uniform(-.02, .02, len(k)), y[k] + rs.uniform(-.02, .02, len(k))
    n = len(k)
    ids = np.array(["M%05d" % q for q in rs.permutation(90000)[:n]])
    typ = np.where(rs.rand(n) < .1, "FIF", "POS")
    typ[:3] = "POS"
    with scratch() as d:
        os.mkdir("data")
        Table(dict(DEVICE_ID=ids, DEVICE_TYPE=typ, X_FP=x, Y_FP=y, LOCATION=np.arange(n))).write("data/fp-metrology.csv")
        import matplotlib.pyplot as plt
        with mock.patch.dict(os.environ, DESIMETER_DATA=os.path.join(d, "data")), mock.patch.object(plt, "show"):
            rc, out = cli.run("select_groups_of_positioners", [])
        ctx.expect(rc == 0, "status {}", rc)
        got = []
        for q in range(4):
            t = [r["DEVICE_ID"] for r in read("group-%d.csv" % q)]
            lst = open("group-%d.list" % q).read().strip()
            ctx.expect(lst == "[" + ",".join("'%s'" % p for p in t) + "]", "list and table of group {} differ", q)
            got.append(t)
    at = {p: q for q, p in enumerate(ids)}
    flat = [p for t in got for p in t]
    ctx.nontrivial(len(got[1]) > 0)
    ctx.expect(len(set(flat)) == len(flat), "positioner in two groups")
    ctx.expect(all(typ[at[p]] == "POS" for p in flat), "not a positioner")
    left = [p for p in ids if typ[at[p]] == "POS" and p not in set(flat)]
    for q, t in enumerate(got):
        k = np.array([at[p] for p in t], int)
        if len(k) > 1:
            dd = np.hypot(x[k][:, None] - x[k], y[k][:, None] - y[k]) + 100. * np.eye(len(k))
            ctx.expect(dd.min() >= 12., "two positioners of group {} {:.3f} mm apart", q, dd.min())
        # no other positioner would fit in
        for p in left + [p for u in got[q + 1:] for p in u]:
            dd = np.hypot(x[k] - x[at[p]], y[k] - y[at[p]])
            ctx.expect(dd.min() < 12., "{} is in a later group than {} although no neighbour is in that one", p, q)


# ---------------------------------------------------------------- field rotation
def hms(lst):
    s = round(lst / 15. * 3600., 3)
    return "%02d:%02d:%06.3f" % (s // 3600, s % 3600 // 60, s % 60)


@sub(P, lambda: fixed(ra=uni(0., 360.), dec=uni(-30., 84.), ha=uni(-60., 60.), mjd=uni(58800., 60500.), hexrot=mix(-500., 500., 0.), form=st.sampled_from(["lst", "ha", "mjd", "header", "header", "header"]), hdu=st.integers(0, 1),
                      tcsst=st.booleans(), focus=st.sampled_from(["both", "focus", "hexpos", "none"])), 250, 3000, "hexapod rotated", shards=2)
def field_rotation(c, ctx):
    """the command prints the rotation of the field for the pointing, time and hexapod angle of its options or of the header"""
    import fitsio
    from desimeter.fieldmodel import fieldrot, dfieldrotdt
    from desimeter.time import mjd2lst
    ra, dec, mjd = [round(c[k], 5) for k in ("ra", "dec", "mjd")]
    lst = float((ra + c["ha"]) % 360)
    hexrot = round(c["hexrot"], 3)
    with scratch():
        if c["form"] == "header":
            h = [dict(name="TARGTRA", value=ra), dict(name="TARGTDEC", value=dec), dict(name="MJD-OBS", value=mjd)]
            if c["tcsst"]:
                lst = sum(float(v) * f for v, f in zip(hms(lst).split(":"), (15., .25, 15. / 3600)))
                h.append(dict(name="TCSST", value=hms(lst)))
            else:
                lst = mjd2lst(mjd)
            vals = "1174.3,-297.1,305.4,-11.2,24.5,"
            if c["focus"] in ("both", "focus"):
                h.append(dict(name="FOCUS", value=vals + "%.3f" % hexrot))
            else:
                hexrot = 0.
            if c["focus"] in ("both", "hexpos"):
                h.append(dict(name="HEXPOS", value="1174.3,-297.1,305.4,-11.2,24.5,%.1f" % (hexrot + .1)))
            with fitsio.FITS("f.fits", "rw") as f:
                f.write(np.zeros((2, 2)), header=h if c["hdu"] == 0 else None)
                f.write(np.zeros((2, 2)), header=h if c["hdu"] == 1 else None)
            args = ["--fits-header", "f.fits"]
        else:
            args = ["--ra", ra, "--dec", dec, "--mjd", mjd, "--hexrot-arcsec=%.3f" % hexrot]
            if c["form"] == "lst":
                args += ["--lst", lst]
            elif c["form"] == "ha":
                args += ["--ha=%.9f" % c["ha"]]
                lst = ra + c["ha"]
            else:
                lst = mjd2lst(mjd)
        ctx.label(c["form"])
        ctx.nontrivial(abs(hexrot) > 10)
        rc, out = cli.run("desi_predict_fieldrot", args)
    ctx.expect(rc == 0, "status {}", rc)
    f = re.search(r"FIELDROT *= *(\S+) deg", out)
    g = re.search(r"DFIELDROTDT *= *(\S+) arcsec/min", out)
    ctx.expect(f and g, "printed {}", out)
    ctx.close(float(f.group(1)), fieldrot(ra=ra, dec=dec, lst_deg=lst, mjd=mjd, hexrot_deg=hexrot / 3600.), 6e-4, "field rotation")
    ctx.close(float(g.group(1)), dfieldrotdt(ra=ra, dec=dec, lst_deg=lst, mjd=mjd), 6e-4, "its rate")


# ---------------------------------------------------------------- circles
def r2s(r):
    c = np.array([-3.01232440e-03, 1.45324708e-02, -2.55244612e-02, 2.15885180e-02, -8.05287872e-03, 2.05529419e-03, 9.99773920e-01, 9.12275165e-06])
    return 400. * np.polyval(c, np.asarray(r) / 400.)


def uv2xy(u, v):
    s = np.hypot(u, v)
    r = s.copy()
    for k in range(60):
        r = r - (r2s(r) - s)
    return r * u / s, r * v / s


@sub(P, lambda: fixed(seed=gen.seeds(), npos=gen.count(1, 12), nfid=st.integers(0, 2), nfile=gen.count(6, 12), miss=st.sampled_from([0., 0., .1, .3]), zero=st.booleans(), dup=st.booleans(), still=st.booleans(), late=st.booleans()), 150, 1500, "a circle and a gap", shards=4)
def circle_centers(c, ctx):
    """the table of circles holds the centre of every moving positioner, and the median of every pinhole"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    pos = rs.permutation(positioners())[:c["npos"]]
    dev = np.flatnonzero(m["DEVICE_TYPE"] == "FIF")
    locs = rs.permutation(np.unique(m["LOCATION"][dev]))[:c["nfid"]]
    fid = np.array([i for i in dev if m["LOCATION"][i] in locs], int)
    nf = c["nfile"]
    truth, tracks = {}, {}
    for i in np.r_[pos, fid].astype(int):
        key = int(m["LOCATION"][i]), int(m["PINHOLE_ID"][i])
        x0, y0 = m["X_FP"][i], m["Y_FP"][i]
        if key[1] == 0:
            r, R = np.hypot(x0, y0), rs.uniform(1.2, 4.8)
            s = r2s(r)
            u, v = s * x0 / r + rs.uniform(-1, 1), s * y0 / r + rs.uniform(-1, 1)
            kind = "still" if c["still"] and rs.rand() < .3 else "moving"
            a = rs.uniform(0, 2 * np.pi) + np.arange(nf) * 2 * np.pi / nf + rs.uniform(-.1, .1, nf)
            if kind == "still":
                R *= 1e-4
            X, Y = uv2xy(u + R * np.cos(a), v + R * np.sin(a))
            C = uv2xy(np.array([u]), np.array([v]))
            truth[key] = [kind, float(C[0][0]), float(C[1][0]), x0, y0, R]
        else:
            X, Y = x0 + .05 + rs.normal(0, .003, nf), y0 - .03 + rs.normal(0, .003, nf)
            truth[key] = ["pinhole", None, None, x0, y0, 0.]
        tracks[key] = X, Y
    used = {k: [] for k in truth}
    sure = {k: True for k in truth}
    with scratch():
        names = []
        for f in range(nf):
            rows = []
            for k in truth:
                if rs.rand() < c["miss"] or (c["late"] and f == 0 and rs.rand() < .5):
                    continue
                X, Y = tracks[k][0][f], tracks[k][1][f]
                row = [k[0], k[1], X, Y, truth[k][3], truth[k][4]]
                if c["zero"] and rs.rand() < .1:
                    row[2] = row[3] = 0.
                    rows.append(row)
                    used[k].append(None)
                    continue
                rows.append(row)
                if c["dup"] and rs.rand() < .1:
                    rows.append([k[0], k[1], X + 3., Y, truth[k][3], truth[k][4]])     # found twice: not used
                    continue
                used[k].append(f)
            for q in range(rs.randint(0, 4)):
                rows.append([-1, 0, *rs.uniform(-300, 300, 2), 0., 0.])
            rows = [rows[q] for q in rs.permutation(len(rows))]
            if not rows:
                rows = [[-1, 0, 1., 2., 0., 0.]]
            n = "f%02d.csv" % f
            Table(rows=rows, names=["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP", "X_FP_EXP", "Y_FP_EXP"], dtype=[int, int, float, float, float, float]).write(n)
            names.append(n)
        o = rs.permutation(nf)
        rc, out = cli.run("desi_fit_circles", ["-i"] + [names[q] for q in o] + ["-o", "out.csv"])
        ctx.expect(rc == 0, "status {}", rc)
        got = read("out.csv")
    keys = [(int(r["LOCATION"]), int(r["PINHOLE_ID"])) for r in got]
    ctx.expect(len(set(keys)) == len(keys) and set(keys) <= set(truth), "rows for {}", keys)
    ctx.nontrivial(any(v[0] == "moving" for v in truth.values()) and (c["miss"] > 0 or c["zero"] or c["dup"] or c["late"]))
    for k, (kind, xc, yc, xm, ym, R) in truth.items():
        good = [f for f in used[k] if f is not None]
        if kind == "still" or len(used[k]) < 6:
            ctx.expect(k not in keys, "{} is listed ({}, {} measurements)", k, kind, len(used[k]))
            continue
        if len(good) < 5 or (kind == "moving" and np.std(tracks[k][0][good]) < 1.01):
            if kind == "moving" and len(good) > 1 and np.std(tracks[k][0][good]) < .99:
                ctx.expect(k not in keys, "{} is listed although it hardly moved", k)
            continue
        a = np.sort([np.arctan2(tracks[k][1][f] - ym, tracks[k][0][f] - xm) for f in good]) if kind == "moving" else []
        if kind == "moving":
            a = np.sort(np.arctan2(tracks[k][1][good] - yc, tracks[k][0][good] - xc))
            if np.diff(np.r_[a, a[0] + 2 * np.pi]).max() > 1.5 * np.pi:
                continue
        ctx.expect(k in keys, "{} ({} measurements) is not listed", k, len(good))
        r = got[keys.index(k)]
        v = [float(r[q]) for q in ("X_FP", "Y_FP", "X_FP_METRO", "Y_FP_METRO")]
        if kind == "pinhole":
            xc, yc = np.median(tracks[k][0][good]), np.median(tracks[k][1][good])
        ctx.close(v, [xc, yc, xm, ym], [1.5e-3, 1.5e-3, 1e-9, 1e-9] if kind == "moving" else 1e-9, "%s: centre and metrology" % (k,))


# ---------------------------------------------------------------- merging of fits
@sub(P, lambda: fixed(seed=gen.seeds(), nfile=gen.count(1, 8), failed=st.sampled_from([0., .3, 1.]), where=st.sampled_from(["columns", "columns", "metrology", "no metrology"]), wrong=st.sampled_from(["", "", "DEVICE_LOC", "PETAL_LOC", "PETAL_ID", "LOCATION"]),
                      check=st.sampled_from([True, True, False]), key=st.sampled_from(["POS_ID", "POS_ID", "DEVICE_ID"]), cmd=st.booleans(), empty=st.booleans(), loc=st.booleans(), unknown=st.booleans()), 250, 3000, "several tables with failed fits or locations to look up", shards=2)
def merged_fits(c, ctx):
    """the merged table holds every row of every table, unchanged, with the location from the table or from metrology"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    pos = rs.permutation(positioners())[:c["nfile"]]
    ctx.nontrivial(c["nfile"] > 1 and (c["failed"] > 0 or c["where"] == "metrology"))
    rows, bad, anyfit = [], False, False
    loc = c["loc"] or c["wrong"] == "LOCATION"
    with scratch():
        names = []
        for i, p in enumerate(pos):
            n = rs.randint(1, 4)
            pid = str(m["DEVICE_ID"][p])
            if c["unknown"] and rs.rand() < .3:
                pid = "M9%04d" % i
            names.append("%s_paramfits.csv" % pid)
            if c["empty"] and rs.rand() < .3:
                Table(names=[c["key"], "FLAGS"], dtype=["U6", int]).write(names[-1])
                continue
            if rs.rand() < c["failed"]:
                t = [{c["key"]: pid, "FLAGS": 64, "ANALYSIS_DATE": "2020-05-01T00:00:00"}]
            else:
                anyfit = True
                t = []
                for q in range(n):
                    r = {c["key"]: pid, "ANALYSIS_DATE": "2020-05-01T00:00:00", "FLAGS": int(rs.choice([0, 4])), "FIT_ERROR_STATIC": round(rs.uniform(.005, .05), 6), "LENGTH_R1_STATIC": round(rs.uniform(2.9, 3.1), 6)}
                    if c["where"] == "columns":
                        r.update({k: int(m[k][p]) for k in ("PETAL_ID", "PETAL_LOC", "DEVICE_LOC")})
                        if loc:
                            r["LOCATION"] = int(m["LOCATION"][p])
                        if c["wrong"] and rs.rand() < .5:
                            r[c["wrong"]] += 1
                            bad |= pid[:2] != "M9" or not c["unknown"]
                            if pid == str(m["DEVICE_ID"][p]):
                                bad = True
                    if c["cmd"]:
                        r["MOVE_CMD"] = "" if i % 2 else "creep"
                    t.append(r)
            cols = list(dict.fromkeys(k for r in t for k in r))
            with open(names[-1], "w") as f:
                w = csv.DictWriter(f, cols)
                w.writeheader(), w.writerows(t)
            rows += [dict(r) for r in t]
        if not rows:
            return
        args = (["--no-check"] if not c["check"] else []) + (["--no-metrology"] if c["where"] == "no metrology" else [])
        look = not (anyfit and c["where"] == "columns") and c["where"] != "no metrology"
        rc, out = cli.run("merge_posparams", ["-i"] + names + ["-o", "out.csv"] + args)
        if bad and c["check"] and c["where"] != "no metrology":
            ctx.label("mismatch")
            ctx.expect(rc == 12 and not os.path.exists("out.csv"), "locations that disagree with metrology were accepted (status {})", rc)
            return
        ctx.expect(rc == 0, "status {} for consistent tables", rc)
        got = read("out.csv")
    ctx.expect(len(got) == len(rows), "{} rows merged into {}", len(rows), len(got))
    at = {str(d): i for i, d in enumerate(m["DEVICE_ID"])}
    for g, r in zip(got, rows):
        pid = r[c["key"]]
        want = {k: r.get(k, "") for k in set(k for q in rows for k in q)}
        if c["cmd"] and anyfit:
            want.pop("MOVE_CMD", None)
        if look:
            j = at.get(pid)
            want.update({k: -1 if j is None else int(m[k][j]) for k in ("LOCATION", "DEVICE_LOC", "PETAL_LOC", "PETAL_ID")})
        elif c["where"] == "columns" and anyfit and not loc:
            want["LOCATION"] = 1000 * r["PETAL_LOC"] + r["DEVICE_LOC"] if "PETAL_LOC" in r else ""
        for k, v in want.items():
            ctx.expect(k in g, "column {} is missing", k)
            same = g[k] == "" if v == "" else (g[k] != "" and (abs(float(g[k]) - v) < 1e-12 if not isinstance(v, str) else g[k] == v))
            ctx.expect(same, "{}: {} is {!r}, was {!r}", pid, k, g[k], v)
        if c["cmd"] and anyfit and "MOVE_CMD" in r:
            ctx.expect(g["MOVE_CMD"] in ((r["MOVE_CMD"],) if r["MOVE_CMD"] else ("none", "")), "{}: MOVE_CMD is {!r}, was {!r}", pid, g["MOVE_CMD"], r["MOVE_CMD"])


# ---------------------------------------------------------------- camera transform from measured centres
def default_camera():
    import json
    with open(data.path("init-fvc2fp.json")) as f:
        j = json.load(f)
    return dict(scale=j["scale"], rotation=j["rotation"], offset_x=j["offset_x"], offset_y=j["offset_y"], ids=j["zbpolids"], coeffs=j["zbcoeffs"], reduce=[j["xfvc_scale"], j["yfvc_scale"], j["xfvc_offset"], j["yfvc_offset"]])


def read_camera(fn):
    import json
    with open(fn) as f:
        j = json.load(f)
    return dict(scale=j["scale"], rotation=j["rotation"], offset_x=j["offset_x"], offset_y=j["offset_y"], ids=j["zbpolids"], coeffs=j["zbcoeffs"], reduce=[j["xfvc_scale"], j["yfvc_scale"], j["xfvc_offset"], j["yfvc_offset"]])


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.sampled_from([400, 150, 1500]), size=uni(0., 1.), how=st.sampled_from(["centers", "posparams"]), other=st.booleans(), outliers=st.booleans(), poly=st.sampled_from(["", "", "0:7,9,20,27:31", "0,1,2,3,4,5,6,9,20,27,28,29,30,7"]),
                      files=st.integers(1, 3), patch=st.booleans(), bad=st.booleans()), 48, 500, "the camera differs from the default", shards=8)
def camera_fit(c, ctx):
    """fitting the camera transform to centres measured with the default one recovers the transform that puts them on metrology"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    t0 = default_camera()
    true = dict(t0, coeffs=[q + c["size"] * rs.uniform(-1, 1) * 1e-5 for q in t0["coeffs"]], scale=t0["scale"] * (1 + 3e-5 * c["size"] * rs.uniform(-1, 1)), rotation=t0["rotation"] + 3e-5 * c["size"] * rs.uniform(-1, 1))
    k = rs.permutation(positioners())[:c["n"]]
    x2, y2 = m["X_FP"][k], m["Y_FP"][k]
    shift = rs.uniform(-.01, .01, 2) if c["other"] else np.zeros(2)
    x2, y2 = x2 + shift[0], y2 + shift[1]
    u, v = tx.inverse(true, x2, y2)
    x1, y1 = tx.forward(t0, u, v)
    ctx.nontrivial(c["size"] > .05)
    n = len(k)
    out = np.zeros(n, bool)
    if c["outliers"]:
        out[rs.permutation(n)[:n // 50]] = True
        a = rs.uniform(0, 2 * np.pi, n)
        x1, y1 = x1 + np.where(out, .4 * np.cos(a), 0.), y1 + np.where(out, .4 * np.sin(a), 0.)
    poly = c["poly"] and ["--zbpolids", c["poly"]] or []
    split = np.array_split(np.arange(n), c["files"])
    mut = np.zeros(n, bool)
    with scratch():
        args = ["-o", "out.json"] + poly
        names = []
        if c["other"]:
            o = rs.permutation(n)
            Table(dict(LOCATION=m["LOCATION"][k][o], PINHOLE_ID=np.zeros(n, int), DEVICE_ID=m["DEVICE_ID"][k][o], PETAL_LOC=m["PETAL_LOC"][k][o], X_FP=x2[o], Y_FP=y2[o])).write("metro.csv")
            args += ["--other-metrology", "metro.csv"]
        if c["how"] == "centers":
            for f, q in enumerate(split):
                names.append("c%d.csv" % f)
                Table(dict(LOCATION=m["LOCATION"][k][q], PINHOLE_ID=np.zeros(len(q), int), X_FP=x1[q], Y_FP=y1[q], X_FP_METRO=x2[q] - shift[0], Y_FP_METRO=y2[q] - shift[1])).write(names[-1])
        else:
            from desimeter.transform.ptl2fp import fp2ptl
            from desimeter.transform.pos2ptl import ptl2flat
            X, Y = np.zeros(n), np.zeros(n)
            for p in set(m["PETAL_LOC"][k]):
                i = m["PETAL_LOC"][k] == p
                X[i], Y[i], _ = fp2ptl(p, x1[i], y1[i])
            X, Y = [np.asarray(a) for a in ptl2flat(X, Y)]
            flags, err = np.zeros(n, int), rs.uniform(.003, .0199, n)
            if c["bad"]:
                flags[rs.rand(n) < .1] = 4
                err[rs.rand(n) < .1] = .0301
                mut = (flags > 0) | (err > .02)
                X, Y = X + np.where(mut, rs.choice([-.06, .06], n), 0.), Y + np.where(mut, rs.choice([-.03, .03], n), 0.)
            sfx = "_STATIC" if c["seed"] % 2 else ""
            for f, q in enumerate(split):
                names.append("c%d.csv" % f)
                Table({"POS_ID": m["DEVICE_ID"][k][q], "OFFSET_X" + sfx: X[q], "OFFSET_Y" + sfx: Y[q], "FLAGS": flags[q], "FIT_ERROR_STATIC": err[q]}).write(names[-1])
            if c["patch"]:
                args += ["--output-metrology-patch", "patch.csv"]
        rc, o = cli.run("desi_fit_fvc2fp_using_" + ("theta_centers" if c["how"] == "centers" else "posparams"), ["-i"] + names + ["missing.csv"] + args)
        ctx.expect(rc == 0, "status {}", rc)
        fit = read_camera("out.json")
        if c["how"] == "posparams" and c["patch"]:
            ctx.label("patch")
            got = read("patch.csv")
            ref = read(data.path("fp-metrology-patch.csv"))
            ctx.expect(len(got) == len(ref) and all(g["LOCATION"] == r["LOCATION"] for g, r in zip(got, ref)), "rows of the patch")
            a, b = np.array([[float(r["X_FP"]), float(r["Y_FP"])] for r in ref]).T
            a, b = tx.forward(fit, *tx.inverse(t0, a, b))
            ctx.close([[float(g["X_FP"]), float(g["Y_FP"])] for g in got], np.array([a, b]).T, 2e-3, "patched positions")
    ctx.label(c["how"])
    X, Y = tx.forward(fit, u, v)
    sel = ~out & ~mut
    ctx.close(np.hypot(X - x2, Y - y2)[sel], 0., 2e-3, "distance from metrology [mm]")


# ---------------------------------------------------------------- moving positioners
@sub(P, lambda: fixed(seed=gen.seeds(), n=st.sampled_from([250, 150, 500]), nlist=gen.count(1, 12), nmove=gen.count(0, 12), nb=st.integers(1, 3), na=st.integers(1, 3), shift=st.booleans(), opts=st.booleans(), noise=st.sampled_from([0., .01])), 80, 800, "a moved positioner is reported", shards=4)
def moved(c, ctx):
    """the positioners that moved by the given amount between two sets of images are reported where they are, those close to their centre excepted"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    t0 = default_camera()
    k = rs.permutation(positioners())[:c["n"]]
    n = len(k)
    r, a = 5.5 * np.sqrt(rs.rand(n)), rs.uniform(0, 2 * np.pi, n)
    x, y = m["X_FP"][k] + r * np.cos(a), m["Y_FP"][k] + r * np.sin(a)
    o = dict(lo=.05, hi=.5, center=3., radius=7.)
    if c["opts"]:
        o = dict(lo=float(rs.choice([.05, .1])), hi=float(rs.choice([.3, .5, 1.])), center=float(rs.choice([0., 1., 4.])), radius=float(rs.choice([5., 7.])))
    # spots closer together than the matching can resolve are left out
    d = np.hypot(x[:, None] - x, y[:, None] - y) + 1e3 * np.eye(n)
    keep = d.min(1) > 3.
    k, x, y = k[keep], x[keep], y[keep]
    n = len(k)
    b = rs.permutation(n)
    moving = np.zeros(n, bool)
    # few enough for the adjustment of the whole image not to follow them
    nm = min(c["nmove"], n // 30)
    moving[b[:nm]] = True
    step = np.where(moving, rs.uniform(.08, .6, n), 0.)
    step[np.abs(step - o["lo"]) < .03] += .06
    step[np.abs(step - o["hi"]) < .03] += .06
    a = rs.uniform(0, 2 * np.pi, n)
    x0, y0 = x - step * np.cos(a), y - step * np.sin(a)
    listed = np.unique(np.r_[b[:nm][:c["nlist"]], rs.permutation(n)[:c["nlist"]]])
    ids = [str(q) for q in m["DEVICE_ID"][k][listed]]
    ex, ey = m["X_FP"][k], m["Y_FP"][k]
    with scratch():
        files = {}
        for name, X, Y, nn in (("before", x0, y0, c["nb"]), ("after", x, y, c["na"])):
            files[name] = []
            for f in range(nn):
                u, v = tx.inverse(t0, X, Y)
                u, v = u + rs.normal(0, 1, n) * c["noise"], v + rs.normal(0, 1, n) * c["noise"]
                if c["shift"] and (f or name == "before"):
                    th, dx = rs.uniform(-2e-4, 2e-4), rs.uniform(-1, 1, 2)
                    u, v = u - th * (v - 3000) + dx[0], v + th * (u - 3000) + dx[1]
                p = rs.permutation(n)
                fn = "%s-%d.csv" % (name, f)
                Table(dict(XPIX=u[p], YPIX=v[p], COUNTS=np.full(n, 1e4))).write(fn)
                files[name].append(fn)
        args = ["--before-moves"] + files["before"] + ["--after-moves"] + files["after"] + ["-p", ",".join(ids), "-o", "out.csv"]
        if c["opts"]:
            args += ["--min-move-mm", o["lo"], "--max-move-mm", o["hi"], "--min-dist-from-center-mm", o["center"], "--max-match-radius-mm", o["radius"]]
        rc, out = cli.run("detect_and_match_moving_positioners", args)
        ctx.expect(rc == 0, "status {}", rc)
        got = read("out.csv") if os.path.exists("out.csv") else []
    # reference: every spot seen to move goes to the nearest listed positioner, the nearest spot winning
    seen = np.flatnonzero((step > o["lo"]) & (step < o["hi"]))
    dd = np.hypot(x[seen][:, None] - ex[listed], y[seen][:, None] - ey[listed]) if len(seen) else np.zeros((0, len(listed)))
    want, close = {}, False
    for j in range(len(listed)):
        near = [i for i in range(len(seen)) if dd[i].argmin() == j]
        if near:
            i = min(near, key=lambda q: dd[q, j])
            close |= abs(dd[i, j] - o["radius"]) < .05 or abs(dd[i, j] - o["center"]) < .05
            if dd[i, j] < o["radius"] and dd[i, j] > o["center"]:
                want[ids[j]] = seen[i]
    if close:
        return ctx.label("near a limit")
    ctx.nontrivial(len(want) > 0)
    ctx.expect(sorted(g["DEVICE_ID"] for g in got) == sorted(want), "reported {}, moved {}", sorted(g["DEVICE_ID"] for g in got), sorted(want))
    for g in got:
        i = want[g["DEVICE_ID"]]
        tol = .01 + .1 * c["noise"] + (.03 if c["shift"] else 0.)
        j = ids.index(g["DEVICE_ID"])
        ctx.close([float(g["X_FP"]), float(g["Y_FP"])], [x[i], y[i]], tol, "position")
        ctx.close([float(g["X_FP_METRO"]), float(g["Y_FP_METRO"])], [ex[listed[j]], ey[listed[j]]], 1e-9, "centre")
        ctx.close(tx.forward(t0, float(g["XPIX"]), float(g["YPIX"])), [float(g["X_FP"]), float(g["Y_FP"])], 1e-3, "pixel and position")
        ctx.expect(int(g["FLAGS"]) == 4 and int(g["LOCATION"]) == m["LOCATION"][k][listed[j]], "flags {} location {}", g["FLAGS"], g["LOCATION"])
        fx, fy = float(g["X_FP"]), float(g["Y_FP"])
        from desimeter.transform.ptl2fp import fp2ptl
        from desimeter.transform.xy2qs import qs2xy
        ctx.close([float(np.ravel(v)[0]) for v in fp2ptl(int(g["PETAL_LOC"]), np.array([fx]), np.array([fy]))[:2]], [float(g["PTL_X"]), float(g["PTL_Y"])], 1e-6, "petal coordinates")
        ctx.close(qs2xy(float(g["Q"]), float(g["S"])), [fx, fy], .01, "Q and S")


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(1, 40), how=st.sampled_from(["all", "ids", "table"])), 150, 1500, "several positioners", shards=2)
def distance_from_center(c, ctx):
    """the distance printed for each positioner is that between its measured position and its centre"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    k = rs.permutation(positioners())[:c["n"]]
    r, a = rs.uniform(.01, 7., len(k)), rs.uniform(0, 2 * np.pi, len(k))
    x, y, loc = m["X_FP"][k] + r * np.cos(a), m["Y_FP"][k] + r * np.sin(a), m["LOCATION"][k]
    x, y, loc = np.r_[x, rs.uniform(-300, 300, 3)], np.r_[y, rs.uniform(-300, 300, 3)], np.r_[loc, [-1] * 3]
    o = rs.permutation(len(x))
    ids = [str(q) for q in m["DEVICE_ID"][k]]
    ask = ids + ["M99999"] if rs.rand() < .5 else ids[:1 + len(ids) // 2] + ["M99999"]
    ctx.nontrivial(len(k) > 1)
    with scratch():
        Table(dict(X_FP=x[o], Y_FP=y[o], LOCATION=loc[o])).write("in.csv")
        Table(dict(DEVICE_ID=ask)).write("ids.csv")
        rc, out = cli.run("compute_distance_from_center", ["-i", "in.csv"] + dict(all=[], ids=["-p", ",".join(ask)], table=["--other-table-with-device-ids", "ids.csv"])[c["how"]])
    ctx.expect(rc == 0, "status {}", rc)
    got = {a: float(b) for a, b in re.findall(r"^(\S+) dist= (\S+) mm$", out, re.M)}
    want = {p: d for p, d in zip(ids, r) if c["how"] == "all" or p in ask}
    if c["how"] != "all":
        want["M99999"] = -1.
    ctx.expect(sorted(got) == sorted(want), "positioners {}", sorted(got))
    ctx.close([got[p] for p in sorted(got)], [want[p] for p in sorted(got)], 6e-4, "distance")
    v = np.array(list(want.values()))
    for text, num in [("number of matched ", np.sum(v > 0)), ("number of unmatched ", np.sum(v < 0))] + [("number with dist<%dmm " % q, np.sum((v > 0) & (v < q))) for q in (3, 4, 5, 6)]:
        g = re.search(re.escape(text) + r" *= (\d+)", out)
        ctx.expect(g and int(g.group(1)) == num, "{}: {}", text, out[-400:])


# ---------------------------------------------------------------- options of the calibration command
@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(0, 6), junk=st.booleans(), glob=st.booleans(), opts=st.booleans()), 100, 1000, "several files and options", shards=2)
def calibration_command(c, ctx):
    """every move table is fitted once, under its positioner and with the options given; other files are left alone"""
    import inspect
    import desimeter.posparams.fithandler as fh
    rs = np.random.RandomState(c["seed"] % 2**32)
    calls = []
    sig = inspect.signature(fh.run_best_fits)

    def record(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return calls[-1]["posid"] + ": recorded"
    ids = ["M%05d" % q for q in rs.permutation(90000)[:c["n"]]]
    want = dict(period_days=1000000, data_window=1000000, static_quantile=.05, log_note_selection=None, force_recent_rehome=False, outlier_rejection=False)
    args = []
    if c["opts"]:
        want.update(period_days=int(rs.randint(1, 99)), data_window=int(rs.randint(10, 999)), static_quantile=round(rs.uniform(.01, .9), 3), log_note_selection="arc & x=1", force_recent_rehome=bool(rs.randint(2)), outlier_rejection=bool(rs.randint(2)))
        args = ["-dw", want["data_window"], "-pd", want["period_days"], "-sq", want["static_quantile"], "--log-note-selection", want["log_note_selection"]]
        args += ["--force-recent-rehome"] * want["force_recent_rehome"] + ["--outlier-rejection"] * want["outlier_rejection"]
    ctx.nontrivial(c["n"] > 1 and c["opts"])
    with scratch() as d:
        files = []
        for i, p in enumerate(ids):
            files.append(os.path.join(d, p + ("" if i % 2 else "-moves") + ".csv"))
        junk = [os.path.join(d, q) for q in ("summary.csv", "M123.csv", "12345M.csv", "M01234.txt", "MM1234.csv")] if c["junk"] else []
        for f in files + junk:
            open(f, "w").close()
        given = files + junk
        given = [given[q] for q in rs.permutation(len(given))] + [os.path.join(d, "M77777.csv")]
        if c["glob"]:
            given = [os.path.join(d, "*.csv"), os.path.join(d, "M*.txt")]
        with mock.patch.object(fh, "run_best_fits", record), mock.patch("multiprocessing.Pool"):
            rc, out = cli.run("fit_posparams", ["-i"] + given + ["-o", os.path.join(d, "sub", "out"), "-np", 1] + args)
        ctx.expect(rc == 0 and os.path.isdir(os.path.join(d, "sub", "out")), "status {}", rc)
        ctx.expect(sorted(q["posid"] for q in calls) == sorted(ids), "fitted {} of {}", [q["posid"] for q in calls], ids)
        for q in calls:
            f = files[ids.index(q["posid"])]
            ctx.expect(os.path.realpath(q["path"]) == os.path.realpath(f), "{} fitted with {}", q["posid"], q["path"])
            ctx.expect(q["savedir"] == os.path.join(d, "sub", "out") and q["posid"] + ": recorded" in out, "output directory {}", q["savedir"])
            for k, v in want.items():
                ctx.expect(q[k] == v and type(q[k]) is type(v), "{} is {!r} instead of {!r}", k, q[k], v)


# ---------------------------------------------------------------- guide stars
@sub(P, lambda: fixed(seed=gen.seeds(), ra=uni(0., 360.), dec=uni(-25., 75.), ha=uni(-40., 40.), off=uni(0., 60.), hexrot=mix(-400., 400., 0.), adc1=uni(0., 360.), adc2=uni(0., 360.), turn=uni(-.2, .2), hdu=st.integers(0, 1), fmt=st.sampled_from(["csv", "fits"]), key=st.sampled_from(["MJD-OBS", "TCSMJD", "both"]), column=st.booleans(), mkdir=st.booleans(), mismatch=st.booleans()), 64, 700, "pointing offset", shards=8)
def guide_star_model(c, ctx):
    """the field model written for a guide star catalogue puts the stars back on the sky, for the pointing, time and instrument state of the header"""
    import fitsio
    from astropy.table import Table
    from desimeter.fieldmodel import FieldModel
    from desimeter.time import mjd2lst
    from desimeter.transform.gfa2fp import gfa2fp
    from vf import sky
    rs = np.random.RandomState(c["seed"] % 2**32)
    true = FieldModel()
    true.adc1, true.adc2 = round(c["adc1"], 4), round(c["adc2"], 4)
    hexrot = round(c["hexrot"], 2)
    true.hexrot_deg = hexrot / 3600.
    # a time at which the target is at that hour angle
    mjd = 59000. + rs.randint(0, 600)
    for k in range(3):
        mjd += ((c["ra"] + c["ha"] - mjd2lst(mjd) + 180.) % 360. - 180.) / 360.98565
    true.mjd, true.lst = mjd, mjd2lst(mjd)
    true.ra, true.dec = c["ra"], c["dec"]
    true.fieldrot_zp_deg = c["turn"]
    m = data.metro_np()
    P_, U, V, X, Y = [], [], [], [], []
    for p in sorted({int(q) for q in m["PETAL_LOC"][m["DEVICE_TYPE"] == "GFA"]}):
        n = rs.randint(1, 6)
        u, v = rs.uniform(20, 2027, n), rs.uniform(20, 1031, n)
        x, y = gfa2fp(p, u, v)
        P_.append(np.full(n, p)), U.append(u), V.append(v), X.append(x), Y.append(y)
    P_, U, V, X, Y = [np.concatenate(a) for a in (P_, U, V, X, Y)]
    ra, dec = true.fp2radec(X, Y)
    off = np.where((np.arange(len(U)) % 7 == 3) & c["mismatch"], 3., .5)        # distance from the catalogued star [arcsec]
    a = rs.uniform(0, 2 * np.pi, len(U))
    wrong = off > 2
    t = Table(dict(petal_loc=P_, xcentroid=U + 60. * wrong, ycentroid=V, ra_gaia=ra, dec_gaia=dec, ra=ra + off * np.cos(a) / 3600. / np.cos(dec * D), dec=dec + off * np.sin(a) / 3600.))
    if c["column"]:
        t["mjd_obs"] = mjd
    ph = rs.uniform(0, 2 * np.pi)
    ra0, dec0 = c["ra"] + c["off"] / 3600. * np.cos(ph) / np.cos(c["dec"] * D), c["dec"] + c["off"] / 3600. * np.sin(ph)
    h = [dict(name="TARGTRA", value=ra0), dict(name="TARGTDEC", value=dec0), dict(name="EXPID", value=int(rs.randint(1, 99999))), dict(name="ADC1PHI", value=true.adc1), dict(name="ADC2PHI", value=true.adc2), dict(name="FOCUS", value="1174.3,-297.1,305.4,-11.2,24.5,%.2f" % hexrot)]
    for q in ("MJD-OBS", "TCSMJD"):
        if c["key"] in (q, "both"):
            h.append(dict(name=q, value=mjd))
    ctx.nontrivial(c["off"] > 1)
    with scratch():
        t.write("cat." + c["fmt"])
        with fitsio.FITS("f.fits", "rw") as f:
            f.write(np.zeros((2, 2)), header=h if c["hdu"] == 0 else None)
            f.write(np.zeros((2, 2)), header=h if c["hdu"] == 1 else None)
        out = "a/b/fm.json" if c["mkdir"] else "fm.json"
        rc, o = cli.run("desi_fit_guide_star_coordinates", ["-i", "cat." + c["fmt"], "-o", out, "--fits-header", "f.fits"] + ["--make-directory"] * c["mkdir"])
        ctx.expect(rc == 0, "status {}", rc)
        with open(out) as f:
            fm = FieldModel.fromjson(f.read())
    ctx.expect(fm.expid == h[2]["value"] and fm.nstars == np.sum(~wrong), "exposure {} with {} stars of {}", fm.expid, fm.nstars, np.sum(~wrong))
    ctx.close([fm.mjd, fm.lst, fm.adc1, fm.adc2, fm.hexrot_deg], [mjd, mjd2lst(mjd), true.adc1, true.adc2, hexrot / 3600.], 1e-6, "mjd, lst, ADC angles, hexapod rotation")
    r2, d2 = fm.fp2radec(X, Y)
    ctx.close(sky.sep(ra, dec, r2, d2), 0., .3, "distance of stars to their catalogue position [arcsec]")


# ---------------------------------------------------------------- petal alignments
@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(1, 10), name=st.sampled_from(["al.yaml", "dir/petal.yaml", "al.csv"])), 100, 600, "several petals", shards=1)
def alignments(c, ctx):
    """petal alignments read from the database are written so that the transforms use them"""
    import types, yaml
    rs = np.random.RandomState(c["seed"] % 2**32)
    pet = [int(p) for p in rs.permutation(10)[:c["n"]]]
    keys = ["petal_offset_x", "petal_offset_y", "petal_offset_z", "petal_rot_1", "petal_rot_2", "petal_rot_3"]
    rows = [(str(p), dict({k: float(rs.normal()) for k in keys}, other=1)) for p in pet]
    ver = [(int(v),) for v in rs.randint(1, 400, rs.randint(1, 5))]
    asked = []

    class Cursor:
        def execute(self, q):
            asked.append(q)

        def fetchall(self):
            return ver if "version from snapshots" in asked[-1].replace("  ", " ") or len(asked) == 1 else rows
    conn = types.SimpleNamespace(cursor=Cursor)
    fake = types.ModuleType("psycopg2")
    fake.connect = lambda **kw: conn
    ctx.nontrivial(c["n"] > 1)
    with scratch():
        os.mkdir("dir")
        with mock.patch.dict(sys.modules, psycopg2=fake):
            rc, out = cli.run("load_petal_alignments_from_db", ["-o", c["name"]])
        if not c["name"].endswith(".yaml"):
            ctx.expect(rc == 12 and not os.path.exists(c["name"]), "status {} for a name that is not yaml", rc)
            return
        ctx.expect(rc == 0, "status {}", rc)
        got = yaml.safe_load(open(c["name"]))
    ctx.expect(any("'%d'" % max(v[0] for v in ver) in q or "%d" % max(v[0] for v in ver) in q for q in asked[1:]), "the query does not select the latest snapshot {}: {}", max(ver), asked[1:])
    ctx.expect(sorted(got) == sorted(pet), "petals {}", sorted(got))
    for p, r in rows:
        ctx.expect(got[int(p)] == {a: r[b] for a, b in zip(["Tx", "Ty", "Tz", "alpha", "beta", "gamma"], keys)}, "alignment of petal {}: {}", p, got[int(p)])


# ---------------------------------------------------------------- scripts for a computing centre
@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(1, 14), per=st.sampled_from([3, 1, 2, 500]), options=st.booleans(), existing=st.booleans()), 150, 1500, "several images and scripts", shards=2)
def job_scripts(c, ctx):
    """write_fvc_image_processing_scripts: running all scripts processes every exposure of every readable image once, whatever was done before; dates and names are listed for all"""
    import subprocess
    from astropy.io import fits
    rs = np.random.RandomState(c["seed"] % 2**32)
    with scratch():
        here = os.getcwd()
        lines, want, tables, images = [], {}, [], []
        for i in range(c["n"]):
            kind = str(rs.choice(["plain", "plain", "ext", "missing", "broken", "primary", "nodate", "gz", "fz"]))
            base = "fvc-%08d" % rs.randint(1, 90000) + "x%d" % i + str(rs.choice(["", ".1"]))
            fn = os.path.join(here, base + {"gz": ".fits.gz", "fz": ".fits.fz"}.get(kind, ".fits"))
            if kind == "primary":
                fn = os.path.join(here, "primary-%d.fits" % i)
            lines.append(fn)
            if kind == "missing":
                continue
            if kind == "broken":
                with open(fn, "w") as f:
                    f.write("this is no image")
                continue
            day = lambda: "2020-%02d-%02dT%02d:11:12" % (rs.randint(1, 13), rs.randint(1, 28), rs.randint(24))
            hdus, found = [fits.PrimaryHDU()], []
            if kind in ("ext", "gz"):
                for j in range(int(rs.randint(1, 4))):
                    name, d = str(rs.choice(["F%04d" % j, "F%04d" % j, "T%04d" % j, "F0%d" % rs.randint(1, 999)])), day()
                    h = fits.ImageHDU(np.zeros((2, 2)), name=name)
                    h.header[str(rs.choice(["DATE-OBS", "DATE"]))] = d + ".345"
                    hdus.append(h)
                    if name[0] == "F":
                        found.append((name, d))
                if rs.rand() < .3:
                    hdus.append(fits.ImageHDU(np.zeros((2, 2))))
                hdus[0].header["DATE"] = "1999-01-01"
            elif kind != "nodate":
                d = day()
                hdus[0].header["DATE-OBS"] = d + str(rs.choice(["", ".5"]))
                if rs.rand() < .5:
                    hdus[0].header["DATE"] = "1999-01-01"
                found = [("0", d)]
            fits.HDUList(hdus).writeto(fn)
            os.chmod(fn, 0o644)
            images.append(fn)
            if kind != "primary":
                for name, d in found:
                    out = "%s-%s-%s" % (base.replace(".", "-"), name, d)
                    tables.append((d, os.path.join(here, "out", out + ".csv")))
                    want[out] = (fn, name)
        with open("list.txt", "w") as f:
            f.write("".join(v + "\n" for v in lines))
        os.makedirs("out/transfo")
        done = set()
        if c["existing"]:
            for o in want:
                r = rs.rand()
                if r < .4:
                    open("out/%s.csv" % o, "w").close()
                if .2 < r < .6:
                    open("out/transfo/%s.json" % o, "w").close()
                if .2 < r < .4:
                    done.add(o)
        extra = "--use-active-fibers-fiducials --sequential" if c["options"] else None
        rc, out = cli.run("write_fvc_image_processing_scripts", ["-i", "list.txt", "-j", os.path.join(here, "jobs"), "-o", os.path.join(here, "out"), "--ntasks-per-job", str(c["per"])] + (["--options=" + extra] if extra else []))
        ctx.expect(rc == 0, "status {}", rc)
        ctx.nontrivial(len(want) > 1)
        jobs = sorted(v for v in os.listdir("jobs") if v.endswith(".sh"))
        ctx.label("several scripts", len(jobs) > 1)
        for j in jobs:
            with open(os.path.join("jobs", j)) as f:
                asked = [v.split()[2] for v in f if v.startswith("desi_fvc_proc -i ")]
            ctx.expect(j == jobs[-1] or len(asked) >= c["per"], "{} has {} tasks only of {}", j, len(asked), c["per"])
            ctx.expect(not asked or sum(v != asked[-1] for v in asked) < c["per"], "{} has {} tasks instead of {}", j, len(asked), c["per"])
            ctx.expect(os.access(os.path.join("jobs", j), os.X_OK) and os.stat(os.path.join("jobs", j)).st_mode & 0o111, "{} cannot be executed", j)
        for fn in images:
            ctx.expect(os.stat(fn).st_mode & 0o777 == 0o644, "permissions of {} changed", fn)
        t = read(os.path.join("out", "fvc-desimeter-and-dates.csv")) if tables else []
        ctx.expect([(g["DATE"], g["FILE"]) for g in t] == tables, "list of dates and tables {}", [(g["DATE"], g["FILE"]) for g in t])
        # a stand-in for the processing records what it is asked to do
        os.mkdir("bin")
        with open("bin/desi_fvc_proc", "w") as f:
            f.write('#!/bin/bash\necho "$@" >> %s\n' % os.path.join(here, "calls"))
        os.chmod("bin/desi_fvc_proc", 0o755)
        env = dict(os.environ, PATH=os.path.join(here, "bin") + ":" + os.environ["PATH"])
        pending = [o for o in want if o not in done]
        first = min(1, len(jobs)) if c["seed"] % 2 else len(jobs)
        for j in jobs[:first] + jobs:                 # the second time everything is done
            subprocess.run(["./jobs/" + j], env=env, stdout=subprocess.DEVNULL, check=True)
        calls = open("calls").read().splitlines() if os.path.exists("calls") else []
    expected = ["-i %s -o %s --output-transform %s" % (want[o][0], os.path.join(here, "out", o + ".csv"), os.path.join(here, "out/transfo", o + ".json")) + (" --ext " + want[o][1] if want[o][1] != "0" else "") + (" " + extra if extra else "") for o in pending]
    ctx.expect(sorted(calls) == sorted(expected), "processed {} instead of {}", calls, expected)


# ---------------------------------------------------------------- ambiguous groups
@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(2, 40), petal=st.booleans(), calib=st.booleans(), spread=st.sampled_from([1., .5, 1.2])), 60, 600, "several positioners, one of them with several possible spots", shards=2, floor=.1)
def ambiguous_groups(c, ctx):
    """desi_print_ambigous_groups lists the possible spots of each positioner (of the given petal) from the spots within reach of one"""
    from astropy.table import Table
    from desimeter.match_positioners import match_positioners, print_groupings
    rs = np.random.RandomState(c["seed"] % 2**32)
    m = data.metro_np()
    p = positioners()
    k = p[rs.randint(len(p))]
    k = p[np.argsort(np.hypot(m["X_FP"][p] - m["X_FP"][k], m["Y_FP"][p] - m["Y_FP"][k]))[:c["n"]]]
    n = len(k)
    r, a = 6. * c["spread"] * np.sqrt(rs.rand(n)), rs.uniform(0, 2 * np.pi, n)
    x, y = m["X_FP"][k] + r * np.cos(a), m["Y_FP"][k] + r * np.sin(a)
    lens = rs.uniform(2.8, 3.3, (2, n))
    fvc = dict(DEVICE_ID=m["DEVICE_ID"][k], X_FP=x, Y_FP=y, PINHOLE_ID=np.zeros(n, int), COUNTS=rs.uniform(50, 60, n) * np.where(rs.rand(n) < .05, 1e3, 1e4))
    petal = int(m["PETAL_LOC"][k[0]])
    with scratch():
        Table(fvc).write("fvc.csv")
        args = ["fvc.csv"] + (["--petal", str(petal)] if c["petal"] else [])
        if c["calib"]:
            Table(dict(POS_ID=m["DEVICE_ID"][k], LENGTH_R1=lens[0], LENGTH_R2=lens[1])).write("calib.csv")
            args += ["--calib", "calib.csv"]
        rc, out = cli.run("desi_print_ambigous_groups", args)
        ctx.expect(rc == 0, "status {}", rc)
        t = Table.read("fvc.csv")
    q = p[m["PETAL_LOC"][p] == petal] if c["petal"] else p
    metr = Table({v: m[v][q] for v in ("DEVICE_ID", "X_FP", "Y_FP", "PINHOLE_ID", "PETAL_LOC")})
    if not c["calib"]:
        lens = np.full((2, n), 3.)
    calib = Table(dict(POS_ID=m["DEVICE_ID"][k], LENGTH_R1=lens[0].astype("f4" if not c["calib"] else "f8"), LENGTH_R2=lens[1].astype("f4" if not c["calib"] else "f8")))
    if not c["calib"]:
        calib.sort("POS_ID")
    near = [i for i in range(n) if not c["petal"] or np.hypot(metr["X_FP"] - x[i], metr["Y_FP"] - y[i]).min() <= (lens[0] + lens[1]).max()]
    if not near:
        return
    ind, _, _, alts = match_positioners(t[near], metr, calib, return_alternatives=True)
    f = io.StringIO()
    if not np.any(np.asarray(ind) >= 0):
        return
    print_groupings(t[near], metr, ind, alts, file=f, calib=calib)
    rows = lambda text: sorted(l for l in text.splitlines() if re.match(r"(M\d+|DEVICE_ID) ", l))
    ctx.nontrivial(any(int(l.split()[-1]) > 1 for l in rows(f.getvalue())[1:]))
    got, want = rows(out), rows(f.getvalue())
    same = len(got) == len(want) and all(a.split()[0] == b.split()[0] and a.split()[-1] == b.split()[-1] for a, b in zip(got, want))
    ctx.expect(same, "listed {} instead of {}", got, want)
    for a, b in zip(got[1:] if got[0][0] == "D" else got, want[1:] if want[0][0] == "D" else want):
        ctx.close([float(v) for v in a.split()[1:]], [float(v) for v in b.split()[1:]], 1e-4, "line of " + a.split()[0])
