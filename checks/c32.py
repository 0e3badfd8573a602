"""C32 assembly of the metrology tables"""
import contextlib, csv, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, cli, data
from vf.gen import fixed

P = "C32"
COLS = ["PETAL_ID", "PETAL_LOC", "DEVICE_LOC", "DEVICE_TYPE", "PINHOLE_ID", "X_PTL", "Y_PTL", "Z_PTL", "X_MNT", "Y_MNT", "Z_MNT", "PTL_SOURCE", "PROJ_DISTANCE", "PROVENANCE", "NOTES"]
FP = ["X_FP", "Y_FP", "Z_FP", "LOCATION"]
PID = {2: 7, 3: 3, 4: 0, 5: 1, 6: 2, 7: 8, 8: 4, 9: 9, 10: 5, 11: 6}


@contextlib.contextmanager
def installed(root):
    """the tools find their instrument data in root/data"""
    import importlib.resources, pathlib
    import pkg_resources
    old = pkg_resources.resource_filename, importlib.resources.files, os.environ.get("DESIMETER_DATA")
    pkg_resources.resource_filename = lambda package, name: os.path.join(root, name) if package == "desimeter" else old[0](package, name)
    importlib.resources.files = lambda *a: pathlib.Path(root) if a == ("desimeter",) else old[1](*a)
    os.environ["DESIMETER_DATA"] = os.path.join(root, "data")
    try:
        yield
    finally:
        pkg_resources.resource_filename, importlib.resources.files = old[:2]
        if old[2] is None:
            os.environ.pop("DESIMETER_DATA", None)
        else:
            os.environ["DESIMETER_DATA"] = old[2]


def scratch(tmp):
    """data directory with the shipped files that do not get written"""
    d = os.path.join(tmp, "data")
    os.makedirs(d)
    for n in ("focal_surface_lookup.csv", "petal-alignments.yaml", "fp-metrology.csv"):
        os.symlink(data.path(n), os.path.join(d, n))
    return d


def write(fn, rows, cols):
    if os.path.islink(fn):
        os.remove(fn)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(cols)
        w.writerows([["" if r.get(k) is None else repr(float(r[k])) if isinstance(r[k], float) else r[k] for k in cols] for r in rows])


def read(fn):
    with open(fn, newline="") as f:
        return list(csv.DictReader(f))


def rot(p):
    a = data.petals()[p]
    ca, sa, cb, sb, cg, sg = (f(a[k]) for k in ("alpha", "beta", "gamma") for f in (np.cos, np.sin))
    r = np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]]) @ np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]]) @ np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    return r, np.array([a["Tx"], a["Ty"], a["Tz"]])


def to_fp(p, xyz):
    r, t = rot(p)
    return [float(v) for v in r @ np.array(xyz) + t]


def to_ptl(p, xyz):
    r, t = rot(p)
    return [float(v) for v in r.T @ (np.array(xyz) - t)]


def measured(rs, petal, loc, ndev):
    """pinholes of a petal as measured"""
    rows = []
    devs = sorted(int(v) for v in 1 + rs.permutation(542)[:ndev])
    for k, d in enumerate(devs):
        t = ["POS", "FIF", "ETC", "GIF"][k] if k < 4 else str(rs.choice(["POS", "POS", "FIF", "GIF", "ETC", "GIF-T"]))
        n = 4 if t in ("FIF", "GIF", "GIF-T") else 1
        a, q = rs.uniform(.02, .6), rs.uniform(20, 410)
        for i in range(n):
            x, y = q * np.cos(a) + rs.uniform(-1, 1), q * np.sin(a) + rs.uniform(-1, 1)
            if rs.rand() < .05:
                x, y = rs.uniform(-.6, .6, 2)                         # bad data
            pin = str(i + 1) if t in ("FIF", "GIF") else str(rs.choice(["", "--", "M%d" % (i + 1)])) if t == "GIF-T" else None
            rows.append(dict(PETAL_ID=petal, PETAL_LOC=loc, DEVICE_LOC=d, DEVICE_TYPE=t, PINHOLE_ID=pin, X_PTL=float(x), Y_PTL=float(y), Z_PTL=float(rs.uniform(-15, 0)),
                             X_MNT=float(x) + .1, Y_MNT=float(y), Z_MNT=-86.5, PTL_SOURCE="Measured", PROJ_DISTANCE=86.5, PROVENANCE="DESI-%d" % rs.randint(1000, 9999), NOTES="n%d" % rs.randint(10)))
            if t in ("FIF", "GIF") and rs.rand() < .05:
                rows[-1].update(X_PTL=None, Y_PTL=None, Z_PTL=None)   # not measured
    return rows


def usable(r):
    return r["X_PTL"] is not None and np.hypot(r["X_PTL"], r["Y_PTL"]) > 1


def gfa(rs, petal, loc, pins="M"):
    return [dict(PETAL_ID=petal, PETAL_LOC=loc, DEVICE_LOC=None, DEVICE_TYPE="GFA", PINHOLE_ID="%s%d" % (pins, i + 1), X_PTL=float(335 + rs.uniform(-15, 15)), Y_PTL=float(217 + rs.uniform(-15, 15)), Z_PTL=float(rs.uniform(-21, -19)),
                 X_MNT=None, Y_MNT=None, Z_MNT=None, PTL_SOURCE="Calculated", PROJ_DISTANCE=None, PROVENANCE="DESI-4825", NOTES="GFA %02d" % loc) for i in range(4)]


def pin(v):
    v = str(v or "")
    return int(v[1]) if v[:1] == "M" else int(v) if v.isdigit() else 0


def compare(ctx, got, want, what, ids=True):
    """rows of a written table against rows of the model, as sets"""
    ctx.expect(len(got) == len(want), "{}: {} rows instead of {}", what, len(got), len(want))
    def f(v):
        return -1 if v in (None, "") else int(float(v))
    def key(r):
        return f(r["PETAL_LOC"]), f(r["DEVICE_LOC"]), str(r["DEVICE_TYPE"]), f(r["PINHOLE_ID"]), round(float(r["X_FP"]), 4), round(float(r["Y_FP"]), 4)
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        ka, kb = key(a), key(b)
        ctx.expect(ka[:4] == kb[:4], "{}: petal, device, type and pinhole {} instead of {}", what, ka[:4], kb[:4])
        for k in ("X_PTL", "Y_PTL", "Z_PTL", "X_FP", "Y_FP", "Z_FP"):
            ctx.expect(abs(float(a[k]) - b[k]) < 1e-6, "{}: {} of {} is {} instead of {}", what, k, ka[:4], a[k], b[k])
        ctx.expect(f(a["LOCATION"]) == f(b["LOCATION"]), "{}: location of {} is {} instead of {}", what, ka[:4], a["LOCATION"], b["LOCATION"])
        if ids:
            for k in ("DEVICE_ID", "BUS_ID", "CAN_ID", "PETAL_ID"):
                ctx.expect(str(a[k]).strip() == str(b[k]), "{}: {} of {} is {!r} instead of {!r}", what, k, ka[:4], a[k], b[k])


def patches(rs, rows, n, loc=None):
    """patch rows for known or new pinholes"""
    out = []
    fids = [r for r in rows if r["DEVICE_TYPE"] in ("FIF", "GIF", "POS", "ETC")]
    for k in range(n):
        r = dict(fids[rs.randint(len(fids))])
        if rs.rand() < .3:
            r["PINHOLE_ID"] = int(rs.randint(5, 9))                   # unknown pinhole
        else:
            r["PINHOLE_ID"] = pin(r["PINHOLE_ID"])
        r.update(X_PTL=float(rs.uniform(-400, 400)), Y_PTL=float(rs.uniform(-400, 400)), Z_PTL=0., X_FP=float(rs.uniform(-400, 400)), Y_FP=float(rs.uniform(-400, 400)), Z_FP=float(rs.uniform(-10, 0)),
                 PTL_SOURCE="interp", PROVENANCE="none", NOTES="n0", LOCATION=r["PETAL_LOC"] * 1000 + r["DEVICE_LOC"])
        out.append(r)
        if rs.rand() < .2:
            out.append(dict(r, X_FP=r["X_FP"] + 1.))                  # said twice: the last holds
    return out


def apply(rows, patch, replace):
    for p in patch:
        same = [i for i, r in enumerate(rows) if r["LOCATION"] is not None and (r["LOCATION"], r["PINHOLE_ID"]) == (p["LOCATION"], p["PINHOLE_ID"])]
        if not same:
            rows.append(dict(p))
        elif replace:
            for i in same:
                rows[i] = dict(p)


@sub(P, lambda: fixed(seed=gen.seeds(), npetal=st.sampled_from([3, 2, 4, 6]), ndev=gen.count(4, 25), patch=gen.count(0, 12), replace=st.sampled_from([True, True, False]), shipped=gen.count(0, 40)), 240, 2400, "several petals with patched pinholes", shards=2)
def assembled(c, ctx):
    """write_focal_plane_metrology: measured pinholes of the installed petals, patched, with their identifiers; a run of the shipped inputs gives the shipped table"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    if c["shipped"] == 7:
        with tempfile.TemporaryDirectory() as tmp:
            shutil.copytree(data.path(""), os.path.join(tmp, "data"))
            with installed(tmp):
                rc, text = cli.run("write_focal_plane_metrology", ["-o", os.path.join(tmp, "o.csv")])
            ctx.expect(rc == 0, "exit status {}", rc)
            want = read(data.path("fp-metrology.csv"))
            compare(ctx, read(os.path.join(tmp, "o.csv")), [dict(r, **{k: float(r[k]) for k in ("X_PTL", "Y_PTL", "Z_PTL", "X_FP", "Y_FP", "Z_FP")}) for r in want], "shipped table")
        ctx.nontrivial(True)
        ctx.label("shipped inputs")
        return
    petals = [int(v) for v in rs.permutation(sorted(PID))[:c["npetal"]]]
    rows = []
    for p in petals:
        rows += measured(rs, p, PID[p], c["ndev"])
    real = [p for p in petals if rs.rand() < .6] or petals[:1]      # petals with measured guide cameras
    for p in real:
        rows += gfa(rs, p, PID[p])
    spare = measured(rs, 0, 998, 4) + gfa(rs, 0, 998) + measured(rs, 1, 999, 4)
    for r in rows:                                                   # a device close to the tip of its petal
        if r["DEVICE_TYPE"] == "POS" and usable(r) and rs.rand() < .03:
            a, q = rs.uniform(0, 6), rs.uniform(1.5, 9.)
            r.update(X_PTL=float(q * np.cos(a)), Y_PTL=float(q * np.sin(a)))
    umt = [rows[i] for i in rs.permutation(len(rows))]
    umt = [dict(r) for r in umt] + [dict(r) for r in spare]
    if rs.rand() < .5:
        umt = [umt[i] for i in rs.permutation(len(umt))]
    good = [r for r in rows if usable(r)]
    patch = patches(rs, rows, c["patch"]) or patches(rs, rows, 1)
    tweak = []
    for p in petals:
        if rs.rand() < .6 or p == petals[0]:
            for r in gfa(rs, p, PID[p], ""):
                r.update(X_FP=float(rs.uniform(-400, 400)), Y_FP=float(rs.uniform(-400, 400)), Z_FP=r["Z_PTL"], LOCATION=None, PINHOLE_ID=int(r["PINHOLE_ID"]))
                if p in real:
                    r.update(X_PTL=float("nan"), Y_PTL=float("nan"), Z_PTL=float("nan"))
                tweak.append(r)
    # the model
    want = []
    for r in good:
        x, y, z = to_fp(r["PETAL_LOC"], [r["X_PTL"], r["Y_PTL"], r["Z_PTL"]])
        want.append(dict(r, PINHOLE_ID=pin(r["PINHOLE_ID"]), X_FP=x, Y_FP=y, Z_FP=z, LOCATION=None if r["DEVICE_LOC"] is None else r["PETAL_LOC"] * 1000 + r["DEVICE_LOC"]))
    apply(want, patch, c["replace"])
    new = {r["PETAL_LOC"] for r in tweak if np.isnan(r["X_PTL"])}
    want = [r for r in want if not (r["DEVICE_TYPE"] == "GFA" and r["PETAL_LOC"] in new)]
    for r in tweak:
        r = dict(r)
        if np.isnan(r["X_PTL"]):
            r["X_PTL"], r["Y_PTL"], z = to_ptl(r["PETAL_LOC"], [r["X_FP"], r["Y_FP"], r["Z_FP"]])
            r["Z_PTL"] = r["Z_FP"]
        want.append(r)
    count = {}
    for r in want:
        count.setdefault((r["DEVICE_TYPE"], r["PINHOLE_ID"], r["PETAL_LOC"]), []).append(r)
    single = sorted(k for k in count if len(count[k]) == 1)
    cheat = []
    for k in [single[i] for i in rs.permutation(len(single))[:rs.randint(1, 9)]]:
        r = dict(count[k][0], X_FP=float(rs.uniform(-400, 400)), Y_FP=float(rs.uniform(-400, 400)), X_PTL=0., Y_PTL=0.)
        cheat.append(r)
        count[k][0].update(X_FP=r["X_FP"], Y_FP=r["Y_FP"])
    name = {l: int(v) for l, v in zip(range(10), rs.permutation(20)[:10])}
    ids, seen = [], {}
    for l in range(10):
        devs = sorted({r["DEVICE_LOC"] for r in rows + want if r["PETAL_LOC"] == l and r["DEVICE_LOC"] is not None} | {543, 544})
        for d in devs:
            i = len(ids)
            ids.append(dict(DEVICE_ID="M%05d" % (7919 * i % 99991), DEVICE_TYPE="POS", PETAL_ID=name[l], BUS_ID=int(rs.randint(10, 23)), CAN_ID=int(rs.randint(20000)), PETAL_LOC=l, DEVICE_LOC=d))
            seen[l, d] = ids[-1]
    ids = [ids[i] for i in rs.permutation(len(ids))]
    for r in want:
        q = seen.get((r["PETAL_LOC"], r["DEVICE_LOC"])) if r["DEVICE_TYPE"] in ("POS", "FIF", "GIF") else None
        r.update(DEVICE_ID=q["DEVICE_ID"] if q else "unknown", BUS_ID=q["BUS_ID"] if q else -1, CAN_ID=q["CAN_ID"] if q else -1, PETAL_ID=name[r["PETAL_LOC"]])
    ctx.nontrivial(len(petals) > 1 and len(patch) > 1)
    ctx.label("no replacement", not c["replace"])
    ctx.label("guide cameras replaced", bool(new))
    with tempfile.TemporaryDirectory() as tmp:
        d = scratch(tmp)
        write(os.path.join(d, "UMT-DESI-5421.csv"), [dict(r, **{"": i}) for i, r in enumerate(umt)], [""] + COLS)
        write(os.path.join(d, "fp-metrology-patch.csv"), patch, COLS + FP)
        write(os.path.join(d, "fp-metrology-gfa_patch.csv"), tweak, COLS + FP)
        write(os.path.join(d, "fp-metrology-cheat-patch.csv"), cheat, COLS + FP)
        write(os.path.join(d, "desi_positioner_indexes.csv"), ids, ["DEVICE_ID", "DEVICE_TYPE", "PETAL_ID", "BUS_ID", "CAN_ID", "PETAL_LOC", "DEVICE_LOC"])
        out = os.path.join(tmp, "o.csv")
        with installed(tmp):
            rc, text = cli.run("write_focal_plane_metrology", ["-o", out] + ([] if c["replace"] else ["--no-replacement"]))
        ctx.expect(rc == 0, "exit status {}", rc)
        got = read(out)
    compare(ctx, got, want, "assembled table")


@sub(P, lambda: fixed(seed=gen.seeds(), nfile=st.sampled_from([2, 1, 3, 4, 5]), npatch=gen.count(1, 20), bylocation=st.booleans()), 300, 3000, "several files with pinholes of the patch")
def patch_updated(c, ctx):
    """update_focal_plane_metrology_patch: a pinhole found once in some files gets the median of their coordinates; everything else stays"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    rows = measured(rs, 4, 0, 12) + measured(rs, 5, 1, 12) + measured(rs, 11, 6, 5)
    patch = {}
    for r in patches(rs, rows, c["npatch"]):
        patch[r["LOCATION"], r["PINHOLE_ID"]] = r
    patch = list(patch.values())
    files, found, hits = [], {}, 0
    for k in range(c["nfile"]):
        got = []
        for r in patch:
            n = int(rs.choice([1, 1, 1, 0, 2]))
            here = [dict(r, X_FP=r["X_FP"] + rs.uniform(-.1, .1), Y_FP=r["Y_FP"] + rs.uniform(-.1, .1)) for i in range(n)]
            if n == 1:
                found.setdefault((r["LOCATION"], r["PINHOLE_ID"]), []).append(here[0])
            got += here
        keys = {(r["LOCATION"], r["PINHOLE_ID"]) for r in patch}
        for r in rows:
            l = r["PETAL_LOC"] * 1000 + r["DEVICE_LOC"]
            if (l, pin(r["PINHOLE_ID"])) not in keys and rs.rand() < .5:
                got.append(dict(r, PINHOLE_ID=pin(r["PINHOLE_ID"]), LOCATION=l, X_FP=1., Y_FP=2.))
        if not got:
            got = [dict(patch[0], LOCATION=9999, PETAL_LOC=9, DEVICE_LOC=999, PINHOLE_ID=1)]
        files.append([got[i] for i in rs.permutation(len(got))])
    ctx.nontrivial(len(files) > 1 and any(len(v) > 1 for v in found.values()))
    with tempfile.TemporaryDirectory() as tmp:
        d = scratch(tmp)
        write(os.path.join(d, "fp-metrology-patch.csv"), patch, COLS + FP)
        cols = ["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP"] if c["bylocation"] else ["X_FP", "PETAL_LOC", "PINHOLE_ID", "DEVICE_LOC", "Y_FP"]
        names = []
        for k, f in enumerate(files):
            names.append(os.path.join(tmp, "f%d.csv" % k))
            write(names[-1], f, cols)
        out = os.path.join(tmp, "o.csv")
        with installed(tmp):
            rc, text = cli.run("update_focal_plane_metrology_patch", ["-i"] + names + ["-o", out])
        ctx.expect(rc == 0, "exit status {}", rc)
        old, got = read(os.path.join(d, "fp-metrology-patch.csv")), read(out)
    ctx.expect(len(got) == len(old), "{} rows instead of {}", len(got), len(old))
    ctx.expect(list(got[0]) == list(old[0]), "columns {}", list(got[0]))
    for a, b in zip(got, old):
        k = int(b["LOCATION"]), int(b["PINHOLE_ID"])
        for n in old[0]:
            if n in ("X_FP", "Y_FP"):
                want = float(np.median([r[n] for r in found[k]])) if k in found else float(b[n])
                ctx.expect(abs(float(a[n]) - want) < 1e-9, "{} of {} is {} instead of {} ({} files)", n, k, a[n], want, len(found.get(k, [])))
            else:
                same = a[n] == b[n] or a[n] and b[n] and n not in ("PTL_SOURCE", "PROVENANCE", "NOTES", "DEVICE_TYPE") and float(a[n]) == float(b[n])
                ctx.expect(same, "{} of {} changed from {!r} to {!r}", n, k, b[n], a[n])


@sub(P, lambda: fixed(seed=gen.seeds(), npetal=st.sampled_from([2, 1, 3]), ndev=gen.count(4, 20)), 150, 1500, "several fiducials")
def fiducial_centers(c, ctx):
    """dump_fiducial_centers: mean of the pinholes of each fiducial"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    rows, want = [], {}
    for p in [int(v) for v in rs.permutation(sorted(PID))[:c["npetal"]]]:
        l, mine = PID[p], [r for r in measured(rs, p, PID[p], c["ndev"]) if usable(r)]
        for r in mine:
            r.update(LOCATION=l * 1000 + r["DEVICE_LOC"], X_FP=0., Y_FP=0., Z_FP=0., DEVICE_ID="P%d%03d" % (l, r["DEVICE_LOC"]), PINHOLE_ID=pin(r["PINHOLE_ID"]))
            if r["DEVICE_TYPE"] in ("FIF", "GIF"):
                want.setdefault((r["DEVICE_ID"], r["DEVICE_LOC"]), []).append([r["X_PTL"], r["Y_PTL"], r["Z_PTL"]])
        rows += mine
    rows = [rows[i] for i in rs.permutation(len(rows))]
    ctx.nontrivial(len(want) > 1)
    with tempfile.TemporaryDirectory() as tmp:
        write(os.path.join(scratch(tmp), "fp-metrology.csv"), rows, COLS + FP + ["DEVICE_ID"])
        with installed(tmp):
            rc, text = cli.run("dump_fiducial_centers", [])
        ctx.expect(rc == 0, "exit status {}", rc)
    lines = [l.split(",") for l in text.splitlines() if l.strip()]
    i = [k for k, l in enumerate(lines) if l[0] == "DEVICE_ID"]
    ctx.expect(len(i) == 1 and lines[i[0]] == ["DEVICE_ID", "DEVICE_LOC", "X_PTL", "Y_PTL", "Z_PTL"], "no header in {!r}", text[:200])
    got = {(l[0], int(l[1])): [float(v) for v in l[2:]] for l in lines[i[0] + 1:]}
    ctx.expect(sorted(got) == sorted(want) and len(got) == len(lines) - i[0] - 1, "fiducials {} instead of {}", sorted(got), sorted(want))
    for k in want:
        ctx.expect(np.abs(np.array(got[k]) - np.mean(want[k], axis=0)).max() < 6e-4, "center of {}: {} instead of {}", k, got[k], np.mean(want[k], axis=0))


SITE = {11: "P146", 75: "P145", 150: "P147", 239: "P144", 321: "P148", 439: "P078", 482: "P059", 496: "P002", 517: "P067", 534: "P073", 541: "P151", 542: "P150"}


@sub(P, lambda: fixed(seed=gen.seeds(), petal=st.sampled_from([0, 1]), ndev=gen.count(4, 30), patch=gen.count(0, 10), replace=st.sampled_from([True, True, False])), 160, 1600, "patched or unknown devices")
def test_petals(c, ctx):
    """write_petal0_metrology, write_petal1_metrology: the pinholes of the test petal at petal location 0, with identifiers by device location"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    petal = c["petal"]
    mine = measured(rs, petal, 998 + petal, c["ndev"])
    special = sorted(SITE) if petal == 0 else [461, 501]
    if petal == 1:
        mine = [r for r in mine if r["DEVICE_LOC"] not in special]    # guide cameras have one row
    have = {r["DEVICE_LOC"] for r in mine}
    for d in special:
        if d not in have:
            mine.append(dict(mine[0], DEVICE_LOC=d, DEVICE_TYPE="POS", PINHOLE_ID=None, X_PTL=float(rs.uniform(20, 400)), Y_PTL=float(rs.uniform(1, 100)), Z_PTL=-1.))
        for r in mine:
            if r["DEVICE_LOC"] == d and (not usable(r)):
                r.update(X_PTL=123., Y_PTL=45., Z_PTL=-2.)
    other = measured(rs, 4, 0, 6) + measured(rs, 1 - petal, 999 - petal, 5)
    umt = mine + other
    if petal == 0:
        umt += gfa(rs, 0, 998) + gfa(rs, 4, 0)
    umt = [umt[i] for i in rs.permutation(len(umt))]
    # identifiers
    ids, seen, free = [], {}, int(rs.choice(sorted({r["DEVICE_LOC"] for r in mine} - set(special)) or [0]))
    for d in sorted({r["DEVICE_LOC"] for r in mine}):
        if petal == 0 and (d == free or d not in special and rs.rand() < .1 or d in SITE and rs.rand() < .5):
            continue
        t = str(rs.choice(["POS", "POS", "FIF"]))
        if petal == 0 and d in SITE:
            t = "FIF"
        n = SITE[d] if petal == 0 and d in SITE else "P%03d" % d if t == "FIF" else "%05d" % (7000 + d + 13) if petal == 0 else "M%05d" % (7000 + d)
        ids.append(dict(DEVICE_ID=n, DEVICE_TYPE=t, PETAL_ID=petal, BUS_ID=int(rs.randint(10, 23)), CAN_ID=1, PETAL_LOC=3, DEVICE_LOC=d))
        seen[d] = ids[-1]
    if petal == 0:
        ids.append(dict(DEVICE_ID="07004", DEVICE_TYPE="POS", PETAL_ID=0, BUS_ID=10, CAN_ID=1, PETAL_LOC=0, DEVICE_LOC=600))
        for k in range(4):
            ids.append(dict(DEVICE_ID="P%03d" % (900 + k), DEVICE_TYPE="POS", PETAL_ID="-99", BUS_ID=-99, CAN_ID=-99, PETAL_LOC=-99, DEVICE_LOC=-99))
        ids.append(dict(DEVICE_ID="06666", DEVICE_TYPE="POS", PETAL_ID="NA", BUS_ID=1, CAN_ID=1, PETAL_LOC=0, DEVICE_LOC=sorted(seen or [11])[0]))
    ids = [ids[i] for i in rs.permutation(len(ids))]
    want, unknown = [], 0
    for r in mine:
        if not usable(r):
            continue
        d = r["DEVICE_LOC"]
        x, y, z = to_fp(0, [r["X_PTL"], r["Y_PTL"], r["Z_PTL"]])
        r = dict(r, PETAL_LOC=0, PINHOLE_ID=pin(r["PINHOLE_ID"]), X_FP=x, Y_FP=y, Z_FP=z, LOCATION=d)
        q = seen.get(d)
        unknown += q is None
        if q is not None:
            r.update(DEVICE_ID="M" + q["DEVICE_ID"] if petal == 0 and q["DEVICE_TYPE"] == "POS" else q["DEVICE_ID"], BUS_ID=q["BUS_ID"], DEVICE_TYPE=q["DEVICE_TYPE"])
        else:
            r.update(DEVICE_ID=SITE.get(d, "UNKNOWN"), BUS_ID="UNKNOWN", DEVICE_TYPE="UNKNOWN" if d not in SITE else "GIF" if d in (541, 542) else "FIF")
        if petal == 1 and d in (461, 501):
            r["DEVICE_TYPE"] = "ETC"
        want.append(r)
    patch = []
    if petal == 1:
        for r in patches(rs, [dict(r, DEVICE_TYPE="POS") for r in want], c["patch"]) or patches(rs, [dict(r, DEVICE_TYPE="POS") for r in want], 1):
            patch.append(dict(r, DEVICE_TYPE="FIF", DEVICE_ID="M%05d" % rs.randint(1000), BUS_ID=3))
        apply(want, patch, c["replace"])
    ctx.nontrivial(unknown > 0 if petal == 0 else len(patch) > 1)
    ctx.label("petal %d" % petal)
    with tempfile.TemporaryDirectory() as tmp:
        d = scratch(tmp)
        write(os.path.join(d, "UMT-DESI-5421.csv"), [dict(r, **{"": i}) for i, r in enumerate(umt)], [""] + COLS)
        write(os.path.join(d, "fp-metrology-patch.csv"), patch, COLS + FP + ["DEVICE_ID", "BUS_ID"])
        name = ["lbl-petal0/lbnl_positioner_indexes_20200731.csv", "lbl-petal1/lbnl_positioner_indexes_20200324.csv"][petal]
        write(os.path.join(d, name), ids, ["DEVICE_ID", "DEVICE_TYPE", "PETAL_ID", "BUS_ID", "CAN_ID", "PETAL_LOC", "DEVICE_LOC"])
        out = os.path.join(tmp, "o.csv")
        with installed(tmp):
            rc, text = cli.run("write_petal%d_metrology" % petal, ["-o", out] + ([] if c["replace"] else ["--no-replacement"]))
        ctx.expect(rc == 0, "exit status {}", rc)
        got = read(out)
    compare(ctx, got, want, "test petal %d" % petal, ids=False)
    def key(r):
        return int(r["DEVICE_LOC"]), int(r["PINHOLE_ID"]), round(float(r["X_FP"]), 4)
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        ctx.expect((a["DEVICE_ID"], a["BUS_ID"], a["PETAL_ID"]) == (b["DEVICE_ID"], str(b["BUS_ID"]), str(b["PETAL_ID"])), "identifiers of device {}: {} instead of {}", a["DEVICE_LOC"], (a["DEVICE_ID"], a["BUS_ID"], a["PETAL_ID"]), (b["DEVICE_ID"], b["BUS_ID"], b["PETAL_ID"]))


def slope(x, y, z):
    """z = a x + b y + c through the first three pinholes"""
    a, b, c = np.linalg.solve(np.column_stack([x[:3], y[:3], np.ones(3)]), z[:3])
    return np.array([a, b])


@sub(P, lambda: fixed(seed=gen.seeds(), tilt=gen.uni(0, .05), noise=gen.uni(0, .3)), 40, 400, "tilted guide cameras")
def guide_patch(c, ctx):
    """write_gfa_patch: corners of the guide CCDs, 2.23 mm along their normal from where the stars put them on the focal surface"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    real = (0, 1, 2, 4, 5, 6, 8, 9)
    ship = read(data.path("fp-metrology-gfa_patch.csv"))
    star = {}
    for p in sorted({int(r["PETAL_LOC"]) for r in ship}):
        t = sorted([r for r in ship if int(r["PETAL_LOC"]) == p], key=lambda r: int(r["PINHOLE_ID"]))
        x, y, z = (np.array([float(r[k]) for r in t]) for k in ("X_FP", "Y_FP", "Z_FP"))
        star[p] = np.array([x, y]) - 2.23 * slope(x, y, z)[:, None]
    rows = read(data.path("fp-metrology.csv"))
    keep, high, mean = [], {}, {i: [] for i in (1, 2, 3, 4)}
    tilt = {p: rs.uniform(-c["tilt"], c["tilt"], 3) for p in range(10)}
    for r in rows:
        p, i = int(r["PETAL_LOC"]), int(r["PINHOLE_ID"])
        if r["DEVICE_TYPE"] == "GFA":
            x, y = float(r["X_FP"]), float(r["Y_FP"])
            dz = (x * tilt[p][0] + y * tilt[p][1]) * .1 + rs.uniform(-1, 1) * .02 * c["noise"]
            r["Z_FP"] = repr(float(float(r["Z_FP"]) + dz))
            r["Z_PTL"] = repr(float(float(r["Z_PTL"]) + dz + rs.uniform(-.1, .1)))
            high[p, i] = float(r["Z_FP"])
            if p in real:
                mean[i].append(float(r["Z_PTL"]))
        elif rs.rand() > .05:
            continue
        keep.append(r)
    keep = [keep[i] for i in rs.permutation(len(keep))]
    ctx.nontrivial(c["tilt"] > .005)
    with tempfile.TemporaryDirectory() as tmp:
        d = scratch(tmp)
        os.remove(os.path.join(d, "fp-metrology.csv"))
        with open(os.path.join(d, "fp-metrology.csv"), "w", newline="") as f:
            w = csv.DictWriter(f, list(rows[0]))
            w.writeheader()
            w.writerows(keep)
        with installed(tmp):
            rc, text = cli.run("write_gfa_patch", [])
        ctx.expect(rc == 0, "exit status {}", rc)
        got = read(os.path.join(d, "fp-metrology-gfa_patch.csv"))
    ctx.expect(sorted((int(r["PETAL_LOC"]), int(r["PINHOLE_ID"])) for r in got) == [(p, i) for p in (0, 2, 3, 5, 7, 8) for i in (1, 2, 3, 4)] and {r["DEVICE_TYPE"] for r in got} == {"GFA"}, "rows {}", [(r["PETAL_LOC"], r["PINHOLE_ID"]) for r in got])
    for p in (0, 2, 3, 5, 7, 8):
        t = sorted([r for r in got if int(r["PETAL_LOC"]) == p], key=lambda r: int(r["PINHOLE_ID"]))
        x, y, z = (np.array([float(r[k]) for r in t]) for k in ("X_FP", "Y_FP", "Z_FP"))
        h = [high[p, i] if p in real else np.mean(mean[i]) for i in (1, 2, 3, 4)]
        ctx.close(z, h, 1e-9, "height of the guide camera of petal %d" % p)
        ctx.close(np.array([x, y]) - 2.23 * slope(x, y, z)[:, None], star[p], 1e-6, "focal surface of petal %d" % p)
        for k, r in enumerate(t):
            ctx.expect(PID[int(r["PETAL_ID"])] == p, "petal {} at {}", r["PETAL_ID"], p)
            v = [float(r[n]) for n in ("X_PTL", "Y_PTL", "Z_PTL")]
            if p in real:
                ctx.expect(all(np.isnan(v)), "petal coordinates {} of a measured camera", v)
            else:
                from desimeter.transform.ptl2fp import fp2ptl
                q = np.ravel(fp2ptl(p, x[k], y[k]))
                ctx.expect(abs(v[0] - q[0]) < 1e-6 and abs(v[1] - q[1]) < 1e-6 and abs(v[2] - h[k]) < 1e-9, "petal coordinates {} instead of {}", v, (q[0], q[1], h[k]))
