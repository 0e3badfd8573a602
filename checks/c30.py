"""C30 retrieval of positioner moves and calibrations from the database"""
import csv, datetime, os, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, cli, pg
from vf.gen import fixed

P = "C30"
LOC = {2: 7, 3: 3, 4: 0, 5: 1, 6: 2, 7: 8, 8: 4, 9: 9, 10: 5, 11: 6}
UTC = datetime.timezone.utc
CAL = ["length_r1", "length_r2", "offset_x", "offset_y", "offset_t", "offset_p", "physical_range_t", "physical_range_p", "gear_calib_t", "gear_calib_p"]
CALI = ["total_limit_seeks_t", "total_limit_seeks_p", "last_primary_hardstop_dir_t", "last_primary_hardstop_dir_p"]
CALK = ["keepout_expansion_phi_radial", "keepout_expansion_phi_angular", "keepout_expansion_theta_radial", "keepout_expansion_theta_angular"]
MOVI = ["total_move_sequences", "total_cruise_moves_t", "total_cruise_moves_p", "total_creep_moves_t", "total_creep_moves_p"]
MOVF = ["last_meas_obs_x", "last_meas_obs_y", "last_meas_peak", "last_meas_fwhm"]


class World:
    """moves and calibrations of a few positioners on a few petals over some days"""
    def __init__(self, seed, petals=2, npos=3, nexp=4, whole_seconds=False, measured=.8):
        rs = self.rs = np.random.RandomState(seed % 2**32)
        self.petals = [int(p) for p in rs.permutation(sorted(LOC))[:petals]]
        self.moves, self.calibs = {p: [] for p in self.petals}, {p: [] for p in self.petals}
        start = datetime.datetime(2020, 3, 1, 1) + datetime.timedelta(seconds=int(rs.randint(80000)))
        exps = []
        t, e = start, int(rs.randint(1000, 90000))
        for k in range(nexp):
            t += datetime.timedelta(seconds=float(rs.choice([120., 4000., 70000.]) * rs.uniform(.5, 1.5)))
            e += int(rs.randint(1, 4))
            exps.append((e, t, int(rs.randint(1, 4))))
        self.exps = exps
        used = set()
        for p in self.petals:
            for k in range(npos):
                pid = "M%05d" % rs.randint(100, 9999)
                while pid in used:
                    pid = "M%05d" % rs.randint(100, 9999)
                used.add(pid)
                dev, bus = 3 + 7 * k + int(rs.randint(5)), int(rs.randint(10, 23))
                while p * 1000 + dev in used:
                    dev += 1
                used.add(p * 1000 + dev)
                index, enabled = int(rs.choice([0, 1, 57])), True
                quiet = rs.rand() < .25                     # never commanded
                for e, t, iters in exps:
                    if rs.rand() < .15:
                        continue
                    for it in range(iters):
                        if rs.rand() < .1:
                            continue
                        when = t + datetime.timedelta(seconds=40. * it + (rs.randint(0, 4) if whole_seconds else rs.uniform(0, 4)))
                        if rs.rand() < .2:
                            enabled = not enabled
                        seen = rs.rand() < measured
                        self.moves[p].append(self.move(p, dev, pid, index, when, bus, e, it, enabled, seen, "" if quiet else "QS", "arc calibration, use_desimeter=True" if rs.rand() < .5 else "note %d" % index))
                        index += 1
                        if rs.rand() < .3:
                            self.moves[p].append(self.move(p, dev, pid, index, when + datetime.timedelta(seconds=10 if whole_seconds else rs.uniform(6, 12)), bus, e if rs.rand() < .5 else 1, it, enabled, False, "", "req_posTP, tp_update_posTP"))
                            index += 1
                # calibrations: one before everything, others at any time
                times = [start - datetime.timedelta(days=30)] + [start + datetime.timedelta(seconds=(exps[-1][1] - start).total_seconds() * rs.uniform(-.5, 1.1)) for _ in range(rs.randint(0, 5))]
                if whole_seconds:
                    times = sorted({v.replace(microsecond=0) for v in times})      # no two at once
                ok = True
                order = rs.permutation(len(times)) if rs.rand() < .3 else np.arange(len(times))      # a row may be entered late: what counts is when it was recorded
                for i, when in enumerate(sorted(times)):
                    r = dict(petal_id=p, device_loc=dev, pos_id=pid, bus_id=bus, pos_calib_index=int(order[i]), time_recorded=when)
                    r.update({q: round(float(rs.uniform(-3, 3)), 6) for q in CAL + CALK})
                    r.update(length_r1=round(rs.uniform(2.8, 3.2), 6), length_r2=round(rs.uniform(2.8, 3.2), 6), offset_x=round(rs.uniform(50, 350), 5), offset_y=round(rs.uniform(-60, 60), 5))
                    r.update({q: int(rs.randint(100)) for q in CALI})
                    if rs.rand() < .3:
                        ok = not ok
                    r.update(classified_as_retracted=bool(rs.rand() < .1), device_classified_nonfunctional=not ok, fiber_intact=bool(rs.rand() < .9), calib_note="c%d" % i)
                    self.calibs[p].append(r)
        for d in (self.moves, self.calibs):
            for p in d:
                d[p] = [d[p][i] for i in rs.permutation(len(d[p]))]

    def move(self, p, dev, pid, index, when, bus, e, it, enabled, seen, cmd, note):
        rs = self.rs
        r = dict(petal_id=p, device_loc=dev, pos_id=pid, pos_move_index=index, time_recorded=when, bus_id=bus, pos_t=round(rs.uniform(-180, 180), 5), pos_p=round(rs.uniform(0, 180), 5))
        o = np.round(rs.uniform(-400, 400, 4), 5)
        for k, v in zip(("obs_x", "obs_y", "ptl_x", "ptl_y"), o):
            r[k] = float(v) if seen else None
        r["ptl_z"] = 0. if seen else None
        r.update({k: int(rs.randint(1000)) for k in MOVI})
        r.update({k: float(np.round(rs.uniform(1, 2), 4)) for k in MOVF})
        r.update(ctrl_enabled=enabled, move_cmd=cmd, move_val1="q=%d" % index, move_val2="s=1, x", log_note=note, exposure_id=e, exposure_iter=it, flags=4)
        return r

    def tables(self):
        t = {}
        for p in self.petals:
            t["positioner_moves_p%d" % p] = self.moves[p]
        for p in self.petals:
            t["positioner_calibration_p%d" % p] = self.calibs[p]
        return {k: v for k, v in t.items() if v}

    def empty(self):
        return any(not self.moves[p] for p in self.petals)

    def force(self, p, pid, when, strict=False):
        """the calibration in force"""
        c = [r for r in self.calibs[p] if r["pos_id"] == pid and (r["time_recorded"] < when or not strict and r["time_recorded"] == when)]
        return max(c, key=lambda r: r["time_recorded"])


def read(fn):
    from astropy.table import Table
    with open(fn, newline="") as f:
        rows = list(csv.reader(f))
    if len(rows) < 2:
        return Table(names=rows[0], dtype=["U9"] * len(rows[0]))
    return Table(rows=[[v.strip() for v in r] for r in rows[1:]], names=rows[0], dtype=["U200"] * len(rows[0]))


def nothing(s):
    return str(s) in ("", "None", "nan", "--")


def num(s):
    return float({"True": 1, "False": 0}.get(str(s), s))


def stamp(s):
    return datetime.datetime.fromisoformat(str(s)).replace(tzinfo=None)


def write_ids(rs, l):
    l = [int(v) for v in l]
    return ",".join(str(v) for v in l)


def select(c, w, rs):
    """command-line options and the rule they stand for"""
    argv, rule = [], dict(petals=list(w.petals), pos=None, exps=None, iters=None, dmin=datetime.datetime(2019, 1, 1), dmax=datetime.datetime(2030, 1, 1))
    if c["petals"] != "all":
        k = w.petals[:1] if c["petals"] == "one" else w.petals[::-1]
        rule["petals"] = k
        argv += ["--petal-ids", write_ids(rs, k)]
    if c["exps"]:
        k = [e for e, t, i in w.exps if rs.rand() < .6] or [w.exps[0][0]]
        rule["exps"] = k
        argv += ["--exposure-ids", write_ids(rs, k)]
    if c["iters"]:
        k = [i for i in range(3) if rs.rand() < .6] or [0]
        rule["iters"] = k
        argv += ["--exposure-iters", write_ids(rs, k)]
    if c["dates"]:
        a, b = sorted(int(v) for v in rs.randint(0, 8, 2))
        rule["dmin"], rule["dmax"] = datetime.datetime(2020, 3, 1) + datetime.timedelta(days=a - 1), datetime.datetime(2020, 3, 1) + datetime.timedelta(days=b + 1)
        argv += ["--date-min", rule["dmin"].strftime("%Y-%m-%d"), "--date-max", rule["dmax"].strftime("%Y-%m-%d")]
    return argv, rule


def keeps(rule, r, exps=True):
    return rule["dmin"] <= r["time_recorded"] <= rule["dmax"] and (not exps or (rule["exps"] is None or r["exposure_id"] in rule["exps"]) and (rule["iters"] is None or r["exposure_iter"] in rule["iters"]))


WORLD = dict(seed=gen.seeds(), npetal=st.sampled_from([2, 1, 3]), npos=st.sampled_from([2, 1, 3, 4]), nexp=st.sampled_from([3, 1, 2, 4, 5]))
SELECT = dict(petals=st.sampled_from(["all", "one", "some"]), exps=st.booleans(), iters=st.booleans(), dates=st.booleans())


def compare(ctx, got, want, what, calib, comma):
    """rows of a written table against database rows (r, calibration or None)"""
    ctx.expect(len(got) == len(want), "{}: {} rows instead of {}", what, len(got), len(want))
    idx = [int(v) for v in got["POS_MOVE_INDEX"]] if "POS_MOVE_INDEX" in got.colnames else None
    if idx is None:
        key = lambda r: r["time_recorded"]
        where = {stamp(v): i for i, v in enumerate(got["DATE"])}
    else:
        key = lambda r: r["pos_move_index"]
        where = {v: i for i, v in enumerate(idx)}
    ctx.expect(sorted(where) == sorted(key(r) for r, q in want), "{}: moves {} instead of {}", what, sorted(where), sorted(key(r) for r, q in want))
    for r, q in want:
        g = got[where[key(r)]]
        for k in ("pos_t", "pos_p", "exposure_id", "exposure_iter", "petal_id", "device_loc", "bus_id", "ctrl_enabled", "flags") + tuple(MOVI):
            if k.upper() in got.colnames:
                ctx.expect(num(g[k.upper()]) == r[k], "{}: {} of move {} is {} instead of {}", what, k, r["pos_move_index"], g[k.upper()], r[k])
        ctx.expect(str(g["POS_ID"]) == r["pos_id"] and stamp(g["DATE"]) == r["time_recorded"], "{}: identity or date of move {}", what, r["pos_move_index"])
        ctx.expect(int(g["PETAL_LOC"]) == LOC[r["petal_id"]], "{}: location of petal {} is {}", what, r["petal_id"], g["PETAL_LOC"])
        ctx.expect(str(g["LOG_NOTE"]) == r["log_note"].replace(",", comma), "{}: note {!r} for {!r}", what, str(g["LOG_NOTE"]), r["log_note"])
        if q is not None:
            for k in calib:
                ctx.expect(num(g[k.upper()]) == q[k], "{}: {} of move {} ({}) is {} instead of {}, calibration of {}", what, k, r["pos_move_index"], r["time_recorded"], g[k.upper()], q[k], q["time_recorded"])
            if "CALIB_DATE" in got.colnames:
                ctx.expect(stamp(g["CALIB_DATE"]) == q["time_recorded"], "{}: calibration of {} instead of {} for a move of {}", what, g["CALIB_DATE"], q["time_recorded"], r["time_recorded"])
    return where


@sub(P, lambda: fixed(calib=st.booleans(), tp=st.booleans(), pos=st.sampled_from(["all", "all", "some", "movers"]), rehome=st.booleans(), comma=st.sampled_from([None, ";", "<>"]), merge=st.booleans(), latest=st.sampled_from([0, 0, 0, 1, 2, 50]), **WORLD, **SELECT), 600, 6000, "several positioners", shards=4)
def moves(c, ctx):
    """get_posmoves writes the selected moves with the calibration in force"""
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"])
    rs = w.rs
    if w.empty():
        ctx.nontrivial(False)
        return
    argv, rule = select(c, w, rs)
    pids = sorted({r["pos_id"] for p in w.petals for r in w.moves[p]})
    only = None
    if c["pos"] == "some":
        only = [p for p in pids if rs.rand() < .6] or pids[:1]
        argv += ["--pos-ids", ",".join(only)]
    elif c["pos"] == "movers":
        argv += ["--pos-ids", "movers"]
    hot = []
    if c["rehome"]:
        hot = [e for e, t, i in w.exps if rs.rand() < .5]
        if hot:
            argv += ["--recent-rehome-exposure-ids", write_ids(rs, hot)]
    tp, calib, latest = c["tp"], c["calib"], c["latest"]
    if tp:
        argv.append("--tp-updates")
    if calib:
        argv.append("--with-calib")
    if c["comma"]:
        argv += ["--comma-replacement", c["comma"]]
    if latest:
        argv += ["--latest", str(latest)]
        rule.update(exps=None, iters=None, dmin=datetime.datetime(2019, 1, 1), dmax=datetime.datetime(2050, 1, 1))
        tp, calib, hot = True, True, []
    want = {}
    for p in rule["petals"]:
        for pid in pids:
            rows = [r for r in w.moves[p] if r["pos_id"] == pid]
            if only is not None and pid not in only:
                continue
            base = [r for r in rows if keeps(rule, r)]
            if not base:
                continue
            sel = list(base)
            if tp and (rule["exps"] is not None or rule["iters"] is not None):
                lo, hi = min(r["pos_move_index"] for r in base), max(r["pos_move_index"] for r in base) + 1
                sel = [r for r in rows if keeps(rule, r, False) and (keeps(rule, r) or "tp_update" in r["log_note"] and lo <= r["pos_move_index"] <= hi)]
            sel = sorted(sel, key=lambda r: r["time_recorded"])[-latest:] if latest else sel
            if c["pos"] == "movers" and all(r["move_cmd"] in ("", None) for r in sel):
                continue
            if not tp:
                sel = [r for r in sel if r["obs_x"] is not None]
            want[pid] = [(r, w.force(p, pid, r["time_recorded"]) if calib else None) for r in sel]
    if c["merge"] and not any(want.values()):
        ctx.nontrivial(False)
        return
    ctx.nontrivial(len(want) > 1)
    ctx.label("merge" if c["merge"] else "files"); ctx.label("latest", latest > 0); ctx.label("movers", c["pos"] == "movers"); ctx.label("tp updates", tp); ctx.label("calibration", calib)
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        out = os.path.join(tmp, "a", "b")
        rc, text = cli.run("get_posmoves", argv + ["-o", out] + (["--merge"] if c["merge"] else []))
        ctx.expect(rc == 0, "exit status {}", rc)
        files = sorted(os.listdir(out)) if os.path.isdir(out) else []
        tabs = {}
        if c["merge"]:
            ctx.expect(len(files) == 1, "merged files {}", files)
            t = read(os.path.join(out, files[0]))
            for pid in set(t["POS_ID"]):
                tabs[str(pid)] = t[t["POS_ID"] == pid]
            want = {k: v for k, v in want.items() if v}
        else:
            ctx.expect(files == sorted("%s.csv" % k for k in want), "files {} instead of {}", files, sorted(want))
            tabs = {k: read(os.path.join(out, k + ".csv")) for k in want}
    ctx.expect(sorted(tabs) == sorted(want), "positioners {} instead of {}", sorted(tabs), sorted(want))
    for pid in want:
        where = compare(ctx, tabs[pid], want[pid], pid, CAL + CALI + CALK + ["pos_calib_index"], c["comma"] or "||")
        for r, q in want[pid]:
            g = tabs[pid][where[r["pos_move_index"]]]
            ctx.expect(num(g["RECENT_REHOME"]) == (r["exposure_id"] in hot), "rehomed flag of exposure {}: {} with {}", r["exposure_id"], g["RECENT_REHOME"], hot)
            for k, n in (("X_FP", "obs_x"), ("Y_FP", "obs_y"), ("PTL_X", "ptl_x"), ("PTL_Y", "ptl_y")):
                ctx.expect(nothing(g[k]) if r[n] is None else num(g[k]) == r[n], "{} of move {} is {} instead of {}", k, r["pos_move_index"], g[k], r[n])


@sub(P, lambda: fixed(calib=st.booleans(), tp=st.booleans(), petals=st.sampled_from(["all", "one", "some"]), dates=st.booleans(), **WORLD), 300, 3000, "several positioners", shards=2)
def enabled_history(c, ctx):
    """the enabled history keeps the first row and those that differ from the row before"""
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"])
    if w.empty():
        ctx.nontrivial(False)
        return
    argv, rule = select(dict(c, exps=False, iters=False), w, w.rs)
    keys = ["ctrl_enabled"]
    want = {}
    for p in rule["petals"]:
        for pid in {r["pos_id"] for r in w.moves[p]}:
            rows = sorted([r for r in w.moves[p] if r["pos_id"] == pid and keeps(rule, r)], key=lambda r: r["time_recorded"])
            if not rows:
                continue
            q = [w.force(p, pid, r["time_recorded"]) for r in rows]
            state = [(r["ctrl_enabled"],) + ((f["device_classified_nonfunctional"], f["fiber_intact"]) if c["calib"] else ()) for r, f in zip(rows, q)]
            want[pid] = [(r, f if c["calib"] else None) for i, (r, f) in enumerate(zip(rows, q)) if i == 0 or state[i] != state[i - 1]]
    ctx.nontrivial(len(want) > 1)
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        rc, text = cli.run("get_posmoves", argv + ["-o", tmp, "--enabled-history"] + (["--with-calib"] if c["calib"] else []) + (["--tp-updates"] if c["tp"] else []))
        ctx.expect(rc == 0, "exit status {}", rc)
        files = sorted(os.listdir(tmp))
        ctx.expect(files == sorted("%s.csv" % k for k in want), "files {} instead of {}", files, sorted(want))
        tabs = {k: read(os.path.join(tmp, k + ".csv")) for k in want}
    for pid in want:
        compare(ctx, tabs[pid], want[pid], pid, ["device_classified_nonfunctional", "fiber_intact"] if c["calib"] else [], "||")


@sub(P, lambda: fixed(petals=st.sampled_from(["all", "one", "some"]), **WORLD), 150, 1500, "several positioners")
def latest_calibration(c, ctx):
    """get_posparams writes the last calibration of every positioner"""
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"])
    argv, rule = select(dict(c, exps=False, iters=False, dates=False), w, w.rs)
    want = {r["pos_id"]: max((q for q in w.calibs[p] if q["pos_id"] == r["pos_id"]), key=lambda q: q["time_recorded"]) for p in rule["petals"] for r in w.calibs[p]}
    ctx.nontrivial(len(want) > 1)
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        fn = os.path.join(tmp, "o.csv")
        rc, text = cli.run("get_posparams", argv + ["-o", fn])
        ctx.expect(rc == 0, "exit status {} after success", rc)
        t = read(fn)
    ctx.expect(sorted(t["pos_id"]) == sorted(want), "positioners {}", sorted(t["pos_id"]))
    for g in t:
        q = want[str(g["pos_id"])]
        for k in ("petal_id", "device_loc", "pos_calib_index", "bus_id", "length_r1", "length_r2", "offset_x", "offset_y", "offset_t", "offset_p"):
            ctx.expect(num(g[k]) == q[k], "{} of {}: {} instead of {}", k, q["pos_id"], g[k], q[k])
        ctx.expect(stamp(g["time_recorded"]) == q["time_recorded"] and int(g["petal_loc"]) == LOC[q["petal_id"]], "date or petal of {}", q["pos_id"])


@sub(P, lambda: fixed(latest=st.booleans(), petals=st.sampled_from(["all", "one", "some"]), **WORLD), 300, 3000, "several positioners", shards=2)
def expected_positions(c, ctx):
    """get_poscoords: positions expected from the angles and the calibration in force at the time of each move"""
    from vf import data
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"], whole_seconds=c["latest"])
    rs = w.rs
    if w.empty():
        ctx.nontrivial(False)
        return
    argv, rule = select(dict(c, exps=False, iters=False, dates=False), w, rs)
    e = w.exps[rs.randint(len(w.exps))]
    it = int(rs.randint(e[2]))
    want = []
    for p in rule["petals"]:
        if c["latest"]:
            m = max(r["time_recorded"] for r in w.moves[p])
            want += [r for r in w.moves[p] if r["time_recorded"] == m]
        else:
            want += [r for r in w.moves[p] if (r["exposure_id"], r["exposure_iter"]) == (e[0], it)]
    ctx.nontrivial(len(want) > 1)
    if not want:
        return
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        fn = os.path.join(tmp, "o.csv")
        rc, text = cli.run("get_poscoords", argv + ["-o", fn] + ([] if c["latest"] else ["--exposure-id", e[0], "--exposure-iter", it]))
        ctx.expect(rc == 0, "exit status {}", rc)
        t = read(fn)
    from desimeter.transform.pos2ptl import int2ptl
    from desimeter.transform.ptl2fp import ptl2fp
    ctx.expect(len(t) == len(want), "{} rows instead of {}", len(t), len(want))
    where = {(str(g["POS_ID"]), int(g["POS_MOVE_INDEX"])): g for g in t}
    for r in want:
        ctx.expect((r["pos_id"], r["pos_move_index"]) in where, "move {} of {} missing", r["pos_move_index"], r["pos_id"])
        g, q = where[r["pos_id"], r["pos_move_index"]], w.force(r["petal_id"], r["pos_id"], r["time_recorded"], True)
        for k in CAL + CALI + CALK + ["pos_calib_index", "device_classified_nonfunctional"]:
            ctx.expect(num(g[k.upper()]) == q[k], "{} of {} at {}: {} instead of {}", k, r["pos_id"], r["time_recorded"], g[k.upper()], q[k])
        ctx.expect(int(g["PETAL_LOC"]) == LOC[r["petal_id"]], "petal location {} of petal {}", g["PETAL_LOC"], r["petal_id"])
        x, y = int2ptl(r["pos_t"], r["pos_p"], *[q[k] for k in ("length_r1", "length_r2", "offset_t", "offset_p", "offset_x", "offset_y")])
        ctx.close([num(g["X_PTL_EXP"]), num(g["Y_PTL_EXP"])], [x[0], y[0]], 1e-6, "expected petal position")
        u, v, z = ptl2fp(LOC[r["petal_id"]], x, y)
        ctx.close([num(g["X_FP_EXP"]), num(g["Y_FP_EXP"])], [u[0], v[0]], 1e-6, "expected focal plane position")


@sub(P, lambda: fixed(**WORLD, **SELECT), 240, 2400, "several positioners")
def moving(c, ctx):
    """check_moving tells which moves changed the measured position"""
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"])
    rs = w.rs
    if w.empty():
        ctx.nontrivial(False)
        return
    for p in w.petals:                  # positioners that do not move now and then
        last = {}
        for r in sorted(w.moves[p], key=lambda r: r["pos_move_index"]):
            if r["ptl_x"] is not None:
                a, k = rs.uniform(0, 6.3), r["pos_id"]
                if k in last and rs.rand() < .6:
                    d = rs.choice([.01, .045, .055, .3])
                    r["ptl_x"], r["ptl_y"] = last[k][0] + d * np.cos(a), last[k][1] + d * np.sin(a)
                last[k] = r["ptl_x"], r["ptl_y"]
    argv, rule = select(c, w, rs)
    want = {}
    for p in rule["petals"]:
        for pid in {r["pos_id"] for r in w.moves[p]}:
            rows = sorted([r for r in w.moves[p] if r["pos_id"] == pid and keeps(rule, r) and r["ptl_x"] is not None], key=lambda r: r["pos_move_index"])
            if len(rows) > 1:
                xy = np.array([[r["ptl_x"], r["ptl_y"]] for r in rows])
                want[pid] = (LOC[p], rows[0]["bus_id"], (np.hypot(*np.diff(xy, axis=0).T) > .05).astype(int).tolist())
    ctx.nontrivial(len(want) > 1)
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        fn = os.path.join(tmp, "o.txt")
        rc, text = cli.run("check_moving", argv + ["-o", fn])
        ctx.expect(rc == 0, "exit status {}", rc)
        lines = open(fn).read().replace("\n ", " ").splitlines()
    got = {}
    for l in lines:
        pid, a, b, m = l.split(None, 3)
        got[pid] = (int(a.split("=")[1]), int(b.split("=")[1]), [int(v) for v in m.split("=")[1].strip("[]").split()])
    ctx.expect(got == want, "report {} instead of {}", got, want)


@sub(P, lambda: fixed(posids=st.booleans(), rehome=st.booleans(), missing=st.booleans(), named=st.booleans(), **WORLD, **SELECT), 300, 3000, "several positioners and images", shards=2)
def with_images(c, ctx):
    """get_posmoves_with_fvc_data gives the measured position of the image of the same exposure and iteration"""
    import fitsio
    from astropy.table import Table
    from vf import data
    from desimeter.transform.ptl2fp import fp2ptl
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"])
    rs = w.rs
    if w.empty():
        ctx.nontrivial(False)
        return
    # names and places of real devices
    m = data.metrology()
    m = m[np.array(m["DEVICE_TYPE"]) == "POS"]
    name = {}
    for p in w.petals:
        mine = m[np.array(m["PETAL_LOC"]) == LOC[p]]
        ids = sorted({r["pos_id"] for r in w.calibs[p]})
        for pid, i in zip(ids, rs.permutation(len(mine))):
            name[pid] = (str(mine["DEVICE_ID"][i]), int(mine["LOCATION"][i]))
    for d in (w.moves, w.calibs):
        for p in d:
            for r in d[p]:
                r["pos_id"], r["device_loc"] = name[r["pos_id"]][0], name[r["pos_id"]][1] % 1000
    loc = dict(name.values())
    argv, rule = select(dict(c, petals="some" if c["petals"] == "all" and rs.rand() < .5 else c["petals"]), w, rs)
    only = None
    if c["posids"]:
        only = sorted(loc)[:2] if len(rule["petals"]) == 1 else None
        only = [v for v in only or [] if v in {r["pos_id"] for r in w.moves[rule["petals"][0]]}] or None
        if only:
            argv += ["--pos-ids", ",".join(only)]
    hot = [e for e, t, i in w.exps if rs.rand() < .5] if c["rehome"] else []
    if hot:
        argv += ["--recent-rehome-exposure-ids", write_ids(rs, hot)]
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        seen, images, n = {}, [], 0
        everyone = sorted(loc)
        for e, t, iters in w.exps:
            for it in range(iters):
                if c["missing"] and rs.rand() < .2:
                    continue
                n += 1
                f = os.path.join(tmp, "fvc.%08d.fits" % n)
                h = dict(OBSNUM=e, OBSFRM=it)
                if c["missing"] and rs.rand() < .1:
                    h.pop("OBSFRM")
                fitsio.write(f, np.zeros((2, 2), "f4"), header=h)
                images.append(f)
                use = [p for p in everyone if rs.rand() < .85]
                xy = np.round(rs.uniform(-400, 400, (len(use), 2)), 5)
                # spots that match nothing, fiducials
                L = [loc[p] for p in use] + [-1, 1542]
                D = use + ["X", "P042"]
                o = rs.permutation(len(L))
                tab = Table(dict(LOCATION=np.array(L)[o], X_FP=np.r_[xy[:, 0], 1., 2.][o], Y_FP=np.r_[xy[:, 1], 1., 2.][o]))
                if c["named"]:
                    tab["DEVICE_ID"] = np.array(D)[o]
                else:
                    tab = tab[tab["LOCATION"] != 1542]
                tab.write(f.replace(".fits", ".csv"))
                if "OBSFRM" in h and (rule["exps"] is None or e in rule["exps"]) and (rule["iters"] is None or it in rule["iters"]):
                    for p, v in zip(use, xy):
                        seen[p, e, it] = v
                    seen[e, it] = True
        if not any(len(k) == 2 for k in seen):
            ctx.nontrivial(False)
            return
        want = {}
        for p in rule["petals"]:
            for pid in only or {r["pos_id"] for r in w.moves[p]}:
                want[pid] = [(r, None) for r in w.moves[p] if r["pos_id"] == pid and keeps(rule, r) and (pid, r["exposure_id"], r["exposure_iter"]) in seen]
        ctx.nontrivial(len(want) > 1 and len(images) > 1)
        images = [images[i] for i in rs.permutation(len(images))]
        out = os.path.join(tmp, "out")
        rc, text = cli.run("get_posmoves_with_fvc_data", argv + ["--fvc-images"] + images + ["--fvc-data-dir", tmp, "--outdir", out])
        ctx.expect(rc == 0, "exit status {}", rc)
        files = sorted(os.listdir(out))
        ctx.expect(files == sorted("%s.csv" % k for k in want), "files {} instead of {}", files, sorted(want))
        for pid in want:
            t = read(os.path.join(out, pid + ".csv"))
            where = compare(ctx, t, want[pid], pid, [], ";")
            for r, q in want[pid]:
                g = t[where[r["pos_move_index"]]]
                x, y = seen[pid, r["exposure_id"], r["exposure_iter"]]
                ctx.close([num(g["X_FP"]), num(g["Y_FP"])], [x, y], 1e-6, "measured position of %s in exposure %d.%d" % (pid, r["exposure_id"], r["exposure_iter"]))
                u = fp2ptl(LOC[r["petal_id"]], np.array([x]), np.array([y]))
                ctx.close([num(g["PTL_X"]), num(g["PTL_Y"]), num(g["PTL_Z"])], np.array(u)[:, 0], 1e-6, "petal position of %s" % pid)
                ctx.expect(num(g["RECENT_REHOME"]) == (r["exposure_id"] in hot), "rehomed flag")


@sub(P, lambda: fixed(nocalib=st.booleans(), offset=st.sampled_from([0, 0, -276, 40]), delay=st.sampled_from([None, 10, 60]), petals=st.sampled_from(["all", "some", "some", "one"]), dates=st.booleans(), **WORLD), 300, 3000, "several positioners", shards=2)
def by_date(c, ctx):
    """get_posmoves_with_fvc_data_using_dates: the first image after each move, if it is soon enough"""
    from astropy.table import Table
    w = World(c["seed"], c["npetal"], c["npos"], c["nexp"], whole_seconds=True)
    rs = w.rs
    if w.empty():
        ctx.nontrivial(False)
        return
    argv, rule = select(dict(c, exps=False, iters=False), w, rs)
    with tempfile.TemporaryDirectory() as tmp, pg.database(w.tables()):
        images = []
        for e, t, iters in w.exps:
            for it in range(iters):
                if rs.rand() < .15:
                    continue
                when = (t + datetime.timedelta(seconds=40 * it + int(rs.choice([5, 9, 16, 25])))).replace(microsecond=0)
                f = os.path.join(tmp, "i%d.csv" % len(images))
                pos = {}
                for p in w.petals:
                    for k in {(r["pos_id"], r["device_loc"]) for r in w.moves[p]}:
                        if rs.rand() < .9:
                            pos[LOC[p] * 1000 + k[1]] = np.round(rs.uniform(1, 400, 2), 5)
                if rs.rand() < .95 and pos:
                    Table(dict(LOCATION=list(pos), X_FP=[v[0] for v in pos.values()], Y_FP=[v[1] for v in pos.values()])).write(f)
                else:
                    pos = None
                images.append((when, f, pos))
        if not images:
            ctx.nontrivial(False)
            return
        images = [images[i] for i in rs.permutation(len(images))]
        fl = os.path.join(tmp, "list.csv")
        clock = lambda d: d + datetime.timedelta(seconds=c["offset"])
        Table(dict(FILE=[i[1] for i in images], DATE=[(i[0] - datetime.timedelta(seconds=c["offset"])).strftime("%Y-%m-%dT%H:%M:%S") for i in images])).write(fl)
        limit = 25 if c["delay"] is None else c["delay"]
        want = {}
        for p in rule["petals"]:
            for r in w.moves[p]:
                if not keeps(rule, r):
                    continue
                t = r["time_recorded"].replace(microsecond=0)
                later = [i for i in images if i[0] > t]
                if not later:
                    continue
                i = min(later, key=lambda v: v[0])
                l = LOC[p] * 1000 + r["device_loc"]
                if (i[0] - t).total_seconds() <= limit and i[2] is not None and l in i[2]:
                    want.setdefault(r["pos_id"], []).append((r, t, i, i[2][l]))
        ctx.nontrivial(len(want) > 1)
        ctx.label("several petals", len(rule["petals"]) > 1)
        out = os.path.join(tmp, "out")
        rc, text = cli.run("get_posmoves_with_fvc_data_using_dates", argv + ["--fvc-file-list", fl, "--outdir", out, "--clock-offset=%d" % c["offset"]] + (["--nocalib"] if c["nocalib"] else []) + ([] if c["delay"] is None else ["--deltat-max", c["delay"]]))
        ctx.expect(rc == 0, "exit status {}", rc)
        files = sorted(os.listdir(out)) if os.path.isdir(out) else []
        ctx.expect(files == sorted("%s.csv" % k for k in want), "files {} instead of {}", files, sorted(want))
        for pid in want:
            g = read(os.path.join(out, pid + ".csv"))
            ctx.expect(sorted(int(v) for v in g["POS_MOVE_INDEX"]) == sorted(v[0]["pos_move_index"] for v in want[pid]), "{}: moves {} instead of {}", pid, sorted(g["POS_MOVE_INDEX"]), sorted(v[0]["pos_move_index"] for v in want[pid]))
            where = {int(v): i for i, v in enumerate(g["POS_MOVE_INDEX"])}
            for r, t, i, xy in want[pid]:
                q = g[where[r["pos_move_index"]]]
                ctx.close([num(q["X_FP"]), num(q["Y_FP"])], xy, 1e-6, "measured position of %s at %s" % (pid, t))
                ctx.close([num(q["POS_T"]), num(q["POS_P"])], [r["pos_t"], r["pos_p"]], 0., "angles")
                ctx.expect(int(q["PETAL_LOC"]) == LOC[r["petal_id"]] and num(q["DELTAT"]) == (i[0] - t).total_seconds() and str(q["LOG_NOTE"]) == r["log_note"].replace(",", ";"), "petal {}, delay {} or note {} of {} at {}", q["PETAL_LOC"], q["DELTAT"], q["LOG_NOTE"], pid, t)
                if not c["nocalib"]:
                    f = w.force(r["petal_id"], pid, t, True)
                    for k in CAL + CALI + CALK + ["pos_calib_index"]:
                        ctx.expect(num(q[k.upper()]) == f[k], "{} of {} at {}: {} instead of {}", k, pid, t, q[k.upper()], f[k])
