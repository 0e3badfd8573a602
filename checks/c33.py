"""C33 analysis of the positioning performance"""
import contextlib, csv, datetime, math, os, re, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, cli
from vf.gen import fixed

P = "C33"
BITS = dict(MATCHED=0, PINHOLE=1, POSITIONER=2, MOVED=6, AMBIGUOUS=11, ASSIGNED=14, CONVERGED=15, OVERLAP=19, FROZEN=20, UNREACHABLE=21, REJECTED=25, MISSINGSPOT=28)
HIDDEN = ("PINHOLE", "POSITIONER")
COLS = "POS_ID POS_MOVE_INDEX POS_T POS_P PTL_X PTL_Y LENGTH_R1 LENGTH_R2 OFFSET_X OFFSET_Y OFFSET_T OFFSET_P MOVE_CMD EXPOSURE_ID EXPOSURE_ITER DEVICE_LOC DATE LOG_NOTE PETAL_LOC FLAGS POSTSCRIPT CALIB_NOTE PETAL_ID GEAR_CALIB_T GEAR_CALIB_P BUS_ID".split()
SPECIAL = ["MOTORTEST", "move_to_range", "disambiguate_theta", "homing", "limit seek"]
SIGMAS = [1, 2, 3, 4, 5, math.inf]
FUNC = dict(MAX=max, MIN=min, MEAN=lambda v: math.fsum(v) / len(v), MEDIAN=lambda v: (sorted(v)[(len(v) - 1) // 2] + sorted(v)[len(v) // 2]) / 2,
            STD=lambda v: math.sqrt(math.fsum((x - math.fsum(v) / len(v)) ** 2 for x in v) / len(v)), RMS=lambda v: math.sqrt(math.fsum(x * x for x in v) / len(v)))


@contextlib.contextmanager
def no_plots():
    """charts are not drawn"""
    from unittest import mock
    import matplotlib, matplotlib.pyplot, astropy.visualization, astropy.stats
    fake = mock.MagicMock()
    fake.xlim.return_value = fake.ylim.return_value = (0., 1.)
    with mock.patch.dict(sys.modules, {"matplotlib.pyplot": fake}), mock.patch.object(matplotlib, "pyplot", fake), \
            mock.patch.object(astropy.visualization, "hist", lambda data, bins=10, **kw: (np.zeros(1), bins, None)), mock.patch.object(astropy.stats, "knuth_bin_width", lambda data, return_bins=False: (1., np.arange(5.))):
        yield


def world(c, rs, legacy):
    """moves and corrections of a few positioners"""
    from desimeter.transform import pos2ptl
    from desimeter.transform.ptl2fp import ptl2fp
    from desimeter.transform.xy2qs import xy2qs
    rows, expid = [], int(rs.randint(100, 90000))
    exps = [expid + 3 * k for k in range(c["nexp"])]
    start = datetime.datetime(2021, 3, 1, 2) + datetime.timedelta(seconds=int(rs.randint(80000)))
    for k in range(c["npos"]):
        pid, petal = "M%05d" % (rs.randint(1, 900) * 10 + k), int(rs.randint(0, 10))
        r1, r2, ox, oy, ot, op = rs.uniform(2.9, 3.1), rs.uniform(2.9, 3.1), rs.uniform(60, 340), rs.uniform(-60, 60), rs.uniform(-180, 180), rs.uniform(-10, 10)
        index, nodata = int(rs.randint(5)), rs.rand() < .1
        for ie, e in enumerate(exps):
            if rs.rand() < .1:
                continue
            if rs.rand() < .3:                # calibrated again
                ox, oy, r1, ot = ox + rs.uniform(-.1, .1), oy + rs.uniform(-.1, .1), r1 + rs.uniform(-.02, .02), ot + rs.uniform(-3, 3)
            it, special = 0, rs.rand() < .15
            gear = float(rs.choice([1., 1., .8, 0.])), float(rs.choice([1., 1., .8]))
            for m in range(int(rs.randint(1, c["nmove"] + 1))):
                t, p = float(rs.uniform(-170, 170)), float(rs.uniform(5, 175))
                x, y = (float(v[0]) for v in pos2ptl.int2ptl(t, p, r1, r2, ot, op, ox, oy))
                kind = str(rs.choice(["poslocTP", "posintTP", "obsXY", "QS", "ptlXY", "poslocXY"]))
                ax, ay = (float(v[0]) for v in ptl2fp(petal, np.array([x]), np.array([y]))[:2])
                q, s = (float(v) for v in xy2qs(ax, ay))
                lx, ly = (float(np.ravel(v)[0]) for v in pos2ptl.int2loc(t, p, r1, r2, ot, op))
                arg = dict(poslocTP=(t + ot, p + op), posintTP=(t, p), obsXY=(ax, ay), QS=(q, s), ptlXY=(x, y), poslocXY=(lx, ly))[kind]
                mx, my, nsub = x, y, int(rs.randint(1, 4))
                tell, tellmove, lost = rs.rand() < .7, rs.rand() < .8 or not legacy, 0
                for i in range(nsub):
                    ix, iy = mx, my                                   # where it was measured before
                    mx, my = x + float(rs.normal(0, .03 / (1 + 4 * i))), y + float(rs.normal(0, .03 / (1 + 4 * i)))
                    when = start + datetime.timedelta(seconds=float(190000 * ie + 300 * m + 60 * i + rs.uniform(0, 20)))
                    flags = {"MATCHED"} | {str(f) for f in ("POSITIONER", "PINHOLE", "MOVED", "CONVERGED", "AMBIGUOUS", "ASSIGNED", "OVERLAP") if rs.rand() < .15}
                    note = ["sequence: foo %d" % k] if rs.rand() < .6 else []
                    if rs.rand() < .5:
                        note.append("sequence_move_idx %d" % (m + 7))
                    if tellmove:
                        note.append("move %d" % m)
                    if tell:
                        note.append("submove %d" % i)
                    if rs.rand() < .25:
                        note.append("collision avoidance: [%s]" % "|| ".join("'M%05d'" % v for v in rs.randint(0, 99999, rs.randint(1, 4))))
                    if special and rs.rand() < .7:
                        note.append("%s test" % rs.choice(SPECIAL[2:] if legacy else SPECIAL))
                    if rs.rand() < .12:
                        flags |= {str(rs.choice(["FROZEN", "REJECTED", "FROZEN"]))}
                    sep = str(rs.choice(["|| ", "| ", ", "]))
                    if not legacy:
                        full = rs.rand()
                        if full < .97:
                            note.append("req_posintTP=(%s)" % sep.join(repr(float(v + rs.normal(0, .1))) for v in (t, p)))
                        if full > .03:
                            note.append("req_ptlXYZ=(%s)" % sep.join(repr(v) for v in (x, y, -3.)))
                    cmd = "%s=[%r, %r]" % (kind, arg[0], arg[1])
                    dx, dy = float(rs.uniform(-.1, .1)), float(rs.uniform(-.1, .1))
                    if i:
                        cmd = "%s=[%r, %r]" % (str(rs.choice(["poslocdXdY", "obsdXdY", "dTdP"])), dx, dy)
                    if rs.rand() < .2:
                        cmd += "; (auto backlash)"
                    seen = not lost and not nodata and rs.rand() > (.05 if i == nsub - 1 or i == 0 else 0)
                    if not seen:
                        lost = 1
                    why = rs.randint(4)
                    if not seen and why < 2:
                        flags -= {"MATCHED"}
                        flags |= {"MISSINGSPOT"}
                    rows.append(dict(POS_ID=pid, POS_MOVE_INDEX=index, POS_T=t + float(rs.normal(0, .02)), POS_P=p, PTL_X=None if not seen and why == 2 else mx, PTL_Y=my, LENGTH_R1=float(r1), LENGTH_R2=float(r2), OFFSET_X=float(ox), OFFSET_Y=float(oy), OFFSET_T=float(ot), OFFSET_P=float(op),
                                     MOVE_CMD=None if not seen and why == 3 else cmd, EXPOSURE_ID=e, EXPOSURE_ITER=it, DEVICE_LOC=5 + k, DATE=when.isoformat(" "), LOG_NOTE="; ".join(note), PETAL_LOC=petal, FLAGS=sum(1 << BITS[f] for f in flags), POSTSCRIPT="" if rs.rand() < .5 else "p", CALIB_NOTE="c", PETAL_ID=3, GEAR_CALIB_T=gear[0], GEAR_CALIB_P=gear[1], BUS_ID=10))
                    index, it = index + 1, it + int(rs.choice([1, 1, 2]))
                    if not seen and i == 0 and rs.rand() < .5:
                        break
    return rows


def near(a, b, tol=1e-7):
    return abs(float(a) - b) <= tol * max(1, abs(b))


def analysed(rows, c, legacy):
    """the same selection and errors, row by row; {positioner: rows}"""
    from desimeter.transform import pos2ptl
    from desimeter.transform.ptl2fp import fp2ptl
    from desimeter.transform.xy2qs import qs2xy
    flag = lambda r: {f for f in BITS if r["FLAGS"] >> BITS[f] & 1}
    keep = []
    for r in rows:
        t, p = r["GEAR_CALIB_T"] != 1, r["GEAR_CALIB_P"] != 1
        if not legacy:
            if not c["dmin"] <= r["DATE"] <= c["dmax"] or not dict(include=True, exclude=not t and not p, t_or_p=t or p, t_and_p=t and p, t_only=t and not p, p_only=p and not t)[c["scale"]]:
                continue
            if not c["special"] and any(w in r["LOG_NOTE"] for w in SPECIAL):
                continue
        if not r["MOVE_CMD"] or r["PTL_X"] is None or "MATCHED" not in flag(r):
            continue
        keep.append(dict(r))
    flat = lambda x, y: [float(np.ravel(v)[0]) for v in pos2ptl.ptl2flat(x, y)]
    out = {}
    for pid in sorted({r["POS_ID"] for r in keep}):
        mine = sorted([r for r in keep if r["POS_ID"] == pid], key=lambda r: r["DATE"])
        last, count, s = None, 0, -1
        for i, r in enumerate(mine):
            if i == 0 or r["EXPOSURE_ID"] != mine[i - 1]["EXPOSURE_ID"]:
                count, s = 0, -1
            r["MOVE_COUNTER"], count = count, count + 1
            name, arg = r["MOVE_CMD"].split(";")[0].split("=")
            arg = [float(v) for v in arg.strip("[]").split(",")]
            note = [n.strip() for n in r["LOG_NOTE"].split(";")]
            s = s + 1 if "d" in name else 0
            r.update(MOVE=None, SEQUENCE="", SEQUENCE_MOVE_IDX=None, NUM=0, REQ_T=None, REQ=None)
            for n in note:
                w = n.split(" ")
                if w[0] == "submove":
                    s = int(w[1])
                elif w[0] == "move":
                    r["MOVE"] = int(w[1])
                elif w[0] == "sequence_move_idx":
                    r["SEQUENCE_MOVE_IDX"] = int(w[1])
                elif w[0] == "sequence:":
                    r["SEQUENCE"] = n[10:]
                elif n.startswith("collision avoidance: "):
                    r["NUM"] += n.count("M")
                elif n.startswith("req_"):
                    v = [float(u) for u in re.split(r"\|\||\||,", n.split("=")[1].strip("()"))]
                    if n.startswith("req_posintTP"):
                        r["REQ_T"] = v
                    else:
                        r["REQ"] = v[:2]
            r["SUBMOVE"] = s
            if not legacy and r["REQ"] and s > 0 and name in ("poslocdXdY", "obsdXdY"):
                a = math.radians(36 * (3 - r["PETAL_LOC"])) if name == "obsdXdY" else 0.
                b = mine[i - 1]
                r["REQ"] = [b["PTL_X"] + math.cos(a) * arg[0] - math.sin(a) * arg[1], b["PTL_Y"] + math.sin(a) * arg[0] + math.cos(a) * arg[1]]
            if legacy and s == 0:
                if name == "ptlXY":
                    last = flat(*arg)
                elif name in ("QS", "obsXY"):
                    x, y = qs2xy(*arg) if name == "QS" else arg
                    last = flat(*[float(np.ravel(v)[0]) for v in fp2ptl(r["PETAL_LOC"], x, y)[:2]])
                elif name == "poslocXY":
                    last = [arg[0] + r["OFFSET_X"], arg[1] + r["OFFSET_Y"]]
                else:
                    t, p = [math.radians(v) for v in (arg if name == "poslocTP" else (arg[0] + r["OFFSET_T"], arg[1] + r["OFFSET_P"]))]
                    last = [r["LENGTH_R1"] * math.cos(t) + r["LENGTH_R2"] * math.cos(t + p) + r["OFFSET_X"], r["LENGTH_R1"] * math.sin(t) + r["LENGTH_R2"] * math.sin(t + p) + r["OFFSET_Y"]]
            if legacy:
                r["last"] = last
        first = {(r["MOVE"], r["EXPOSURE_ID"]) for r in mine if r["SUBMOVE"] == 0}
        mine = [r for r in mine if r["SUBMOVE"] == 0 or (r["MOVE"], r["EXPOSURE_ID"]) in first]
        if not legacy:
            mine = [r for r in mine if r["REQ"] and r["REQ_T"]]
        for r in mine:
            r["ACCEPTED"] = not flag(r) & {"FROZEN", "REJECTED"}
            r["FLAGSET"] = flag(r) - set(HIDDEN)
            r["FROZEN"] = "FROZEN" in flag(r)
            seen = flat(r["PTL_X"], r["PTL_Y"])
            tracked = flat(*[float(np.ravel(v)[0]) for v in pos2ptl.int2ptl(*[r[n] for n in ("POS_T", "POS_P", "LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y")])])
            r["LOC_TRACKED"] = [tracked[0] - r["OFFSET_X"], tracked[1] - r["OFFSET_Y"]]
            want = r["last"] if legacy else flat(*r["REQ"])
            r["LOC_REQUESTED"] = [want[0] - r["OFFSET_X"], want[1] - r["OFFSET_Y"]]
            for tag in ("TRACKED", "REQUESTED"):
                r["ERR_" + tag] = [seen[0] - r["OFFSET_X"] - r["LOC_" + tag][0], seen[1] - r["OFFSET_Y"] - r["LOC_" + tag][1]]
        if mine and all(any(r["ACCEPTED"] for r in mine if r["SUBMOVE"] == s) for s in {r["SUBMOVE"] for r in mine}):
            mine.sort(key=lambda r: (r["EXPOSURE_ID"], r["EXPOSURE_ITER"]))
            for i, r in enumerate(mine):
                r["NUM_IMAGES"] = r["EXPOSURE_ITER"] - mine[i - 1]["EXPOSURE_ITER"] if i and mine[i - 1]["EXPOSURE_ID"] == r["EXPOSURE_ID"] else -1
            out[pid] = mine
    return out


def pick(rows, tag, s):
    return [r for r in rows if r["SUBMOVE"] == s and (tag != "ACCEPTED" or r["ACCEPTED"])]


def err(r, tag):
    return math.hypot(*r["ERR_" + ("TRACKED" if tag == "TRACKED" else "REQUESTED")])


def midpoint(v, q):
    v = sorted(v)
    h = (len(v) - 1) * q
    return (v[math.floor(h)] + v[math.ceil(h)]) / 2


def table(fn):
    with open(fn, newline="") as f:
        return list(csv.DictReader(f))


CASE = dict(seed=gen.seeds(), npos=st.sampled_from([3, 1, 2, 4, 6]), nexp=st.sampled_from([2, 1, 3, 4]), nmove=st.sampled_from([3, 1, 2, 5]), split=st.sampled_from(["one", "petals", "exposures", "folder"]))


def check(c, ctx, legacy):
    rs = np.random.RandomState(c["seed"] % 2**32)
    rows = world(c, rs, legacy)
    if not legacy:
        days = [datetime.date(2021, 2, 27) + datetime.timedelta(days=int(v)) for v in sorted(rs.randint(0, 11, 2))]
        if not c["dates"]:
            days = [datetime.date(2001, 1, 1), datetime.date(2099, 1, 1)]
        c = dict(c, dmin=str(days[0]), dmax=str(days[1]))
        ctx.label("scale filter", c["scale"] != "include")
        ctx.label("dates", c["dates"])
        if any(r["DATE"][:10] == c["dmax"] for r in rows):
            c["dmax"] = str(days[1] + datetime.timedelta(days=10))
    want = analysed(rows, c, legacy)
    allrows = [r for p in want for r in want[p]]
    ctx.nontrivial(len(want) > 1 and any(r["SUBMOVE"] for r in allrows))
    if not any((r["MOVE_CMD"] and r["PTL_X"] is not None and r["FLAGS"] & 1) for r in rows):
        return
    ctx.label("rows left out", len(allrows) < len(rows))
    with tempfile.TemporaryDirectory() as tmp:
        d = os.path.join(tmp, "csv in")
        os.makedirs(d)
        part = {}
        for r in [rows[i] for i in rs.permutation(len(rows))]:
            part.setdefault(r["EXPOSURE_ID"] % 4 if c["split"] == "exposures" else r["POS_ID"] if c["split"] != "one" else 0, []).append(r)
        for k in part:
            with open(os.path.join(d, "f%s.csv" % k), "w", newline="") as f:
                w = csv.writer(f)
                w.writerow(COLS)
                w.writerows([["" if r[q] is None else repr(r[q]) if isinstance(r[q], float) else r[q] for q in COLS] for r in part[k]])
        if c["split"] == "folder":
            with open(os.path.join(d, "README.txt"), "w") as f:
                f.write("nothing\n")
            with open(os.path.join(d, "other.csv"), "w") as f:
                f.write("POS_ID,X\nM00001,3\n")
        src = d if c["split"] == "folder" else os.path.join(d, "f*.csv")
        out = os.path.join(tmp, "x", "out")
        argv = ["-i", src, "-o", out, "-np", "1", "-top", c["top"]]
        if not legacy:
            argv += (["-sout"] if c["sparse"] else []) + (["-spec"] if c["special"] else []) + (["-dmin", c["dmin"], "-dmax", c["dmax"]] if c["dates"] else []) + (["-scl", c["scale"]] if c["scale"] != "include" else [])
        with no_plots():
            try:
                rc, text = cli.run("analyze_pos_performance" + ("_legacy" if legacy else ""), argv)
            except AssertionError as e:
                ctx.expect(not want and "No data" in str(e), "stopped with {!r} although {} positioners can be analysed", e, len(want))
                return
        ctx.expect(rc == 0, "exit status {}", rc)
        files = {}
        for f in sorted(os.listdir(out)):
            m = re.match(r"expid_.*?_(moves\.csv|stats_by_positioner\.csv|report\.txt|stats_summary_[A-Z]+\.csv)$", f)
            if m:
                files[m.group(1)] = os.path.join(out, f)
        if not want:
            ctx.expect(not files, "files {} although nothing can be analysed", files)
            return
        ctx.expect(len(files) == 6, "files {}", sorted(os.listdir(out)))
        moves, stats = table(files["moves.csv"]), table(files["stats_by_positioner.csv"])
        summary = {t: table(files["stats_summary_%s.csv" % t]) for t in ("TRACKED", "REQUESTED", "ACCEPTED")}
        report = open(files["report.txt"]).read()
    # moves
    key = lambda r: (str(r["POS_ID"]), int(r["POS_MOVE_INDEX"]))
    got = {key(g): g for g in moves}
    ctx.expect(sorted(map(key, moves)) == sorted(map(key, allrows)), "moves {} instead of {}", sorted(map(key, moves)), sorted(map(key, allrows)))
    ctx.expect([g["DATE"] for g in moves] == sorted(g["DATE"] for g in moves), "rows are not in order of date")
    for r in allrows:
        g, k = got[key(r)], key(r)
        for n in ("SUBMOVE", "MOVE_COUNTER", "EXPOSURE_ID", "EXPOSURE_ITER", "NUM_IMAGES", "DEVICE_LOC"):
            ctx.expect(int(g[n]) == r[n], "{} of {} is {} instead of {}", n, k, g[n], r[n])
        ctx.expect(int(g["NUM_COLLISION_AVOIDANCES"]) == r["NUM"] and (g["FROZEN"] == "True") == r["FROZEN"] and (g["ACCEPTED"] == "True") == r["ACCEPTED"], "avoidances, frozen, accepted of {}: {}", k, (g["NUM_COLLISION_AVOIDANCES"], g["FROZEN"], g["ACCEPTED"]))
        ctx.expect(g["SEQUENCE"] == r["SEQUENCE"], "sequence of {}: {!r} instead of {!r}", k, g["SEQUENCE"], r["SEQUENCE"])
        ctx.expect((g["MOVE"] in ("", "None", "--")) if r["MOVE"] is None else g["MOVE"] == str(r["MOVE"]), "move of {}: {!r} instead of {!r}", k, g["MOVE"], r["MOVE"])
        ctx.expect(set(g["FLAG_STRINGS"].split(" || ")) - {""} == r["FLAGSET"], "flags of {}: {!r} instead of {}", k, g["FLAG_STRINGS"], r["FLAGSET"])
        for tag in ("TRACKED", "REQUESTED"):
            e = r["ERR_" + tag]
            ctx.expect(near(g["ERR_X_" + tag], e[0]) and near(g["ERR_Y_" + tag], e[1]) and near(g["ERR_XY_" + tag], math.hypot(*e)), "{} error of {} (submove {}, {}): {} instead of {}", tag.lower(), k, r["SUBMOVE"], r["MOVE_CMD"], (g["ERR_X_" + tag], g["ERR_Y_" + tag], g["ERR_XY_" + tag]), e)
            l = r["LOC_" + tag]
            ctx.expect(near(g["LOC_X_" + tag], l[0]) and near(g["LOC_Y_" + tag], l[1]) and near(g["RADIUS_" + tag], math.hypot(*l)), "{} local position of {}: {} instead of {}", tag.lower(), k, (g["LOC_X_" + tag], g["LOC_Y_" + tag], g["RADIUS_" + tag]), l)
        ctx.expect(near(g["PTL_X_MEASURED"], r["PTL_X"], 1e-5) and near(g["PTL_Y_MEASURED"], r["PTL_Y"], 1e-5), "measured position of {}", k)
    # positioners
    have = {(g["POS_ID"], int(g["SUBMOVE"])): g for g in stats}
    pairs = sorted((p, s) for p in want for s in {r["SUBMOVE"] for r in want[p]})
    ctx.expect(sorted(have) == pairs and len(stats) == len(pairs), "positioners and submoves {} instead of {}", sorted(have), pairs)
    for p, s in pairs:
        for tag in ("TRACKED", "REQUESTED", "ACCEPTED"):
            v = [err(r, tag) for r in pick(want[p], tag, s)]
            g = have[p, s]
            ctx.expect(int(g["N_TARGETS_" + tag]) == len(v), "{} targets of {} submove {}: {} instead of {}", tag.lower(), p, s, g["N_TARGETS_" + tag], len(v))
            for n in FUNC:
                ctx.expect(near(g[n + "_" + tag], FUNC[n](v)), "{} {} error of {} submove {}: {} instead of {}", n, tag.lower(), p, s, g[n + "_" + tag], FUNC[n](v))
        if not legacy:
            for x in "TP":
                ctx.expect(float(g["GEAR_CALIB_%s_MIN" % x]) == min(r["GEAR_CALIB_" + x] for r in pick(want[p], "TRACKED", s)), "scale {} of {} submove {}: {}", x, p, s, g["GEAR_CALIB_%s_MIN" % x])
    # quantiles
    ties = False
    for tag in ("TRACKED", "REQUESTED", "ACCEPTED"):
        ceil = {}
        for s in sorted({r["SUBMOVE"] for r in allrows}):
            mine = pick(allrows, tag, s)
            v = [err(r, tag) for r in mine]
            for r in mine:
                c2 = [q for q in SIGMAS if err(r, tag) <= midpoint(v, 1 - math.exp(-q)) + 1e-9]
                ceil[key(r)] = c2[0] if c2 else math.inf
                if any(abs(err(r, tag) - midpoint(v, 1 - math.exp(-q))) < 1e-9 for q in SIGMAS[:-1]) and len(v) > 1 and any(abs(a - b) < 1e-8 for i, a in enumerate(v) for b in v[:i]):
                    ties = True
        if ties:
            continue
        for r in allrows:
            w = ceil.get(key(r), math.inf)
            ctx.expect(float(got[key(r)]["SIGMA_CEILING_" + tag]) == w, "{} quantile group of {}: {} instead of {}", tag.lower(), key(r), got[key(r)]["SIGMA_CEILING_" + tag], w)
        groups = sorted({float(got[key(r)]["SIGMA_CEILING_" + tag]) for r in allrows})
        sm = {(int(g["SUBMOVE"]), float(g["SIGMA"])): g for g in summary[tag]}
        ctx.expect(sorted(sm) == [(s, q) for s in sorted({r["SUBMOVE"] for r in allrows}) for q in groups], "{} summary rows {}", tag.lower(), sorted(sm))
        for (s, q), g in sm.items():
            v = [err(r, tag) for r in pick(allrows, tag, s) if ceil[key(r)] <= q]
            ctx.expect(int(g["N_TARGETS"]) == len(v) and near(g["QUANTILE"], 1 - math.exp(-q)), "{} summary of submove {} sigma {}: {} targets instead of {}, quantile {}", tag.lower(), s, q, g["N_TARGETS"], len(v), g["QUANTILE"])
            for n in FUNC:
                ctx.expect(near(g[n], FUNC[n](v)), "{} {} error of submove {} sigma {}: {} instead of {}", n, tag.lower(), s, q, g[n], FUNC[n](v))
    # worst moves
    for tag in ("TRACKED", "REQUESTED", "ACCEPTED"):
        lines = report.split("errors for %s targets...\n" % tag)
        ctx.expect(len(lines) == 2, "no worst errors for {}", tag)
        lines = lines[1].split("\n\nTop ")[0].splitlines()[2:]
        v = sorted((err(r, tag) for r in allrows if tag != "ACCEPTED" or r["ACCEPTED"]), reverse=True)[:int(c["top"])]
        worst = [float(l.split()[-1]) for l in lines if l.strip()]
        ctx.expect(len(worst) == len(v) and all(abs(a - 1000 * b) < .06 for a, b in zip(worst, v)), "worst {} errors {} instead of {}", tag.lower(), worst, [round(1000 * b, 1) for b in v])


@sub(P, lambda: fixed(sparse=st.booleans(), special=st.sampled_from([False, False, True]), dates=st.sampled_from([False, False, True]), scale=st.sampled_from(["include", "include", "include", "exclude", "t_only", "p_only", "t_or_p", "t_and_p"]), top=st.sampled_from([10, 1, 3]), **CASE), 120, 1200, "several positioners with corrections", shards=4)
def performance(c, ctx):
    """analyze_pos_performance"""
    check(c, ctx, False)


@sub(P, lambda: fixed(top=st.sampled_from([10, 1, 3]), **CASE), 60, 600, "several positioners with corrections", shards=2)
def legacy(c, ctx):
    """analyze_pos_performance_legacy: requests taken from the commands"""
    check(c, ctx, True)
