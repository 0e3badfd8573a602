"""C29 preparation of fitted parameters for the instrument"""
import contextlib, glob, io, os, tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, cli, fresh
from vf.gen import fixed

P = "C29"
STATIC = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
BOUNDS = dict(LENGTH_R1=(2.5, 3.5), LENGTH_R2=(2.5, 3.5), OFFSET_T=(-200., 200.), OFFSET_P=(-30., 30.), OFFSET_X=(-500., 500.), OFFSET_Y=(-500., 500.))
REQUIRED = ["POS_ID", "FLAGS", "DEVICE_LOC", "NUM_POINTS", "DATA_END_DATE", "FIT_ERROR_STATIC", "NUM_POINTS_IN_FIT_STATIC"] + STATIC
DISABLE, WHY = "DEVICE_CLASSIFIED_NONFUNCTIONAL", "ENABLE_DISABLE_RATIONALE"
TOLS = dict(check_num_outliers=2, check_fit_error=.03, check_static_fit_bounds=.001, check_xy_offsets=.5, check_arm_lengths=.5)


def make(rs, n, suffix, flaw, repeat):
    """rows of a table of fits, most of them good"""
    from desimeter.io import load_nominal_positioner_locations
    nom = load_nominal_positioner_locations()
    nom = nom[np.array(nom["DEVICE_TYPE"]) == "POS"]
    rows = []
    for i in range(n):
        k = rs.randint(len(nom))
        a, d = rs.uniform(0, 2 * np.pi), .3 * rs.uniform()
        npts = int(rs.randint(20, 80))
        r = dict(POS_ID="M%05d" % (100 + i), FLAGS=0, DEVICE_LOC=int(nom["DEVICE_LOC"][k]), NUM_POINTS=npts, DATA_END_DATE="2020-0%d-10T00:00:00" % rs.randint(1, 10), FIT_ERROR_STATIC=round(rs.uniform(.002, .029), 6), FIT_ERROR_DYNAMIC=round(rs.uniform(.002, .05), 6),
                 NUM_POINTS_IN_FIT_STATIC=npts - int(rs.randint(0, 3)), NUM_POINTS_IN_FIT_DYNAMIC=npts - int(rs.randint(0, 9)))
        v = dict(LENGTH_R1=rs.uniform(2.7, 3.3), LENGTH_R2=rs.uniform(2.7, 3.3), OFFSET_T=rs.uniform(-180, 180), OFFSET_P=rs.uniform(-20, 20), OFFSET_X=nom["X_FLAT"][k] + d * np.cos(a), OFFSET_Y=nom["Y_FLAT"][k] + d * np.sin(a))
        for q in STATIC:
            r[q] = round(float(v[q]), 6)
        r.update(SCALE_T=round(rs.uniform(.5, 1), 5), SCALE_P=round(rs.uniform(.5, 1), 5))
        if rs.rand() < flaw:
            for w in rs.permutation(9)[:rs.randint(1, 3)]:
                if w == 0:
                    r["FLAGS"] = int(rs.choice([1, 2, 4, 8, 16, 3, 20]))
                elif w == 1:
                    r["NUM_POINTS_IN_FIT_STATIC"] = npts - int(rs.choice([3, 4, 8]))
                elif w == 2:
                    r["FIT_ERROR_STATIC"] = float(rs.choice([.0301, .031, .045, .2]))
                elif w == 3:
                    q = rs.choice(["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P"])
                    lo, hi = BOUNDS[q]
                    r[q] = round(float(rs.choice([lo, hi, lo + .0005 * (hi - lo), hi - .0005 * (hi - lo), lo + .002 * (hi - lo), hi - .002 * (hi - lo)])), 6)
                elif w in (4, 5):
                    r["OFFSET_" + "XY"[w - 4]] = round(float(nom["XY"[w - 4] + "_FLAT"][k] + rs.choice([-1, 1]) * rs.choice([.49, .51, .7, 5.])), 6)
                elif w == 6:
                    r[rs.choice(["LENGTH_R1", "LENGTH_R2"])] = float(rs.choice([2.45, 2.4, 3.55, 3.7]))
                else:
                    r[str(rs.choice(REQUIRED))] = None
        if rs.rand() < .1:
            r["FIT_ERROR_DYNAMIC"] = None
        rows.append(r)
        while repeat and rs.rand() < .3:
            q = dict(r)
            q.update(FIT_ERROR_STATIC=round(rs.uniform(.002, .04), 6), OFFSET_T=round(rs.uniform(-180, 180), 6))
            rows.append(q)
    rows = [rows[i] for i in rs.permutation(len(rows))]
    for i, r in enumerate(rows):
        r["ROW"] = i                        # a column the tool does not know, which must follow its row
    lost = [r for r in rows if r["POS_ID"] is None]
    for r in lost if len(lost) == len(rows) else lost[1:]:
        r["POS_ID"] = "M99999"
    names = {q: q + "_STATIC" if suffix else q for q in STATIC}
    names.update({q: q + "_DYNAMIC" if suffix else q for q in ("SCALE_T", "SCALE_P")})
    return rows, names


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.sampled_from([4, 1, 2, 3, 6, 10]), suffix=st.booleans(), flaw=gen.uni(0, .9), repeat=st.booleans(), enabling=st.booleans(), scale=st.booleans(), adjust=st.booleans(), old=st.booleans()), 240, 2400, "some kept and some excluded", shards=4)
def selection(c, ctx):
    """the prepared table holds exactly the rows within all limits, with the values agreed to be committed"""
    rs = np.random.RandomState(c["seed"] % 2**32)
    rows, names = make(rs, c["n"], c["suffix"], c["flaw"], c["repeat"])
    tols = dict(TOLS)
    plan = {}
    if c["adjust"]:
        for k, v in dict(check_num_outliers=[0, 5.], check_fit_error=[.0205, .5], check_static_fit_bounds=[.0001, .1], check_xy_offsets=[.1, .6], check_arm_lengths=[.2, .65]).items():
            if rs.rand() < .4:
                plan[k] = [float(rs.choice(v)) for i in range(rs.randint(1, 3))]
                tols[k] = plan[k][-1]
    agreed = {q: bool(rs.rand() < .6) for q in STATIC + [DISABLE]}
    keep = {"M99999": rs.rand()}
    keep.update({"M%05d" % (100 + i): rs.rand() for i in range(c["n"])})
    from desimeter.io import load_nominal_positioner_locations
    nom = load_nominal_positioner_locations()
    place = {int(l): (float(x), float(y)) for l, x, y in zip(nom["DEVICE_LOC"], nom["X_FLAT"], nom["Y_FLAT"])}

    def good(r):
        if any(r[q] is None for q in REQUIRED):
            return False
        t, x = tols["check_static_fit_bounds"], place[r["DEVICE_LOC"]]
        return r["NUM_POINTS"] - r["NUM_POINTS_IN_FIT_STATIC"] <= tols["check_num_outliers"] and r["FIT_ERROR_STATIC"] <= tols["check_fit_error"] and r["FLAGS"] == 0 and \
            all(lo + t * (hi - lo) <= r[q] <= hi - t * (hi - lo) for q, (lo, hi) in BOUNDS.items()) and \
            all(abs(r["OFFSET_" + u] - v) <= tols["check_xy_offsets"] for u, v in zip("XY", x)) and all(abs(r[q] - 3) <= tols["check_arm_lengths"] for q in ("LENGTH_R1", "LENGTH_R2"))

    ok = {r["ROW"]: good(r) for r in rows}
    final = [r for r in rows if c["enabling"] or ok[r["ROW"]]]
    chosen = []
    for pid in sorted({r["POS_ID"] for r in final if r["POS_ID"]}):
        mine = [r for r in final if r["POS_ID"] == pid]
        if len(mine) > 1:
            k = int(keep[pid] * (len(mine) + 1))
            keep[pid] = "skip" if k == len(mine) else str(k)
            mine = [] if k == len(mine) else [mine[k]]
        chosen += mine
    chosen += [r for r in final if r["POS_ID"] is None]
    ctx.nontrivial(0 < len(chosen) < len(rows) or c["enabling"] and len(set(ok.values())) > 1)
    ctx.label("repeated", len({r["POS_ID"] for r in rows}) < len(rows)); ctx.label("adjusted limits", bool(plan)); ctx.label("missing values", any(r[q] is None for r in rows for q in REQUIRED))
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "in.csv")
        keys = list(rows[0])
        extra = {DISABLE: ["True", "False"][rs.randint(2)], "COMMIT_OFFSET_X": "True"} if c["old"] else {}
        with open(fn, "w") as f:
            f.write(",".join([names.get(k, k) for k in keys] + list(extra)) + "\n")
            for r in rows:
                f.write(",".join(["" if r[k] is None else repr(r[k]) if isinstance(r[k], float) else str(r[k]) for k in keys] + list(extra.values())) + "\n")
        asked = dict.fromkeys(TOLS, 0)
        state = dict(n=0, check=None)

        def answer(prompt=""):
            state["n"] += 1
            if state["n"] > 500:
                raise RuntimeError("endless questions")
            log = open(glob.glob(os.path.join(tmp, "*.log"))[0]).read()
            q = log[log.rindex("PROMPT: ") + 8:].strip()
            if "commit" in q:
                k = q.split("commit ")[1].split()[0]
                return ["no", "n", "False"][state["n"] % 3] if not agreed[k] else ["y", "yes", "True"][state["n"] % 3]
            if "Repeat" in q:
                k = state["check"] = q.split("Repeat ")[1].split()[0]
                return "y" if asked[k] < len(plan.get(k, [])) else "n"
            if "Enter new" in q:
                k = state["check"]
                asked[k] += 1
                return str(plan[k][asked[k] - 1])
            if "OPTION" in q:
                k = log[:log.rindex(" has multiple rows")].split(":")[-1].split()[-1]
                return keep[k]
            if "confirm" in q:
                return "y"
            return ""

        with mock.patch("builtins.input", answer), mock.patch.dict(os.environ, DESI_LOGLEVEL="INFO"), contextlib.redirect_stderr(io.StringIO()), fresh.loggers():
            rc, text = cli.run("prepare_posparams_for_instr", ["-i", fn] + (["-e"] if c["enabling"] else []) + (["-a"] if c["scale"] else []))
        ctx.expect(rc == 0, "exit status {}", rc)
        files = [f for f in os.listdir(tmp) if f.endswith("_posparams_for_instr.csv")]
        ctx.expect(len(files) == 1, "files {}", os.listdir(tmp))
        from checks.c30 import read, num, nothing
        t = read(os.path.join(tmp, files[0]))
    ctx.expect([int(v) for v in t["ROW"]] == [r["ROW"] for r in rows if any(r is v for v in chosen)], "rows {} kept instead of {}; acceptable {}", [int(v) for v in t["ROW"]], [r["ROW"] for r in rows if any(r is v for v in chosen)], ok)
    for g in t:
        r = rows[int(g["ROW"])]
        for k in keys:
            v = g[k]
            ctx.expect(nothing(v) if r[k] is None else str(v) == r[k] if isinstance(r[k], str) else num(v) == r[k], "{} of {} is {} instead of {}", k, r["POS_ID"], v, r[k])
        bad = c["enabling"] and not ok[r["ROW"]]
        ctx.expect(num(g[DISABLE]) == bad, "{} marked nonfunctional: {}, acceptable: {}", r["POS_ID"], g[DISABLE], ok[r["ROW"]])
        for q in STATIC + ["SCALE_T", "SCALE_P", "PHYSICAL_RANGE_T", "PHYSICAL_RANGE_P", DISABLE]:
            want = agreed.get(q, False) and (q == DISABLE or not bad)
            ctx.expect(num(g["COMMIT_" + q]) == want, "{} of {} to be committed: {} instead of {}", q, r["POS_ID"], g["COMMIT_" + q], want)
        if c["enabling"]:
            ctx.expect(str(g[WHY]).startswith("%s=%s" % (DISABLE, bool(bad))), "reason given for {} is {!r}", r["POS_ID"], g[WHY])
