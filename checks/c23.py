"""C23 calibration of positioners"""
import contextlib, copy, io, os, re, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub, HarnessError
from vf import gen
from vf.gen import fixed, uni, mix
from vf.fresh import Package

P = "C23"
STATIC = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
D = np.pi / 180
NAME = "(%s|SCALE_[TP]|EPSILON_[TP]_[0-9]+)_(STATIC|DYNAMIC)" % "|".join(STATIC)


# own model of a positioner: two arms at the given angles, on the curved surface of the petal
def flat(t, p, g, dT=0., dP=0.):
    a, b = D * (t + g["OFFSET_T"] + dT), D * (p + g["OFFSET_P"] + dP)
    u = g["OFFSET_X"] + g["LENGTH_R1"] * np.cos(a) + g["LENGTH_R2"] * np.cos(a + b)
    v = g["OFFSET_Y"] + g["LENGTH_R1"] * np.sin(a) + g["LENGTH_R2"] * np.sin(a + b)
    return u, v


def place(t, p, g, dT=0., dP=0.):
    from desimeter.transform.pos2ptl import flat2ptl        # the petal surface is checked by C09
    return flat2ptl(*flat(t, p, g, dT, dP))


def geometry(rs):
    R, A = rs.uniform(30, 400), rs.uniform(-20, 20) * D
    return dict(LENGTH_R1=rs.uniform(2.55, 3.45), LENGTH_R2=rs.uniform(2.55, 3.45), OFFSET_T=rs.uniform(-180, 180), OFFSET_P=rs.uniform(-25, 25),
                OFFSET_X=R * np.cos(A), OFFSET_Y=R * np.sin(A), SCALE_T=1., SCALE_P=1.)


def moves(rs, kind):
    """the calibration moves: an arc of each axis, or a grid"""
    if kind == "arcs":
        n, m = rs.randint(6, 15), rs.randint(4, 10)
        t = np.r_[rs.uniform(-170, -150) + np.arange(n) * rs.uniform(200, 300) / n, np.full(m, rs.uniform(-150, 150))]
        p = np.r_[np.full(n, rs.uniform(80, 125)), np.linspace(40, 170, m)]
    elif kind == "grid":
        n = rs.randint(5, 8)
        t, p = np.repeat(np.linspace(-160, 120, n), 4), np.tile(np.linspace(60, 160, 4), n)
    else:
        n = rs.randint(12, 40)
        t, p = rs.uniform(-180, 180, n), rs.uniform(20, 170, n)
    return t, p


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def fit(fitter, t, p, x, y, rehome=None, seq=None, gear=None, **kw):
    L = lambda v: np.asarray(v).tolist()
    n = len(t)
    args = [L(t), L(p), L(x), L(y), [1.] * n if gear is None else L(gear[0]), [1.] * n if gear is None else L(gear[1]), [True] * n if rehome is None else L(rehome), [0] * n if seq is None else L(seq)]
    keep = copy.deepcopy((args, kw))
    r = quiet(fitter.fit_params, *args, **kw)
    if (args, kw) != keep:
        bad = [k for k in kw if kw[k] != keep[1][k]] or "the lists of moves"
        from vf.core import Violation
        raise Violation("fit_params modified its arguments: %s" % bad)
    return r


def module():
    from desimeter.posparams import fitter
    return fitter


def wrap(a):
    return (a + 180) % 360 - 180


def check_values(ctx, b, g, tang, tlen, what, keys=STATIC):
    for k in keys:
        d = b[k] - g[k]
        if k == "OFFSET_T":
            d = wrap(d)
        ctx.expect(abs(d) <= (tang if k in ("OFFSET_T", "OFFSET_P") else tlen), "{}: {} = {} instead of {} (all {})", what, k, b[k], g[k], b)
    ctx.expect(-180 <= b["OFFSET_T"] <= 180, "{}: OFFSET_T={}", what, b["OFFSET_T"])


def check_cov(ctx, b, cov, fixed_keys, free):
    for k in fixed_keys:
        ctx.expect(cov["COV.%s.%s" % (k, k)] == 0, "variance of the fixed {}", k)
    for i, k in enumerate(free):
        ctx.expect(cov["COV.%s.%s" % (k, k)] >= 0, "variance of {}", k)
        for q in free[i + 1:]:
            ctx.expect(("COV.%s.%s" % (k, q) in cov) != ("COV.%s.%s" % (q, k) in cov), "covariance of {} and {} given once", k, q)


@sub(P, lambda: fixed(seed=gen.seeds(), kind=st.sampled_from(["arcs", "arcs", "grid", "random"]), nominals=st.sampled_from(["default", "given", "near"]), fix=st.sampled_from([[], [], [], ["LENGTH_R1"], ["LENGTH_R2"], ["OFFSET_P"], ["OFFSET_X"], ["OFFSET_X", "OFFSET_Y"], ["LENGTH_R1", "LENGTH_R2"], ["SCALE_T"]]),
                      scale=st.sampled_from([1., 1., .8, .35]), nseq=st.sampled_from([0, 0, 1, 2, 3]), weights=st.booleans(), tight=st.booleans()), 300, 5000, "parameters start away from the solution, and two or more exposures, fixed parameters or given bounds", shards=8)
def static(c, ctx):
    """arm parameters of error-free moves are recovered, with fixed and bounded parameters, from several nominals"""
    F = module()
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    t, p = moves(rs, c["kind"])
    o = rs.permutation(len(t))
    t, p = t[o], p[o]
    n = len(t)
    x, y = place(t, p, g)
    kw = {}
    if c["kind"] == "random" or c["nominals"] == "near":
        kw["nominals"] = dict(g, LENGTH_R1=g["LENGTH_R1"] + rs.uniform(-.1, .1), LENGTH_R2=g["LENGTH_R2"] + rs.uniform(-.1, .1), OFFSET_T=g["OFFSET_T"] + rs.uniform(-8, 8), OFFSET_P=g["OFFSET_P"] + rs.uniform(-4, 4), OFFSET_X=g["OFFSET_X"] + rs.uniform(-.3, .3), OFFSET_Y=g["OFFSET_Y"] + rs.uniform(-.3, .3))
    elif c["nominals"] == "given" or c["fix"] or c["scale"] != 1 or abs(g["OFFSET_T"]) > 90:
        kw["nominals"] = dict(F.default_values)
    if c["fix"]:
        kw["nominals"].update({k: g[k] for k in c["fix"]})
        kw["keep_fixed"] = list(c["fix"])
    if c["kind"] != "random" and c["nominals"] != "near" and abs(g["OFFSET_T"]) > 90:     # a local fit: start within a quarter turn or so
        kw["nominals"]["OFFSET_T"] = float(wrap(g["OFFSET_T"] + rs.uniform(-60, 60)))
    if c["scale"] != 1:
        kw["nominals"].update(SCALE_T=c["scale"], SCALE_P=c["scale"])
    if c["tight"]:        # bounds around the solution
        kw.setdefault("nominals", dict(F.default_values))
        kw["bounds"] = dict(F.default_bounds)
        for k, w in [("LENGTH_R1", .2), ("LENGTH_R2", .2), ("OFFSET_P", 10.), ("OFFSET_T", 25.)]:
            kw["bounds"][k] = (g[k] - w * rs.uniform(.3, 1), g[k] + w * rs.uniform(.3, 1))
            if k not in c["fix"]:
                kw["nominals"][k] = float(np.clip(kw["nominals"][k], *kw["bounds"][k]))
    if c["weights"]:
        e = rs.uniform(.5, 2, n)
        kw["ptlXerr"], kw["ptlYerr"] = e.tolist(), (e * rs.uniform(.7, 1.4, n)).tolist()
    ctx.nontrivial(c["nseq"] > 0 or bool(c["fix"]) or c["tight"])
    ctx.label(c["kind"])
    defaults = copy.deepcopy((F.default_values, F.default_bounds))
    b, cov, rms, npts = fit(F, t, p, x, y, mode="static", **kw)
    ctx.expect("LENGTH_R1" in b, "{} noiseless moves refused: {}", c["kind"], b)
    ctx.expect(b["FLAGS"] == 0 and npts == n, "flags {} points {}", b["FLAGS"], npts)
    tang, tlen = .15, 3e-3
    ctx.expect(rms < 3e-3, "rms of residuals {} mm for noiseless moves ({})", rms, b)
    check_values(ctx, b, g, tang, tlen, "static fit")
    fx = sorted(set(c["fix"]) | {"SCALE_T", "SCALE_P"})
    for k in fx:
        ctx.expect(b[k] == kw.get("nominals", F.default_values)[k], "fixed {} moved to {}", k, b[k])
    free = [k for k in STATIC if k not in fx]
    for k in free:
        lo, hi = kw.get("bounds", F.default_bounds)[k]
        ctx.expect(lo <= b[k] <= hi or (k == "OFFSET_T" and (lo <= b[k] + 360 <= hi or lo <= b[k] - 360 <= hi)), "{}={} out of bounds {}", k, b[k], (lo, hi))
    ctx.expect(set(b) == set(STATIC + ["SCALE_T", "SCALE_P", "FLAGS"]), "parameters {}", sorted(b))
    check_cov(ctx, b, cov, fx, free)
    ctx.expect((F.default_values, F.default_bounds) == defaults, "default tables modified")
    if not c["nseq"]:
        return
    # more exposures, in which the tracked angles have drifted: the fit starts from the result of the first
    ns = c["nseq"]
    ids = rs.permutation(30)[:ns] + 1
    eT, eP = rs.uniform(-6, 6, ns), rs.uniform(-6, 6, ns)
    m = rs.randint(3, 7, ns)
    k = np.repeat(np.arange(ns), m)
    t2, p2 = rs.uniform(-170, 170, len(k)), rs.uniform(40, 150, len(k))
    x2, y2 = place(t2, p2, g, eT[k], eP[k])
    o = rs.permutation(n + len(k))
    cat = lambda u, v: np.r_[u, v][o]
    kw["nominals"] = {q: b[q] for q in STATIC + ["SCALE_T", "SCALE_P"]}
    for q in ("ptlXerr", "ptlYerr"):
        if q in kw:
            kw[q] = np.r_[kw[q], np.ones(len(k))][o].tolist()
    if c["tight"]:
        kw["bounds"] = dict(F.default_bounds)
    kw["nominals"]["OFFSET_T"] = float(np.clip(b["OFFSET_T"], -200, 200))
    b2, cov2, rms2, np2 = fit(F, cat(t, t2), cat(p, p2), cat(x, x2), cat(y, y2), cat(np.ones(n, bool), np.zeros(len(k), bool)), cat(np.zeros(n, int), ids[k]), mode="static", **kw)
    ctx.expect("LENGTH_R1" in b2 and b2["FLAGS"] == 0, "fit with drifts refused: {}", b2)
    ctx.expect(rms2 < 3e-3, "rms of residuals {} mm with {} drifted exposures", rms2, ns)
    check_values(ctx, b2, g, tang, tlen, "fit with drifts")
    for i in range(ns):
        ctx.close(b2["EPSILON_T_%d" % ids[i]], eT[i], .3, "theta drift of exposure %d" % ids[i])
        ctx.close(b2["EPSILON_P_%d" % ids[i]], eP[i], .3, "phi drift of exposure %d" % ids[i])
    ctx.expect(set(b2) == set(b) | {"EPSILON_%s_%d" % (a, i) for a in "TP" for i in ids}, "parameters {}", sorted(b2))
    ctx.expect((F.default_values, F.default_bounds) == defaults, "default tables modified")
    for q in fx:
        ctx.expect(b2[q] == kw["nominals"][q], "fixed {} moved", q)


@sub(P, lambda: fixed(seed=gen.seeds(), sT=mix(.25, 1., 1., .5), sP=mix(.25, 1., 1., .5), gear=st.sampled_from(["one", "same", "each"]), nseq=st.sampled_from([0, 0, 1, 2]), free=st.sampled_from([[], [], ["SCALE_T"], ["SCALE_P"]]), n=gen.count(10, 40)), 300, 5000, "a motor scale below 0.95 to be found", shards=6)
def dynamic(c, ctx):
    """scales, gear calibrations and drifts between exposures are recovered from error-free histories"""
    F = module()
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    n = c["n"]
    nom = dict(g, SCALE_T=1., SCALE_P=1.)
    # commanded angles; the shafts turn by the command / gear calibration * scale
    gear = {"one": np.ones((2, n)), "same": np.repeat(rs.uniform(.3, 1, (2, 1)), n, 1), "each": rs.uniform(.3, 1, (2, n))}[c["gear"]]
    st_, sp_ = c["sT"], c["sP"]
    seq = np.zeros(n, int)
    if c["nseq"]:
        seq[n // 2:] = 1
        if c["nseq"] > 1:
            seq[3 * n // 4:] = 2
    drift = np.r_[[[0., 0.]], rs.uniform(-6, 6, (2, 2))]
    T, Q = np.empty(n), np.empty(n)       # tracked angles in their exposure
    A, B = np.empty(n), np.empty(n)       # true angles in the frame of that exposure
    for i in range(n):
        if i == 0 or seq[i] != seq[i - 1]:
            # the first move of an exposure starts a new frame; its step is exact in that frame only if the previous position is known in the frame of the previous one
            if i == 0:
                A[i], B[i] = T[i], Q[i] = rs.uniform(-100, 100), rs.uniform(60, 120)
                continue
        for _ in range(500):
            dt, dp = rs.uniform(-70, 70) * gear[0, i], rs.uniform(-50, 50) * gear[1, i]      # steps small enough for one solution
            a = A[i - 1] + dt / gear[0, i] * st_
            b = B[i - 1] + dp / gear[1, i] * sp_
            if abs(a) < 165 and 15 < b + g['OFFSET_P'] + drift[seq[i], 1] < 160:      # away from the straight and the folded arm
                break
        else:
            dt = dp = 0.
            a, b = A[i - 1], B[i - 1]
        A[i], B[i], T[i], Q[i] = a, b, T[i - 1] + dt, Q[i - 1] + dp
    x, y = place(A, B, g, drift[seq, 0], drift[seq, 1])
    if c["nseq"]:
        for s in range(1, seq.max() + 1):
            nom["EPSILON_T_%d" % s], nom["EPSILON_P_%d" % s] = drift[s].tolist()
    kw = dict(nominals=nom)
    if c["free"]:
        other = [k for k in ("SCALE_T", "SCALE_P") if k not in c["free"]][0]
        nom[other] = st_ if other == "SCALE_T" else sp_
        kw["keep_fixed"] = [other]
    ctx.label("several exposures", c["nseq"] > 0), ctx.label("gear " + c["gear"])
    ctx.nontrivial(min(st_, sp_) < .95)
    defaults = copy.deepcopy((F.default_values, F.default_bounds))
    b, cov, rms, npts = fit(F, T, Q, x, y, seq == 0, seq, gear, mode="dynamic", **kw)
    if "SCALE_T" not in b:
        ctx.expect(b == {"FLAGS": b["FLAGS"]} and b["FLAGS"] & 4, "flags {}", b)
        return ctx.expect(False, "moves refused: {}", b)
    ctx.expect(b["FLAGS"] == 0 and npts == n - 1, "flags {}, {} of {} points", b["FLAGS"], npts, n)
    for k in STATIC:
        ctx.expect(abs(b[k] - g[k]) <= 1e-9 if k != "OFFSET_T" else abs(wrap(b[k] - g[k])) < 1e-9, "geometry {} changed by the dynamic fit: {} instead of {}", k, b[k], g[k])
    ctx.expect(rms < 3e-3, "rms of residuals {} mm ({})", rms, b)
    ctx.close(b["SCALE_T"], st_, 1e-3, "theta scale")
    ctx.close(b["SCALE_P"], sp_, 1e-3, "phi scale")
    for k in ("SCALE_T", "SCALE_P"):
        ctx.expect(0 <= b[k] <= 1, "{} out of bounds", k)
        if k in kw.get("keep_fixed", []):
            ctx.expect(b[k] == nom[k], "fixed {} moved", k)
    check_cov(ctx, b, cov, STATIC + kw.get("keep_fixed", []), [k for k in ("SCALE_P", "SCALE_T") if k not in kw.get("keep_fixed", [])])
    ctx.expect((F.default_values, F.default_bounds) == defaults, "default tables modified")


@sub(P, lambda: fixed(seed=gen.seeds(), kind=st.sampled_from(["arcs", "grid"]), nout=gen.count(0, 3), size=mix(.8, 30.), noise=st.sampled_from([0., 0., .005, .02]), nearest=st.booleans()), 250, 4000, "outliers among the moves", shards=6)
def outliers(c, ctx):
    """displaced points are rejected, the others kept, the parameters remain those without outliers"""
    F = module()
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    t, p = moves(rs, c["kind"])
    n = len(t)
    nout = min(c["nout"], n // 8)
    x, y = place(t, p, g)
    x, y = x + rs.normal(size=n) * c["noise"], y + rs.normal(size=n) * c["noise"]
    nom = dict(g, LENGTH_R1=g["LENGTH_R1"] + rs.uniform(-.05, .05), LENGTH_R2=g["LENGTH_R2"] + rs.uniform(-.05, .05), OFFSET_T=g["OFFSET_T"] + rs.uniform(-3, 3), OFFSET_P=g["OFFSET_P"] + rs.uniform(-2, 2))
    clean = fit(F, t, p, x, y, nominals=dict(nom), outlier_rejection=True)
    bad = rs.permutation(n)[:nout]
    a = rs.uniform(0, 360, nout) * D
    u, v = x.copy(), y.copy()
    u[bad] += c["size"] * np.cos(a)
    v[bad] += c["size"] * np.sin(a)
    b, cov, rms, npts = fit(F, t, p, u, v, nominals=dict(nom), outlier_rejection=True)
    ctx.nontrivial(nout > 0)
    ctx.label("outliers %d" % nout)
    ctx.expect("LENGTH_R1" in b and "LENGTH_R1" in clean[0], "{} outliers of {}: {}", nout, n, b)
    ctx.expect(clean[3] == n, "{} of {} good points used", clean[3], n)
    ctx.expect(n - 2 * nout - 1 <= npts <= n, "{} of {} points used with {} outliers", npts, n, nout)
    if c["size"] > 2:
        ctx.expect(npts == n - nout, "{} of {} points used with {} outliers of {} mm", npts, n, nout, c["size"])
    if npts == n - nout:
        keep = np.ones(n, bool)
        keep[bad] = False
        from desimeter.transform.pos2ptl import ptl2flat
        qx, qy = np.subtract(flat(t[keep], p[keep], b), ptl2flat(u[keep], v[keep]))
        if c["size"] > 2 + 20 * c["noise"]:
            ctx.close(rms, np.sqrt(np.mean(qx**2 + qy**2)), 2e-6, "rms of the residuals of the %d points used" % npts)
        ref = fit(F, t[keep], p[keep], x[keep], y[keep], nominals=dict(nom))
        if "LENGTH_R1" in ref[0]:
            check_values(ctx, b, ref[0], .3 + 10 * c["noise"], 6e-3 + .2 * c["noise"], "outliers of %.2f mm: fit against that of the good points alone" % c["size"])
            ctx.close(rms, ref[2], 2e-3 + .3 * c["noise"], "rms of residuals")


@sub(P, lambda: fixed(seed=gen.seeds(), s=mix(.6, .95, .8), n=gen.count(14, 36), where=st.sampled_from(["first", "middle", "last"]), size=uni(.8, 1.5)), 100, 1500, "any", shards=4)
def outliers_dynamic(c, ctx):
    """scales of the motors found in spite of a displaced measurement, which spoils the moves to it and from it"""
    F = module()
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    n = c["n"]
    s = [c["s"], rs.uniform(.6, .95)]
    A, B = np.empty(n), np.empty(n)
    T, Q = np.empty(n), np.empty(n)
    A[0], B[0] = T[0], Q[0] = rs.uniform(-100, 100), rs.uniform(60, 120)
    for i in range(1, n):
        while True:
            dt, dp = rs.uniform(-70, 70), rs.uniform(-50, 50)
            A[i], B[i] = A[i - 1] + dt * s[0], B[i - 1] + dp * s[1]
            if abs(A[i]) < 165 and 25 < B[i] + g["OFFSET_P"] < 150:
                break
        T[i], Q[i] = T[i - 1] + dt, Q[i - 1] + dp
    x, y = place(A, B, g)
    k = {"first": 0, "middle": rs.randint(1, n - 1), "last": n - 1}[c["where"]]
    a = rs.uniform(0, 360) * D
    u, v = x.copy(), y.copy()
    u[k] += c["size"] * np.cos(a)
    v[k] += c["size"] * np.sin(a)
    ctx.nontrivial(True)
    ctx.label(c["where"])
    b, cov, rms, npts = fit(F, T, Q, u, v, mode="dynamic", nominals=dict(g, SCALE_T=1., SCALE_P=1.), outlier_rejection=True)
    ctx.expect("SCALE_T" in b, "moves refused: {}", b)
    spoiled = 1 if k in (0, n - 1) else 2
    ctx.expect(n - 1 - spoiled - 1 <= npts <= n - 2, "{} of {} moves used with {} spoiled", npts, n - 1, spoiled)
    if npts <= n - 1 - spoiled:
        ctx.close(b["SCALE_T"], s[0], 2e-3, "theta scale with the %s measurement displaced" % c["where"])
        ctx.close(b["SCALE_P"], s[1], 2e-3, "phi scale with the %s measurement displaced" % c["where"])
        ctx.expect(rms < 3e-3, "rms of residuals {} mm ({})", rms, b)


@sub(P, lambda: fixed(seed=gen.seeds(), kind=st.sampled_from(["arcs", "grid"]), nout=gen.count(0, 2), size=uni(2., 8.), poor=st.integers(1, 3)), 100, 1500, "any", shards=4)
def outliers_errors(c, ctx):
    """measurements of unequal errors and outliers: the fit is that of the remaining measurements with their errors"""
    F = module()
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    t, p = moves(rs, c["kind"])
    n = len(t)
    nout = min(c["nout"], n // 8)
    x, y = place(t, p, g)
    ex, ey = rs.uniform(.02, .03, (2, n))
    poor = rs.permutation(n)[:c["poor"] + nout]
    bad, poor = poor[:nout], poor[nout:]
    # poor measurements, along one axis, with large errors there
    ax = rs.uniform(size=len(poor)) < .5
    off = rs.uniform(.08, .15, len(poor)) * rs.choice([-1, 1], len(poor))
    x[poor] += np.where(ax, off, 0.)
    y[poor] += np.where(ax, 0., off)
    ex[poor[ax]], ey[poor[~ax]] = 5., 5.
    a = rs.uniform(0, 360, nout) * D
    x[bad] += c["size"] * np.cos(a)
    y[bad] += c["size"] * np.sin(a)
    nom = dict(g, LENGTH_R1=g["LENGTH_R1"] + rs.uniform(-.05, .05), LENGTH_R2=g["LENGTH_R2"] + rs.uniform(-.05, .05), OFFSET_T=g["OFFSET_T"] + rs.uniform(-3, 3), OFFSET_P=g["OFFSET_P"] + rs.uniform(-2, 2))
    ctx.nontrivial(True)
    ctx.label("outliers %d" % nout)
    L = lambda v: np.asarray(v).tolist()
    b, cov, rms, npts = fit(F, t, p, x, y, nominals=dict(nom), outlier_rejection=True, ptlXerr=L(ex), ptlYerr=L(ey))
    ctx.expect("LENGTH_R1" in b, "{} outliers of {}: {}", nout, n, b)
    if npts == n - nout:
        ctx.label("as many points used as there are good ones")
        check_values(ctx, b, g, .15, 4e-3, "fit of measurements of unequal errors with %d outliers" % nout)


DEGENERATE = ["theta stuck", "no rehome", "junk", "few points", "no moves"]


@sub(P, lambda: fixed(seed=gen.seeds(), kind=st.sampled_from(DEGENERATE), mode=st.sampled_from(["static", "static", "dynamic"]), reject=st.booleans(), n=gen.count(5, 14)), 300, 3000, "any", shards=4)
def degenerate(c, ctx):
    """stuck, hopeless or too short histories give the documented flags and no exception"""
    F = module()
    from desimeter.posparams.movemask import movemask
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    t, p = moves(rs, "arcs")
    n = len(t)
    re = np.ones(n, bool)
    seq = np.zeros(n, int)
    x, y = place(t, p, g)
    nom = dict(g)
    if c["kind"] == "theta stuck":
        x, y = place(np.full(n, 40.), p, g)
        x, y = x + rs.normal(size=n) * 1e-3, y + rs.normal(size=n) * 1e-3
    elif c["kind"] == "no rehome":
        re[:] = False
        nom.update(EPSILON_T_0=0., EPSILON_P_0=0.)
    elif c["kind"] == "junk":
        n = c["n"]
        t, p = rs.uniform(-150, 150, n), rs.uniform(30, 170, n)
        x, y = g["OFFSET_X"] + rs.normal(size=n) * 10, g["OFFSET_Y"] + rs.normal(size=n) * 10
    elif c["kind"] == "few points":
        n = min(c["n"], 7)
        i = rs.permutation(len(t))[:n]
        t, p, x, y = t[i], p[i], x[i].copy(), y[i].copy()
        x[0] += 20
    else:
        t, p = np.full(n, 10.), np.full(n, 90.)
        x, y = np.full(n, x[0]), np.full(n, y[0])
    ctx.nontrivial(), ctx.label(c["kind"])
    re, seq = np.full(len(t), re[0]), np.zeros(len(t), int)
    b, cov, rms, npts = fit(F, t, p, x, y, re, seq, mode=c["mode"], nominals=nom, outlier_rejection=c["reject"])
    failed = movemask["FAILED_FIT"]
    if c["kind"] in ("theta stuck", "no rehome"):
        ctx.expect(b["FLAGS"] & failed, "{}: not reported, flags {}", c["kind"], b["FLAGS"])
        ctx.expect(bool(b["FLAGS"] & movemask["THETA_STUCK"]) == (c["kind"] == "theta stuck"), "{}: flags {}", c["kind"], b["FLAGS"])
    if b["FLAGS"] & failed:
        ctx.label("reported failure")
        ctx.expect(set(b) == {"FLAGS"} and cov == {} and rms == 0, "numbers given for a failed fit: {}", b)
    else:
        ctx.expect(all(np.isfinite(v) for v in b.values()), "numbers {}", b)
        ctx.expect(set(STATIC) <= set(b) and rms >= 0, "parameters {}", b)


@sub(P, lambda: fixed(ops=st.lists(st.tuples(st.sampled_from(["plain", "drift", "drift", "stuck", "fixed", "dynamic", "edit"]), st.integers(0, 5)).map(list), min_size=2, max_size=6)), 60, 900, "a drifted exposure, or a change of the returned table, before another fit", shards=6)
def history(c, ctx):
    """every fit of a program gives the result it gives alone"""
    ops = c["ops"]
    ctx.nontrivial(any(o[0] in ("drift", "edit", "fixed") for o in ops[:-1]))

    def run(F, op, seed):
        rs = np.random.RandomState(seed)
        g = geometry(rs)
        t, p = moves(rs, "arcs" if seed % 2 else "grid")
        n = len(t)
        re, seq = np.ones(n, bool), np.zeros(n, int)
        dT = dP = np.zeros(n)
        kw = {}
        if op == "drift":
            k = n - 4 + np.arange(4)
            re[k], seq[k] = False, seed + 1
            dT, dP = np.where(re, 0., 3.), np.where(re, 0., -2.)
        if op == "stuck":
            t = np.full(n, 10.)
        x, y = place(t, p, g, dT, dP)
        if op == "stuck":
            t = np.linspace(-100, 100, n)
            p = np.full(n, 130.)
            x, y = np.full(n, x[0]), np.full(n, y[0])
        if op == "fixed":
            kw = dict(keep_fixed=["LENGTH_R1"])
        if op == "dynamic":
            kw = dict(nominals=dict(g), mode="dynamic")
        r = fit(F, t, p, x, y, re, seq, **kw)
        keep = copy.deepcopy(r)
        if op == "edit":
            r[0].clear()
            r[1].clear()
        return keep

    def values(r):
        return [sorted(r[0].items()), sorted(r[1].items()), r[2], r[3]]
    with Package() as imp:
        F = imp("desimeter.posparams.fitter")
        got = [run(F, *o) for o in ops]
    for i, o in enumerate(ops):
        with Package() as imp:
            want = run(imp("desimeter.posparams.fitter"), *o)
        ctx.expect(repr(values(want)) == repr(values(got[i])), "fit number {} ({}) depends on the fits before: {} instead of {}", i + 1, o, values(got[i])[0], values(want)[0])


def table(rs, n, g, eT, eP, exposure, t, p, petal):
    """the csv table of one positioner, as written by get_posmoves"""
    from astropy.table import Table
    from astropy.time import Time
    from desimeter.transform.ptl2fp import ptl2fp           # checked by C14
    x, y = place(t, p, g, eT[exposure], eP[exposure])
    X, Y, _ = ptl2fp(petal, x, y)
    T = Table(dict(POS_T=t, POS_P=p, X_FP=X, Y_FP=Y, EXPOSURE_ID=30000 + 7 * exposure, RECENT_REHOME=(exposure == 0).astype(int)))
    return T


@sub(P, lambda: fixed(seed=gen.seeds(), nseq=st.sampled_from([0, 0, 1, 3, 5, 11, 14]), bad=gen.count(0, 5), order=st.booleans(), select=st.booleans(), force=st.sampled_from([False, False, False, True]), windows=st.sampled_from(["one", "one", "days", "single"]), gear=st.sampled_from(["no", "one", "scaled"]), fault=st.sampled_from([None] * 9 + ["posid", "short", "column", "norehome", "stuck", "norehome force"]),
                      twice=st.booleans()), 160, 2500, "drifted exposures, rows to be dropped or several windows", shards=8)
def fit_of_table(c, ctx):
    """the whole chain from the table of moves of a positioner to the table of parameters"""
    from astropy.table import Table
    from astropy.time import Time
    from desimeter.posparams import fithandler
    from desimeter.posparams.movemask import movemask
    rs = np.random.RandomState(c["seed"] % 2**32)
    g = geometry(rs)
    g["OFFSET_T"], g["OFFSET_P"] = rs.uniform(-80, 80), rs.uniform(-15, 15)
    nseq = 0 if c["force"] or c["windows"] != "one" else c["nseq"]
    parts = [moves(rs, ["arcs", "grid"][rs.randint(2)])]
    reps = 1 if c["windows"] == "one" else 3
    for _ in range(reps - 1):
        parts.append(moves(rs, ["arcs", "grid"][rs.randint(2)]))
    t, p = np.concatenate([q[0] for q in parts]), np.concatenate([q[1] for q in parts])
    n0 = len(t)
    m = rs.randint(3, 6, nseq)
    t, p = np.r_[t, rs.uniform(-170, 170, m.sum())], np.r_[p, rs.uniform(40, 150, m.sum())]
    exposure = np.r_[np.zeros(n0, int), np.repeat(np.arange(nseq) + 1, m)]
    if c["windows"] != "one":
        exposure[:] = 0
    eT, eP = np.r_[0, rs.uniform(-5, 5, nseq)], np.r_[0, rs.uniform(-5, 5, nseq)]
    n = len(t)
    petal = rs.randint(10)
    T = table(rs, n, g, eT, eP, exposure, t, p, petal)
    T["DATE"] = [Time(59000 + 8. * i / n, format="mjd").isot for i in range(n)]
    T["CTRL_ENABLED"], T["TOTAL_MOVE_SEQUENCES"] = True, 100 + np.arange(n) * rs.randint(1, 4)
    T["POS_ID"], T["PETAL_LOC"], T["PETAL_ID"], T["DEVICE_LOC"] = "M00123", petal, petal + 2, 77
    T["LOG_NOTE"] = "arc calibration; use_desimeter=True"
    gear = np.ones(2)
    if c["gear"] != "no":
        if c["gear"] == "scaled":
            gear = rs.uniform(.88, 1, 2)      # the scales fitted start at 1: within reach of a local fit
        T["GEAR_CALIB_T"], T["GEAR_CALIB_P"] = gear[0], gear[1]
    dropped, dates = 0, [str(d) for d in T["DATE"]]
    from astropy.table import vstack
    for k in range(c["bad"]):       # rows that must not be used
        r = T[[rs.randint(n)]]
        r["X_FP"] += 3.
        r["Y_FP"] -= 2.
        r["DATE"] = Time(59000 + rs.uniform(0, 8), format="mjd").isot
        kind = rs.randint(3) if c["select"] else rs.randint(2)
        if kind == 0:
            r["CTRL_ENABLED"] = False
            r["TOTAL_MOVE_SEQUENCES"] = 100000 + k
        elif kind == 1:        # no move since the previous row
            for q in ("POS_T", "POS_P", "X_FP", "Y_FP", "TOTAL_MOVE_SEQUENCES"):
                r[q] = T[q][n - 1]
            r["DATE"] = Time(59000 + 8.5 + .01 * k, format="mjd").isot
            r["EXPOSURE_ID"], r["RECENT_REHOME"] = T["EXPOSURE_ID"][n - 1], T["RECENT_REHOME"][n - 1]
        else:
            r["LOG_NOTE"] = "req_move; use_desimeter=False"
            r["TOTAL_MOVE_SEQUENCES"] = 200000 + k
        T = vstack([T, r])
        dropped += 1
    expect = None
    if c["fault"] == "posid":
        expect = "INVALID_TABLE"
    elif c["fault"] == "short":
        T, dropped, expect = T[:rs.randint(1, 10)], 0, "INVALID_AFTER_FILTER"
    elif c["fault"] == "column":
        T.remove_column(["X_FP", "PETAL_LOC", "DATE", "CTRL_ENABLED", "POS_T", "POS_P"][rs.randint(6)])
        expect = "INVALID_TABLE"
    elif c["fault"] == "norehome":
        T["RECENT_REHOME"] = 0
    elif c["fault"] == "norehome force":
        T["RECENT_REHOME"] = 0
    elif c["fault"] == "stuck":
        T["X_FP"], T["Y_FP"] = T["X_FP"][0], T["Y_FP"][0]
        expect = "FAILED_FIT"
    force = c["force"] or c["fault"] == "norehome force"
    if force and (nseq and c["fault"] == "norehome force"):
        return ctx.label("drifts hidden")
    if c["order"] and "DATE" in T.colnames:
        T = T[rs.permutation(len(T))]
    ctx.nontrivial(nseq > 0 or dropped > 0 or c["windows"] != "one")
    kw = dict(log_note_selection="arc calibration & use_desimeter=True" if c["select"] else None, force_recent_rehome=force)
    per, win = {"days": (2, 15), "single": (1000000, rs.randint(n // 3 + 1, n)), "one": (1000000, 1000000)}[c["windows"]]
    with tempfile.TemporaryDirectory() as tmp:
        src, out = os.path.join(tmp, "in.csv"), os.path.join(tmp, "M00123_paramfits.csv")
        T.write(src)
        raw = open(src, "rb").read()
        go = lambda: quiet(fithandler.run_best_fits, "M00124" if c["fault"] == "posid" else "M00123", src, per, win, tmp, .05, printf=lambda *a: None, **kw)
        if c["fault"] == "norehome" and not force:
            ctx.raises((RuntimeError,), go, "table without any rehomed move")
            return ctx.expect(not os.path.exists(out), "results written for a refused table")
        for _ in range(2 if c["twice"] else 1):
            go()
        ctx.expect(open(src, "rb").read() == raw, "input file modified")
        name = os.path.join(tmp, "M00124_paramfits.csv" if c["fault"] == "posid" else "M00123_paramfits.csv")
        ctx.expect(os.path.exists(name), "nothing written")
        R = Table.read(name)
    if expect:
        ctx.label(expect)
        ctx.expect(len(R) == 1 and R["FLAGS"][0] & movemask[expect] and set(R.colnames) == {"ANALYSIS_DATE", "POS_ID", "FLAGS"}, "{}: reported as {}", c["fault"] or expect, dict(zip(R.colnames, R[0])))
        return
    ctx.label("drifts %d" % nseq), ctx.label(c["windows"]), ctx.label("rows dropped", dropped > 0)
    ctx.expect("LENGTH_R1_STATIC" in R.colnames, "fit failed: {}", dict(zip(R.colnames, R[0])))
    ctx.expect(len(R) == 1 if c["windows"] == "one" else len(R) > 1, "{} windows", len(R))
    for r in R:
        b = {k: float(r[k + "_STATIC"]) for k in STATIC}
        tol = 1. + nseq        # the more parameters the less the optimiser converges
        ctx.expect(r["FIT_ERROR_STATIC"] < 3e-3 * tol, "rms {} of noiseless moves ({})", r["FIT_ERROR_STATIC"], b)
        check_values(ctx, b, g, .15 * tol, 3e-3 * tol, "parameters in the table")
        ctx.expect(r["FLAGS"] == 0 and r["POS_ID"] == "M00123" and (r["PETAL_ID"], r["PETAL_LOC"], r["DEVICE_LOC"]) == (petal + 2, petal, 77), "identity of the positioner")
        if c["windows"] == "one":
            ctx.expect(r["NUM_POINTS"] == n == r["NUM_POINTS_IN_FIT_STATIC"], "{} points used of {}", r["NUM_POINTS"], n)
            ctx.expect(r["DATA_START_DATE"] == min(T["DATE"]) if not dropped else True, "start date {}", r["DATA_START_DATE"])
        for i in range(1, nseq + 1):
            ctx.close(r["EPSILON_T_%d_STATIC" % i], eT[i], .3 * tol, "theta drift of exposure %d" % i)
            ctx.close(r["EPSILON_P_%d_STATIC" % i], eP[i], .3 * tol, "phi drift of exposure %d" % i)
        if c["windows"] != "one":
            # every window tells which moves it used
            a, b = str(r["DATA_START_DATE"]), str(r["DATA_END_DATE"])
            used = sum(a <= d <= b for d in dates)
            ctx.expect(r["NUM_POINTS"] == used == r["NUM_POINTS_IN_FIT_STATIC"] == r["NUM_POINTS_IN_FIT_DYNAMIC"] + 1, "window from {} to {}: {} points, {} and {} in the fits, {} in the table", a, b, r["NUM_POINTS"], r["NUM_POINTS_IN_FIT_STATIC"], r["NUM_POINTS_IN_FIT_DYNAMIC"], used)
            ctx.expect(used > win or a == min(dates), "window of {} points", used)
            # they start and end with the first move from one of the dates, a period apart from the first move on
            s = np.sort([Time(d).mjd for d in dates]) - min(Time(d).mjd for d in dates)
            for k, d in (("starts", a), ("ends", b)):
                if c["windows"] == "single" and k == "ends":
                    continue
                v, q = np.searchsorted(s, Time(d).mjd - min(Time(e).mjd for e in dates) - 1e-9), per * np.arange(100.)
                near = set(np.searchsorted(s, q[1:] - 1e-6)) | set(np.searchsorted(s, q[1:] + 1e-6)) | {0}
                ctx.expect(v in near, "a window {} with move {} ({}), the periods are {} days", k, v, d, per)
        # the dynamic fit keeps the static parameters of the best windows
        best = np.asarray(R["FIT_ERROR_STATIC"])
        best = best <= np.percentile(best, 5.)
        for k in STATIC:
            ctx.close(r[k + "_DYNAMIC"], np.median(R[k + "_STATIC"][best]), 1e-6, "%s of the dynamic fit" % k)
    for k in R.colnames:
        q = k.split(".")
        if q[0] in ("COV", "ERR"):
            ctx.expect(len(q) == {"COV": 3, "ERR": 2}[q[0]] and all(re.fullmatch(NAME, v) for v in q[1:]), "column {}", k)
        ctx.expect("_STATIC_STATIC" not in k and "DYNAMIC_DYNAMIC" not in k and "STATIC0" not in k and "STATIC1" not in k, "column {}", k)
    if nseq == 0 and c["windows"] == "one":       # the moves of the tables are exact: the scale found is the gear calibration in use
        ctx.close(R["SCALE_T_DYNAMIC"][0], gear[0], 5e-3, "theta scale")
        ctx.close(R["SCALE_P_DYNAMIC"][0], gear[1], 5e-3, "phi scale")
