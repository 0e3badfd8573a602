"""C22 turbulence corrections"""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, uni, mix

P = "C22"


def layout(rs, n, spacing, jitter=.3):
    """n points of a jittered triangular grid, nearest to the origin first, then shuffled"""
    k = int(np.sqrt(n)) + 4
    i, j = np.meshgrid(np.arange(-k, k + 1), np.arange(-k, k + 1))
    p = np.array([(i + .5 * j).ravel(), (j * np.sqrt(.75)).ravel()]).T * spacing
    p = p[np.argsort(np.hypot(*p.T) + 1e-3 * spacing * np.arctan2(p[:, 1], p[:, 0]))][:n]
    p = p + rs.uniform(-jitter, jitter, p.shape) * spacing + rs.uniform(-50, 50, 2)
    return p[rs.permutation(n)]


def gp_cov(a, b, amp, length):
    d2 = ((a[:, None, :] - b[None, :, :]) ** 2).sum(-1)
    return amp ** 2 * np.exp(-.5 * d2 / length ** 2)


def draw_field(rs, p, amp, length):
    c = gp_cov(p, p, amp, length) + 1e-10 * amp ** 2 * np.eye(len(p))
    L = np.linalg.cholesky(c + 1e-300 * np.eye(len(p))) if amp > 0 else np.zeros((len(p), len(p)))
    return L @ rs.normal(size=(len(p), 2))


def potential_terms(x, y, ndeg):
    """gradients of the monomials of degree 1..ndeg, as (2, terms, n)"""
    out = []
    for d in range(1, ndeg + 1):
        for i in range(d + 1):
            j = d - i
            out.append([i * x ** max(i - 1, 0) * y ** j, j * x ** i * y ** max(j - 1, 0)])
    return np.array(out).transpose(1, 0, 2)


def cross(rs, p, d, win):
    """summed squares of the predictions of local fits of degree 1 to 4 for the points left out, a third at a time"""
    n = len(p)
    fold, b = rs.permutation(2 * n) % 3, np.concatenate([d[:, 0], d[:, 1]])
    out = []
    for deg in range(1, 5):
        t = potential_terms(p[:, 0] / win, p[:, 1] / win, deg)
        A = np.concatenate([t[0].T, t[1].T])
        out.append(sum(np.sum((A[fold == f] @ np.linalg.lstsq(A[fold != f], b[fold != f], rcond=None)[0] - b[fold == f]) ** 2) for f in range(3)))
    return np.array(out)


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.one_of(st.integers(1, 70), gen.count(15, 70)), spacing=uni(8., 20.), deg=st.sampled_from([0, 1, 2, 1, 3, 4]), amp=mix(0., .05, .01), noise=st.sampled_from([0., 0., .003]), win=st.sampled_from([50., 50., 50., 30., 90.])),
     400, 5000, "enough neighbours and a displacement", shards=6)
def polynomial(c, ctx):
    """a polynomial or random displacement is removed; degree chosen as by own cross-validation; order of points irrelevant"""
    from desimeter.turbulence import correct_with_pol
    rs = np.random.RandomState(c["seed"] % 2**32)
    n, win = c["n"], c["win"]
    p0 = layout(rs, n, c["spacing"])
    s = 100.
    if c["deg"]:
        t = potential_terms((p0[:, 0]) / s, (p0[:, 1]) / s, c["deg"])
        k = rs.normal(size=t.shape[1])
        disp = np.array([k @ t[0], k @ t[1]]).T * c["amp"]
    else:
        disp = draw_field(rs, p0, c["amp"], 100.)
    # the field is a polynomial of the measured positions: solve x = x0 + f(x)
    p = p0 + disp
    if c["deg"]:
        for _ in range(30):
            t = potential_terms(p[:, 0] / s, p[:, 1] / s, c["deg"])
            q = p0 + np.array([k @ t[0], k @ t[1]]).T * c["amp"]
            if np.abs(q - p).max() < 1e-13:
                break
            p = q
    noise = rs.normal(size=(n, 2)) * c["noise"]
    p = p + noise
    d = p - p0
    if np.hypot(*d.T).max() > .4 * win:
        return ctx.label("displacement too large")
    args = [p[:, 0].copy(), p[:, 1].copy(), p0[:, 0].copy(), p0[:, 1].copy()]
    keep = [a.copy() for a in args]
    kw = {} if win == 50. else dict(win=win)
    x, y = correct_with_pol(*args, **kw)
    ctx.expect(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs modified")
    ctx.expect(np.shape(x) == (n,) and np.shape(y) == (n,), "shapes {} {}", np.shape(x), np.shape(y))
    got = p - np.array([x, y]).T                 # predicted displacements
    dist = np.hypot(p[:, 0][:, None] - p0[:, 0], p[:, 1][:, None] - p0[:, 1])
    many = 0
    rs2 = np.random.RandomState(1)
    for i in range(n):
        nb = (dist[i] < win) & (np.arange(n) != i)
        if np.any(np.abs(dist[i] - win) < 1e-6):
            continue
        m = nb.sum()
        if m == 0:
            ctx.close(got[i], [0., 0.], 1e-12, "correction of an isolated point")
            continue
        cand = []
        for deg in range(1, 5):
            t = potential_terms((p[nb, 0] - p[i, 0]) / win, (p[nb, 1] - p[i, 1]) / win, deg)
            A = np.concatenate([t[0].T, t[1].T])
            if 2 * m < A.shape[1] + 4 or np.linalg.cond(A) > 1e8:
                continue
            b = np.concatenate([d[nb, 0], d[nb, 1]])
            co = np.linalg.lstsq(A, b, rcond=None)[0] / win
            t0 = potential_terms(np.zeros(1), np.zeros(1), deg)
            cand.append((deg, np.array([co @ t0[0][:, 0], co @ t0[1][:, 0]]) * win))
        full = len(cand) == 4 and m >= 25
        if full:
            many += 1
            dev = min(np.abs(v - got[i]).max() for _, v in cand)
            ctx.expect(dev < 1e-8 + 1e-6 * np.abs(d).max(), "correction {} of point {} is none of the local fits to the other points {}", got[i], i, cand)
        if full and c["noise"]:
            dev = [np.abs(v - got[i]).max() for _, v in cand]
            q = np.median([cross(rs2, p[nb] - p[i], d[nb], win) for _ in range(5)], axis=0)
            j = int(np.argmin(dev))
            ctx.expect(q[j] < 2.5 * q.min(), "degree {} is used at point {}, though degree {} predicts left-out points much better ({})", j + 1, i, q.argmin() + 1, q)
        if full and c["deg"] and not c["noise"]:
            ctx.close(got[i], d[i], 1e-7 + 1e-6 * np.abs(d).max(), "smooth displacement at a point with %d neighbours" % m)
        if c["deg"] == 1 and not c["noise"] and m >= 10:
            ctx.close(got[i], d[i], 1e-9, "common offset at a point with %d neighbours" % m)
    ctx.nontrivial(many > 0 and c["amp"] > 0)
    ctx.label("all neighbours", many == n)
    o = rs.permutation(n)
    x2, y2 = correct_with_pol(*[a[o] for a in args], **kw)
    far = np.array([(np.sum(dist[i] < win) > 25) for i in range(n)])
    if c["deg"] and not c["noise"]:
        ctx.close(np.where(far, x2[np.argsort(o)], x), x, 1e-6, "another order")
        ctx.close(np.where(far, y2[np.argsort(o)], y), y, 1e-6, "another order")
    else:
        # the degrees may differ with the order, which matters where few neighbours are there to fit
        ctx.close(np.where(far[o], np.hypot(x2 - x[o], y2 - y[o]), 0.), 0., 1.2 * np.hypot(*d.T).max() + .02, "another order")


def loo(p, d, sig, amp, length):
    """prediction at every point from all the others, one at a time"""
    out = np.zeros_like(d)
    for i in range(len(p)):
        k = np.arange(len(p)) != i
        A = gp_cov(p[k], p[k], amp, length) + sig ** 2 * np.eye(k.sum())
        out[i] = gp_cov(p[i:i + 1], p[k], amp, length) @ np.linalg.solve(A, d[k])
    return out


def nll(p, d, sig, amp, length):
    K = gp_cov(p, p, amp, length) + sig ** 2 * np.eye(len(p))
    s, ld = np.linalg.slogdet(K)
    return .5 * (np.sum(d * np.linalg.solve(K, d)) + 2 * ld)


def structured(p, d):
    a = np.zeros(len(p), dtype=[('x', 'f8'), ('y', 'f8'), ('dx', 'f8'), ('dy', 'f8')])
    a["x"], a["y"], a["dx"], a["dy"] = p[:, 0], p[:, 1], d[:, 0], d[:, 1]
    return a


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(25, 110), spacing=uni(8., 15.), amp=uni(.004, .03), length=uni(40., 120.), noise=uni(.0015, .005), offset=mix(-.03, .03, 0.)), 140, 1600, "turbulence above the noise", shards=8)
def gaussian_process(c, ctx):
    """correction with all positioners against own leave-one-out predictions"""
    from desimeter.turbulence import correct, solve_independent
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    p0 = layout(rs, n, c["spacing"])
    turb = draw_field(rs, p0, c["amp"], c["length"]) + c["offset"]
    noise = rs.normal(size=(n, 2)) * c["noise"]
    p = p0 + turb + noise
    d = p - p0
    ctx.nontrivial(c["amp"] > 2 * c["noise"])
    args = [p[:, 0].copy(), p[:, 1].copy(), p0[:, 0].copy(), p0[:, 1].copy()]
    keep = [a.copy() for a in args]
    x, y = correct(*args)
    ctx.expect(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs modified")
    got = p - np.array([x, y]).T
    data = structured(p, d)
    kd = data.copy()
    tx, ty, res = solve_independent(data, nuse=500, excludeself=True)
    ctx.expect(np.array_equal(kd, data), "data modified")
    ctx.close([tx, ty], got.T, 1e-9, "correction and turbulence")
    sig, amp, length = np.abs(res.x)
    ctx.close(got, loo(p, d, sig, amp, length), 1e-5 + 1e-3 * np.abs(d).max(), "correction predicted from the other points only")
    truth = nll(p, d, c["noise"], np.hypot(c["amp"], c["offset"]), c["length"])
    start = nll(p, d, .01, .01, 10.)
    best = nll(p, d, sig, amp, length)
    ctx.expect(best <= start + 1e-6, "covariance parameters {} are less likely than the starting ones ({} > {})", res.x, best, start)
    ctx.label("converged", best < truth + 3)
    if best < truth + 3:
        ideal = loo(p, d, c["noise"], np.hypot(c["amp"], c["offset"]), c["length"])
        e0, e1 = np.sqrt(np.mean((ideal - turb) ** 2)), np.sqrt(np.mean((got - turb) ** 2))
        ctx.expect(e1 < 1.6 * e0 + .3 * c["noise"], "turbulence known to {:.4f} mm instead of {:.4f}", e1, e0)
    o = rs.permutation(n)
    x2, y2 = correct(*[a[o] for a in args])
    tol = 2e-4 + .02 * np.abs(d).max()
    ctx.close([x2, y2], [x[o], y[o]], tol, "another order of the points")
    y3, x3 = correct(args[1], args[0], args[3], args[2])
    ctx.close([x3, y3], [x, y], tol, "axes exchanged")
    x4, y4 = correct(-args[1], args[0], -args[3], args[2])
    ctx.close([y4, -x4], [x, y], tol, "quarter turn")
    z = correct(args[2].copy(), args[3].copy(), args[2], args[3]) if n < 40 else None
    if z is not None:
        ctx.close(z, args[2:], 1e-9, "measured as expected")


def grad_cov(a, b, amp, length):
    """covariance of (dx,dy) for displacements that are the gradient of a potential"""
    u = (a[:, None, 0] - b[None, :, 0]) / length
    v = (a[:, None, 1] - b[None, :, 1]) / length
    g = amp ** 2 * np.exp(-.5 * (u * u + v * v))
    return np.block([[(1 - u * u) * g, -u * v * g], [-u * v * g, (1 - v * v) * g]])


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(2, 60), m=st.integers(1, 10), spacing=uni(8., 15.), amp=uni(.002, .03), length=uni(30., 120.), i=st.integers(0, 59), kick=mix(-5., 5., 1.), mode=st.sampled_from(["independent", "gradwavefront"]), scale=st.sampled_from([1., 1., 2.5, 14.])),
     500, 6000, "several points", shards=4)
def fixed_covariance(c, ctx):
    """predictions with the nominal covariance: own Gaussian process; nothing of a point enters its own prediction"""
    from desimeter import turbulence as T
    rs = np.random.RandomState(c["seed"] % 2**32)
    n, ind = c["n"], c["mode"] == "independent"
    k = c["scale"] if ind else 1.
    ctx.nontrivial(n > 4)
    ctx.label(c["mode"])
    p = layout(rs, n, c["spacing"]) * k
    d = (draw_field(rs, p / k, c["amp"], c["length"]) + rs.normal(size=(n, 2)) * .004) * k
    q = rs.uniform(p.min(0) - 5 * k, p.max(0) + 5 * k, (c["m"], 2))
    sig, amp, length = np.array([5e-3, 5e-3, 50. if ind else 100.]) * k
    if ind:
        solve = lambda data, **kw: T.solve_independent(data, fix_covar=True, **(dict(scale_covar=k) if k != 1 else {}), **kw)
        N = sig ** 2 * np.eye(n)
        K = gp_cov(p, p, amp, length)
        pred = lambda at, keep: gp_cov(at, p[keep], amp, length) @ np.linalg.solve((K + N)[np.ix_(keep, keep)], d[keep])
    else:
        solve = lambda data, **kw: T.solve_gradwavefront(data, fix_covar=True, **kw)
        K = grad_cov(p, p, amp, length) + sig ** 2 * np.eye(2 * n)

        def pred(at, keep):
            kk = np.r_[keep, keep + n]
            return (grad_cov(at, p[keep], amp, length) @ np.linalg.solve(K[np.ix_(kk, kk)], np.r_[d[keep, 0], d[keep, 1]])).reshape(2, -1).T
    data = structured(p, d)
    tol = (1e-6 if ind else 2e-3) * max(np.abs(d).max(), 1e-3)
    tx, ty, res = solve(data)
    every = np.arange(n)
    ctx.close(np.array([tx, ty]).T, pred(p, every), tol, "turbulence at the points")
    ctx.close(res.x, [sig, amp, length], 1e-12, "covariance parameters")
    tx, ty, _ = solve(data, predict_at=(q[:, 0], q[:, 1]))
    ctx.close(np.array([tx, ty]).T, pred(q, every), tol, "turbulence elsewhere")
    ctx.expect(np.shape(tx) == (len(q),), "shape {}", np.shape(tx))
    ctx.raises((ValueError,), lambda: solve(data, predict_at=(q[:, 0], q[:, 1]), excludeself=True), "prediction elsewhere without self")
    ex, ey, _ = solve(data, excludeself=True)
    i = c["i"] % n
    kk = np.r_[0:i, i + 1:n]
    if ind:
        ctx.close([ex[i], ey[i]], pred(p[i:i + 1], kk)[0], tol, "turbulence from the other points")
        kick = data.copy()
        kick["dx"][i] += c["kick"]
        kick["dy"][i] -= 2 * c["kick"]
        fx, fy, _ = solve(kick, excludeself=True)
        ctx.close([fx[i], fy[i]], [ex[i], ey[i]], tol * (1 + abs(c["kick"]) * 10), "turbulence of a point after changing its residual only")
    else:       # one coordinate is left out at a time
        cc = np.r_[0:i, i + 1:2 * n]
        dv = np.r_[d[:, 0], d[:, 1]]
        ctx.close(ex[i], K[i, cc] @ np.linalg.solve(K[np.ix_(cc, cc)], dv[cc]), tol, "turbulence from the other coordinates")
    o = rs.permutation(n)
    gx, gy, _ = solve(data[o], excludeself=True)
    ctx.close([gx, gy], [ex[o], ey[o]], tol, "another order of the points")


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(12, 70), m=st.integers(1, 10), spacing=uni(6., 12.), amp=uni(0., .004), noise=st.one_of(uni(0.0005, .002), uni(.003, .005)), offset=mix(-.004, .004, 0.), bad=st.integers(0, 3), far=st.one_of(uni(.06, 1.), st.sampled_from([5., 300.])),
                      nan=st.integers(0, 3), scale=st.sampled_from([1., 1., 1., 10.]), clip=st.sampled_from([None, None, "tight", "wide", 0.]), list_=st.booleans()), 500, 6000, "an outlier or an unusable point", shards=4)
def stationary(c, ctx):
    """correction with stationary positioners: outliers and unusable points do not count"""
    from desimeter.turbulence import correct_using_stationary as f
    rs = np.random.RandomState(c["seed"] % 2**32)
    n, k = c["n"], c["scale"]
    p0 = layout(rs, n, c["spacing"]) * k
    d = (draw_field(rs, p0 / k, max(c["amp"], 1e-6), 100.) + rs.normal(size=(n, 2)) * c["noise"] + c["offset"]) * k
    q = rs.uniform(p0.min(0), p0.max(0), (c["m"], 2))
    clip = {None: .01 * k, "tight": .005 * k, "wide": .03 * k, 0.: 0.}[c["clip"]]
    kw = dict(scale_covar=k) if k != 1 else {}
    if c["clip"] is not None or k != 1:
        kw["clip_resid"] = clip

    def ref(p, dd):
        A = gp_cov(p, p, 5e-3 * k, 50. * k) + (5e-3 * k) ** 2 * np.eye(len(p))
        return gp_cov(q, p, 5e-3 * k, 50. * k) @ np.linalg.solve(A, dd), gp_cov(p, p, 5e-3 * k, 50. * k) @ np.linalg.solve(A, dd)
    bad = rs.permutation(n)[:c["bad"] + c["nan"]]
    nan, far = bad[:c["nan"]], bad[c["nan"]:]
    ctx.nontrivial(len(bad) > 0)
    ctx.label("outlier", len(far) > 0), ctx.label("unusable", len(nan) > 0), ctx.label("clip %s" % c["clip"])
    ang = rs.uniform(0, 2 * np.pi, len(far))
    d[far] += c["far"] * k * np.array([np.cos(ang), np.sin(ang)]).T
    p = p0 + d
    P0 = p0.copy()
    for i in nan:
        [p, P0][rs.randint(2)][i, rs.randint(2)] = np.nan
    # documented rule
    use = ~np.isnan(p + P0).any(1)
    sure = True
    if clip > 0:
        dd = d[use]
        med = np.median(dd, axis=0)
        sd = np.median(np.abs(dd - med), axis=0) * 1.482602218505602
        z = np.abs(dd - med) / sd
        sure &= not np.any(np.abs(z - 5) < 1e-6)
        ok = np.all(z < 5, axis=1)
        assert ok.any()
        use[use] = ok
        r = np.hypot(*(d[use] - ref(p[use], d[use])[1]).T)
        sure &= not np.any(np.abs(r - clip) < 1e-6 * k)
        use[use] = r < clip
        ctx.label("residual clipped", np.any(r >= clip))
    if not sure or not use.any():
        return ctx.label("borderline")
    args = [p[:, 0], p[:, 1], P0[:, 0], P0[:, 1], q[:, 0], q[:, 1]]
    keep = [a.copy() for a in args]
    r = f(*args, return_good=True, **kw)
    ctx.expect(len(r) == 3, "{} results instead of 3", len(r))
    tx, ty, good = r
    ctx.expect(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, keep)), "inputs modified")
    ctx.expect(np.shape(good) == (n,) and np.array_equal(np.asarray(good, bool), use), "positioners used {} instead of {}", np.flatnonzero(good), np.flatnonzero(use))
    tol = 1e-7 * k + 1e-5 * np.abs(d[use]).max()
    ctx.close(np.array([tx, ty]).T, ref(p[use], d[use])[0], tol, "turbulence")
    t2 = f(*args, **kw)
    ctx.expect(len(t2) == 2 and np.array_equal(t2, [tx, ty]), "without mask")
    if clip > 0 and len(far) and np.all(~use[far]):
        # the rest alone
        o = np.flatnonzero(~np.isin(np.arange(n), bad))
        o = o[rs.permutation(len(o))]
        rx, ry, rg = f(*[a[o] for a in args[:4]], *args[4:], return_good=True, **kw)
        if np.array_equal(np.asarray(rg, bool), use[o]):
            ctx.label("as if absent")
            ctx.close([rx, ry], [tx, ty], tol, "turbulence without the outliers")
    ctx.close(np.array(f(*[a[::-1] for a in args[:4]], *args[4:], **kw)), [tx, ty], tol, "another order")


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(6, 40), miss=st.integers(0, 4), extra=st.integers(0, 4), mode=st.sampled_from(["independent", "gradwavefront"]), fix=st.booleans()), 120, 1200, "tables that differ", shards=3)
def files(c, ctx):
    """tables of expected and measured positions"""
    from astropy.table import Table
    from desimeter import turbulence as T
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    ctx.nontrivial(c["miss"] > 0 or c["extra"] > 0)
    p0 = layout(rs, n, 10.)
    d = draw_field(rs, p0, .01, 80.) + rs.normal(size=(n, 2)) * .002
    loc = rs.permutation(10000)[:n]
    e = rs.permutation(n)
    exp = Table(dict(LOCATION=loc[e], X_FP=p0[e, 0], Y_FP=p0[e, 1]))
    m = rs.permutation(n)[c["miss"]:]
    p = p0 + d
    x = np.r_[p[m, 0], rs.uniform(-50, 50, c["extra"])]
    mea = Table(dict(LOCATION=np.r_[loc[m], np.full(c["extra"], -1)].astype(int), X_FP=x, Y_FP=np.r_[p[m, 1], np.zeros(c["extra"])]))
    mea = mea[rs.permutation(len(mea))]
    data = T.make_data(exp, mea)
    ctx.expect(sorted(data["location"]) == sorted(loc[m]), "locations {}", data["location"])
    at = {l: i for i, l in enumerate(loc)}
    k = [at[l] for l in data["location"]]
    ctx.close([data["x"], data["y"], data["dx"], data["dy"]], np.array([p0[k, 0], p0[k, 1], d[k, 0], d[k, 1]]), 1e-9, "data")
    with tempfile.TemporaryDirectory() as tmp:
        fe, fm = os.path.join(tmp, "e.csv"), os.path.join(tmp, "m.csv")
        exp.write(fe), mea.write(fm)
        kw = dict(fix_covar=True) if c["fix"] else dict(excludeself=True)
        ctx.raises((ValueError,), lambda: T.solve_files(fe, fm, mode="other"), "mode")
        out, res = T.solve_files(fe, fm, mode=c["mode"], **kw)
    ctx.expect(len(out) == len(mea) and np.array_equal(out["LOCATION"], mea["LOCATION"]), "rows of the measured table")
    ctx.close(np.array(out["X_FP"]), np.array(mea["X_FP"]), 1e-9, "measured position")
    tx, ty, _ = getattr(T, "solve_" + c["mode"])(data, **kw)
    want = {l: (a, b) for l, a, b in zip(data["location"], tx, ty)}
    tol = 1e-6 if c["fix"] else 3e-4
    for r in out:
        w = want.get(r["LOCATION"], (np.nan, np.nan))
        g = [r["DXTURB"], r["DYTURB"], r["XNEW"], r["YNEW"]]
        ctx.close(g, [w[0], w[1], r["X_FP"] - w[0], r["Y_FP"] - w[1]], tol, "row of location %d" % r["LOCATION"])


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(2, 40), bins=st.one_of(st.none(), st.integers(1, 12)), edges=st.one_of(st.none(), st.lists(st.integers(0, 400), min_size=2, max_size=8, unique=True).map(sorted))), 300, 3000, "edges given", shards=1)
def covariance(c, ctx):
    """empirical covariance against a loop over the pairs"""
    from desimeter.turbulence import empirical_covariance
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    p, d = rs.uniform(-100, 100, (n, 2)), rs.normal(size=(n, 2))
    ctx.nontrivial(n > 4)
    e = c["edges"] and [v + .5 for v in c["edges"]]
    dist = np.hypot(p[:, 0][:, None] - p[:, 0], p[:, 1][:, None] - p[:, 1])
    bins = c["bins"] or 10          # the documented default
    kw = dict(bins=bins) if c["bins"] else {}
    mid, cx, cy = empirical_covariance(structured(p, d), **kw) if e is None else empirical_covariance(structured(p, d), edges=np.array(e))
    if e is None:
        e = np.linspace(dist.min(), dist.max() + .1, bins + 1)
    ctx.expect(len(mid) == len(cx) == len(cy) == len(e) - 1, "lengths {} {} {} for {} bins", len(mid), len(cx), len(cy), len(e) - 1)
    for b in range(len(e) - 1):
        if np.any(np.abs(dist - e[b + 1]) < 1e-9) or (np.any(np.abs(dist - e[b]) < 1e-9) and e[b] != 0):
            continue
        k = (dist >= e[b]) & (dist < e[b + 1])
        wx = np.mean(np.outer(d[:, 0], d[:, 0])[k]) if k.any() else 0.
        wy = np.mean(np.outer(d[:, 1], d[:, 1])[k]) if k.any() else 0.
        ctx.close([mid[b], cx[b], cy[b]], [.5 * (e[b] + e[b + 1]), wx, wy], 1e-9, "bin")


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(30, 60), part=uni(.3, .7), amp=uni(.004, .03), length=uni(40., 120.), noise=uni(.0015, .005), ratio=uni(6., 20.), inner=st.booleans(), all=st.booleans()), 60, 600, "some points left out", shards=4)
def central(c, ctx):
    """the parameters of the covariance are those of the central points, the covariance that of all points"""
    from desimeter.turbulence import solve_covar, loss_independent, make_covar_independent
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    p = layout(rs, n, 12.)
    o = np.argsort(np.hypot(*p.T))
    k = n if c["all"] else max(12, int(c["part"] * n))
    d = draw_field(rs, p, c["amp"], c["length"]) + c["noise"] * rs.normal(size=(n, 2))
    # the others are much noisier, or much less
    q = o[k:] if c["inner"] else o[:k]
    if not c["all"]:
        d[q] += c["ratio"] * (c["noise"] + c["amp"]) * rs.normal(size=(len(q), 2))
    data = structured(p, d)
    ctx.nontrivial(k < n)
    cov, res = solve_covar(data, loss_independent, make_covar_independent, nuse=0 if c["all"] else k, method="powell")
    ref = solve_covar(structured(p[o[:k]], d[o[:k]]), loss_independent, make_covar_independent, nuse=0, method="powell")[1]
    a, b = [nll(p[o[:k]], d[o[:k]], *np.abs(r.x)) for r in (res, ref)]
    ctx.expect(a <= b + 4., "-log likelihood of the {} central points {:.1f} with the parameters found, {:.1f} with those of a fit of them alone", k, a, b)
    s, am, le = np.abs(res.x)
    ctx.close(cov, gp_cov(p, p, am, le) + s ** 2 * np.eye(n), 1e-9 * (1 + am ** 2), "covariance of all points")


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(2, 30), m=gen.count(1, 6), kind=st.sampled_from(["gauss", "rq", "rq", "gradient"]), alpha=st.one_of(uni(.11, 5.), uni(5., 900.))), 300, 3000, "any", shards=2)
def likelihood(c, ctx):
    """covariance and likelihood of each model of the turbulence against their formulas"""
    from desimeter import turbulence as T
    rs = np.random.RandomState(c["seed"] % 2**32)
    n, m = c["n"], c["m"]
    p, q = layout(rs, n, 12.), rs.uniform(-60., 60., (m, 2))
    d = rs.normal(size=(n, 2)) * .01
    data = structured(p, d)
    ctx.nontrivial(True)
    ctx.label(c["kind"])
    lik = []
    for k in range(2):
        s, a, le = rs.uniform(.003, .02), rs.uniform(.003, .05), rs.uniform(10., 120.)
        par = [s, a, le]
        if c["kind"] == "rq":
            par.append(c["alpha"] if k == 0 else rs.uniform(.2, 5.))

        def cov(u, v):
            if c["kind"] == "gauss":
                return gp_cov(u, v, a, le)
            if c["kind"] == "rq":
                return a ** 2 * (1 + ((u[:, None, :] - v[None, :, :]) ** 2).sum(-1) / (2 * par[3] * le ** 2)) ** -par[3]
            return grad_cov(u, v, a, le)
        rq = c["kind"] == "rq"
        mk, mk0, loss = (T.make_covar_gradwavefront, T.make_covar_gradwavefront_nonoise, T.loss_gradwavefront) if c["kind"] == "gradient" else (T.make_covar_independent, T.make_covar_independent_nonoise, T.loss_independent)
        K = cov(p, p)
        K = K + s ** 2 * np.eye(len(K))
        tol = 1e-9 if c["kind"] != "gradient" else 1e-6 * (a ** 2 + s ** 2) + 1e-12       # (single precision)
        ctx.close(mk(data, par, rq=rq), K, tol, "covariance of the data")
        ctx.close(mk0(p[:, 0], p[:, 1], q[:, 0], q[:, 1], par, rq=rq), cov(q, p), tol, "covariance of other points with the data")
        dd = d.T.ravel()[:, None] if c["kind"] == "gradient" else d
        mine = .5 * (np.sum(dd * np.linalg.solve(K, dd)) + dd.shape[1] * np.linalg.slogdet(K)[1])
        lik.append((loss(data, par, rq=rq), mine))
    ctx.close(lik[0][0] - lik[1][0], lik[0][1] - lik[1][1], 1e-6 * (1 + abs(lik[0][1]) + abs(lik[1][1])) if c["kind"] != "gradient" else 2e-3 * (1 + abs(lik[0][1]) + abs(lik[1][1])), "difference of the log likelihoods of two sets of parameters")
