"""C27 averages of repeated exposures"""
import os, runpy, sys, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, env
from vf.gen import fixed, uni, mix

P = "C27"


def affine(x2, y2, x1, y1):
    H = np.array([np.ones(len(x2)), x2, y2]).T
    cx, cy = np.linalg.lstsq(H, x1, rcond=None)[0], np.linalg.lstsq(H, y1, rcond=None)[0]
    return H @ cx, H @ cy


def model(lists, sep=5.):
    """positions of the first list, averaged where every list has a counterpart"""
    x0, y0 = lists[0]
    idx = np.arange(len(x0))
    xs, ys = [x0[idx]], [y0[idx]]
    margin = np.inf
    for x, y in lists[1:]:
        d = np.hypot(x0[idx][:, None] - x, y0[idx][:, None] - y)
        if d.size == 0:
            return x0, y0, idx[:0], np.inf
        ok = d.min(1) < sep
        margin = min(margin, np.abs(d.min(1) - sep).min())
        j = d.argmin(1)[ok]
        assert len(set(j)) == len(j)
        idx = idx[ok]
        xs, ys = [v[ok] for v in xs], [v[ok] for v in ys]
        u, v = affine(x[j], y[j], x0[idx], y0[idx])
        xs.append(u), ys.append(v)
    rx, ry = x0.copy(), y0.copy()
    rx[idx], ry[idx] = np.mean(xs, axis=0), np.mean(ys, axis=0)
    return rx, ry, idx, margin


@sub(P, lambda: fixed(seed=gen.seeds(), n=gen.count(6, 40), lists=st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6]), jitter=st.sampled_from([0., .05, .1, .3]), move=st.sampled_from([0., 1., 1.]), miss=gen.count(0, 4), extra=gen.count(0, 4), keys=st.sampled_from([["XPIX", "YPIX"], ["X_FP", "Y_FP"]]),
                      how=st.sampled_from(["call", "call", "command"]), copies=st.sampled_from([False] * 7 + [True])), 600, 7000, "several lists with jitter, and missing or spurious spots", shards=6)
def average(c, ctx):
    """common spots matched and averaged; no spot lost or invented; order irrelevant"""
    from astropy.table import Table
    from desimeter.averagecoord import average_coordinates
    rs = np.random.RandomState(c["seed"] % 2**32)
    kx, ky = c["keys"]
    # positions on a jittered grid: 30 pixels apart or more
    m = c["n"] + c["extra"] * c["lists"]
    g = rs.permutation(400)[:m]
    X, Y = 100. + 60 * (g % 20) + rs.uniform(-14, 14, m), 100. + 60 * (g // 20) + rs.uniform(-14, 14, m)
    n = c["n"]
    lists, ids = [], []
    for k in range(c["lists"]):
        keep = np.flatnonzero(rs.rand(n) >= c["miss"] / (3. * n)) if c["miss"] else np.arange(n)
        ex = n + k * c["extra"] + np.arange(c["extra"])
        i = np.r_[keep, ex]
        x, y = X[i].copy(), Y[i].copy()
        if k and c["move"]:
            a, s = rs.uniform(-1, 1, 2) * 1e-3
            u, v = x - 700, y - 700
            x, y = 700 + u + s * u - a * v + rs.uniform(-1, 1), 700 + v + s * v + a * u + rs.uniform(-1, 1)
        x, y = x + rs.normal(size=len(i)) * c["jitter"], y + rs.normal(size=len(i)) * c["jitter"]
        o = rs.permutation(len(i))
        lists.append((x[o], y[o])), ids.append(i[o])
    if c["copies"]:
        lists = [lists[0]] * c["lists"]
        ids = [ids[0]] * c["lists"]
    ctx.nontrivial(c["lists"] > 1 and not c["copies"] and (c["jitter"] > 0 or c["move"] > 0) and (c["miss"] or c["extra"]))
    rx, ry, idx, margin = model(lists)
    if len(idx) < 5 or margin < 1e-6 or np.linalg.cond(np.array([np.ones(len(idx)), lists[0][0][idx], lists[0][1][idx]])) > 1e5:
        return ctx.label("too few in common")
    ctx.label("unmatched rows", len(idx) < len(rx)), ctx.label(c["how"]), ctx.label("copies", c["copies"])
    tabs = []
    for k, ((x, y), i) in enumerate(zip(lists, ids)):
        t = Table({kx: x, ky: y, "ID": i, "COUNTS": rs.uniform(1e4, 1e6, len(x)), "LABEL": ["%d of %d" % (v, k) for v in i]})
        tabs.append(t)
    keep = [t.copy() for t in tabs]
    if c["how"] == "call":
        out = average_coordinates(tabs, kx, ky)
        ctx.expect(all(t.colnames == q.colnames and all(np.array_equal(t[k], q[k]) for k in q.colnames) for t, q in zip(tabs, keep)), "input tables modified")
        ctx.expect(out is not tabs[0], "the first table itself is returned")
        again = average_coordinates(tabs, kx, ky)
        ctx.expect(np.array_equal(again[kx], out[kx]) and np.array_equal(again[ky], out[ky]), "second call differs")
    else:
        with tempfile.TemporaryDirectory() as tmp:
            fns = [os.path.join(tmp, "%d.csv" % k) for k in range(len(tabs))]
            for t, f in zip(tabs, fns):
                t.write(f)
            o = os.path.join(tmp, "out.csv")
            before = [open(f, "rb").read() for f in fns]
            command("average_coordinates", ["-i"] + fns + ["-o", o] + ([] if kx == "XPIX" else ["--xkey", kx, "--ykey", ky]))
            ctx.expect([open(f, "rb").read() for f in fns] == before, "input files modified")
            out = Table.read(o)
    ctx.expect(out.colnames == keep[0].colnames and len(out) == len(keep[0]), "columns or rows")
    ctx.expect(np.array_equal(out["ID"], ids[0]) and list(out["LABEL"]) == list(keep[0]["LABEL"]), "rows of the first list")
    ctx.close(np.array(out["COUNTS"]), np.array(keep[0]["COUNTS"]), 1e-6, "other columns")
    ctx.close(np.array(out[kx]), rx, 1e-6, "average " + kx)
    ctx.close(np.array(out[ky]), ry, 1e-6, "average " + ky)
    if c["copies"]:
        ctx.close([out[kx], out[ky]], lists[0], 1e-6, "average of copies")
    elif c["jitter"] == 0:
        ctx.close(np.hypot(np.array(out[kx]) - lists[0][0], np.array(out[ky]) - lists[0][1]), 0., 1e-6, "average of exact images of one scene")
    if c["how"] == "call" and c["lists"] > 2:
        k = np.r_[0, 1 + rs.permutation(c["lists"] - 1)]
        per = [rs.permutation(len(t)) for t in tabs]
        out2 = average_coordinates([tabs[i][per[i]] for i in k], kx, ky)
        tol = 1e-6 if c["miss"] == 0 else .05 * c["jitter"] + 1e-6      # the order of the lists decides which spots align each
        if c["miss"] == 0:
            ctx.close([np.array(out2[kx]), np.array(out2[ky])], [np.array(out[kx])[per[0]], np.array(out[ky])[per[0]]], tol, "lists and rows in another order")


def command(name, argv):
    """run a script of the package in this process"""
    old = sys.argv
    sys.argv = [name] + argv
    try:
        runpy.run_path(os.path.join(env.REPO, "bin", name), run_name="__main__")
    finally:
        sys.argv = old
