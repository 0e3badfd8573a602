"""C14 catalogue matching"""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, data
from vf.gen import fixed, uni

P = "C14"


def points(rs, n, span, minsep=0.):
    x, y = [], []
    for _ in range(400 * n):
        if len(x) == n:
            break
        a, b = rs.uniform(-span, span, 2)
        if all(np.hypot(a - p, b - q) > minsep for p, q in zip(x, y)):
            x.append(a)
            y.append(b)
    return np.array(x), np.array(y)


@sub(P, lambda: fixed(seed=gen.seeds(), n1=st.integers(0, 25), n2=st.integers(1, 25), span=st.sampled_from([1., 400., 6000.]), dup=st.booleans(),
                      related=st.booleans(), jitter=uni(0., .3), clump=st.booleans(), column=st.booleans(), default=st.booleans()), 3000, 40000, "some object of the second list is the nearest of several", shards=4, floor=.15)
def same_system(c, ctx):
    """nearest neighbour by brute force, each object used once by its closest partner"""
    from desimeter.match import match_same_system
    rs = np.random.RandomState(c["seed"] % 2**32)
    s = c["span"]
    x2, y2 = rs.uniform(-s, s, (2, c["n2"]))
    n1 = max(1, c["n1"])
    if c["related"]:
        k = rs.permutation(c["n2"])[:n1]
        x1, y1 = x2[k] + c["jitter"] * s * rs.normal(size=len(k)), y2[k] + c["jitter"] * s * rs.normal(size=len(k))
    else:
        x1, y1 = rs.uniform(-s, s, (2, n1))
    if c["clump"]:
        x1, y1 = x1 * .05 + x2[0], y1 * .05 + y2[0]
    d = np.hypot(x1[:, None] - x2, y1[:, None] - y2)
    near = d.argmin(axis=1)
    counts = np.bincount(near, minlength=len(x2))
    ctx.nontrivial(counts.max() > 1)
    dup = c["dup"]
    ctx.label("duplicates removed" if dup else "duplicates kept")
    a = [np.array(v) for v in (x1, y1, x2, y2)]
    if c["column"]:
        from astropy.table import Table
        t1, t2 = Table(dict(X=x1, Y=y1)), Table(dict(X=x2, Y=y2))
        a = [t1["X"], t1["Y"], t2["X"], t2["Y"]]
    i, dist = match_same_system(*a) if (dup and c["default"]) else match_same_system(*a, remove_duplicates=dup)
    ctx.expect(len(i) == len(x1) and len(dist) == len(x1), "one answer per object of the first list")
    i, dist = np.asarray(i), np.asarray(dist)
    ok = i >= 0
    ctx.close(dist[ok], d[np.flatnonzero(ok), i[ok]], 1e-9 * s, "distance of the returned pair")
    ctx.close(dist[ok], d.min(axis=1)[ok], 1e-9 * s, "distance to the nearest object")
    if not dup:
        ctx.expect(ok.all(), "an object is left without its nearest neighbour")
        return
    ctx.expect(np.all(np.isinf(dist[~ok])), "unmatched objects have distances {}", dist[~ok][:4])
    ctx.expect(len(np.unique(i[ok])) == ok.sum(), "an object of the second list is used twice")
    for k in np.unique(near):
        m = np.flatnonzero(near == k)
        best = d[m, k].min()
        users = np.flatnonzero(i == k)
        ctx.expect(len(users) == 1, "object {} is the nearest of {} objects but is given to {} of them", k, len(m), len(users))
        ctx.close(d[users, k], best, 1e-9 * s, "object is not given to its closest partner")
    # order of either list does not matter
    o1, o2 = rs.permutation(len(x1)), rs.permutation(len(x2))
    j, dj = match_same_system(x1[o1], y1[o1], x2[o2], y2[o2])
    back = np.full(len(x1), -1)
    back[o1] = np.where(j >= 0, o2[j], -1)
    ctx.expect(np.array_equal(back, i), "matches depend on the order of the lists")


def similarity(x, y, c):
    a, k = np.radians(c["rot"]), c["scale"]
    return k * (np.cos(a) * x - np.sin(a) * y) + c["dx"], k * (np.sin(a) * x + np.cos(a) * y) + c["dy"]


def features(x, y):
    """shape and orientation of every triangle, vertices ordered along x"""
    from itertools import combinations
    o = np.argsort(x)
    keys, f = [], []
    for t in combinations(o, 3):
        px, py = x[list(t)], y[list(t)]
        l = np.hypot(px - np.roll(px, 1), py - np.roll(py, 1))
        u = np.array([px[1] - px[0], py[1] - py[0]])
        v = np.array([px[2] - px[0], py[2] - py[0]])
        keys.append(tuple(t))
        f.append([l.max() / l.min(), u @ v / np.hypot(*u) / np.hypot(*v), u[0] / np.hypot(*u)])
    return keys, np.array(f)


def recognisable(x1, y1, i1, x2, y2, i2, n, factor=2.):
    """i1, i2: identities; those below n are common to both lists and all in the second.  Is every triangle of common
    objects the nearest in shape and orientation to its true counterpart, and are triangles with an extra object worse?"""
    k1, f1 = features(x1, y1)
    k2, f2 = features(x2, y2)
    true2 = {frozenset(i2[list(k)]): j for j, k in enumerate(k2)}
    worst = 0.
    for k, g in zip(k1, f1):
        ids = i1[list(k)]
        if (ids >= n).any():
            continue
        j = true2[frozenset(ids)]
        if list(i2[list(k2[j])]) != list(ids):     # the rotation exchanges two vertices
            return False
        dd = np.sqrt(((f2 - g) ** 2).sum(axis=1))
        other = np.delete(dd, j)
        if len(other) and other.min() < factor * dd[j] + 1e-6:
            return False
        worst = max(worst, dd[j])
    for k, g in zip(k1, f1):
        if (i1[list(k)] >= n).any() and np.sqrt(((f2 - g) ** 2).sum(axis=1)).min() < factor * worst + 1e-6:
            return False
    return True


def sim():
    return dict(scale=st.one_of(st.just(1.), uni(.05, 30.)), dx=uni(-5000., 5000.), dy=uni(-5000., 5000.))


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.integers(3, 7), extra1=st.integers(0, 3), extra2=st.integers(0, 4), rot=st.one_of(st.just(0.), uni(-3., 3.)), **sim()),
     1500, 15000, "extra or permuted objects and a transformation", shards=6, floor=.25)
def unknown_transform(c, ctx):
    """true pairs are found, whatever the order and the extra objects"""
    from desimeter.match import match_arbitrary_translation_dilatation as f
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    x, y = points(rs, n + c["extra1"] + c["extra2"], 1., .12)
    if len(x) < n + c["extra1"] + c["extra2"]:
        return
    i1 = rs.permutation(np.r_[:n + c["extra1"]])
    i2 = rs.permutation(np.r_[:n, n + c["extra1"]:len(x)])
    x1, y1 = x[i1], y[i1]
    x2, y2 = similarity(x[i2], y[i2], c)
    if not recognisable(x1, y1, i1, x2, y2, i2, n):
        return ctx.label("ambiguous")
    ctx.label("rotated" if c["rot"] else "not rotated")
    ctx.label("extra in first" if c["extra1"] else "none extra in first")
    ctx.nontrivial(True)
    i, dist = f(x1, y1, x2, y2)
    i = np.asarray(i)
    ctx.expect(len(i) == len(x1), "one answer per object of the first list")
    got = np.where(i >= 0, i2[i], -1)
    common = i1 < n
    ctx.expect(np.all((got == i1) | (got == -1) | ~common), "wrong partner: {} for {}", got, i1)
    ok = i[i >= 0]
    ctx.expect(len(np.unique(ok)) == len(ok), "an object of the second list is used twice")
    if c["extra1"] == 0:
        ctx.expect(np.all(got == i1), "partner not found: {} for {}", got, i1)
        if c["rot"] == 0:
            ctx.close(np.asarray(dist), 0., 1e-6, "triangle distance of an exact copy")


@sub(P, lambda: fixed(loc=gen.seeds(), seed=gen.seeds(), rot=uni(-.3, .3), noise=uni(0., .002), drop=st.integers(0, 1), scale=uni(.97, 1.03), dx=uni(-100., 100.), dy=uni(-100., 100.), pix=st.booleans()),
     800, 8000, "always", shards=2)
def pinholes(c, ctx):
    """the pinholes of every surveyed fiducial are told apart"""
    from desimeter.match import match_arbitrary_translation_dilatation as f
    m = data.metrology()
    m = m[np.array(m["PINHOLE_ID"]) > 0]
    m = m[(np.array(m["DEVICE_TYPE"]) == "FIF") | (np.array(m["DEVICE_TYPE"]) == "GIF")]
    locs = np.unique(np.array(m["LOCATION"]))
    m = m[np.array(m["LOCATION"]) == locs[c["loc"] % len(locs)]]
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y = np.array(m["X_FP"]), np.array(m["Y_FP"])
    if c["pix"]:
        from desimeter.transform.fvc2fp import FVC2FP
        from desimeter.io import fvc2fp_filename
        x, y = FVC2FP.read(fvc2fp_filename()).fp2fvc(x, y)
    sep = np.hypot(x[:, None] - x, y[:, None] - y)
    sep = sep[sep > 0].min()
    keep = rs.permutation(len(x))[c["drop"]:]
    ctx.nontrivial(True)
    ctx.label("all" if not c["drop"] else "one missing")
    x1, y1 = similarity(x[keep] - x.mean(), y[keep] - y.mean(), c)
    x1, y1 = x1 + c["noise"] * sep * rs.normal(size=len(keep)), y1 + c["noise"] * sep * rs.normal(size=len(keep))
    if not recognisable(x1, y1, keep, x, y, np.arange(len(x)), len(x), 1.5):
        ctx.nontrivial(False)
        return ctx.label("ambiguous")
    i, _ = f(x1, y1, x, y)
    ctx.expect(np.array_equal(np.asarray(i), keep), "pinholes {} identified as {}", keep, i)


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.integers(3, 6), rot=uni(0., 360.), **sim()), 400, 4000, "more than one triangle", shards=1)
def triangle_shapes(c, ctx):
    """shape and orientation of a triangle do not change under a similarity transformation"""
    from desimeter import match
    rs = np.random.RandomState(c["seed"] % 2**32)
    x, y = points(rs, c["n"], 1., .1)
    if len(x) < c["n"]:
        return
    ctx.nontrivial(c["n"] > 3)
    k1, r1, c1, s1 = match.compute_triangles_with_arbitrary_orientation(x, y)
    k2, r2, c2, s2 = match.compute_triangles_with_arbitrary_orientation(*similarity(x, y, c))
    ctx.expect(np.array_equal(k1, k2), "vertices are ordered differently after a similarity transformation")
    for a, b, w in ((r1, r2, "side ratio"), (c1, c2, "cosine"), (s1, s2, "sine")):
        ctx.close(a, b, 1e-6, w)
    ctx.expect(len({frozenset(k) for k in map(tuple, k1)}) == len(k1) == c["n"] * (c["n"] - 1) * (c["n"] - 2) // 6, "not every triangle")
    # the three sides in increasing order: 0-1, 1-2, 0-2
    L = lambda a, b: np.hypot(x[a] - x[b], y[a] - y[b])
    l = np.array([L(k1[:, 0], k1[:, 1]), L(k1[:, 1], k1[:, 2]), L(k1[:, 0], k1[:, 2])])
    ctx.expect(np.all(np.diff(l, axis=0) >= -1e-12), "vertices not ordered by the sides")
    ctx.close(r1, l[2] / l[0], 1e-9, "ratio of the longest to the shortest side")
