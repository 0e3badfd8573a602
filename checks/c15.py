"""C15 assignment of spots to positioners"""
import io
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, uni

P = "C15"


def matching(adj, n2, forbid=None):
    """size of a maximum bipartite matching by augmenting paths; adj: list of lists"""
    owner = [-1] * n2

    def push(i, seen):
        for j in adj[i]:
            if (i, j) == forbid or j in seen:
                continue
            seen.add(j)
            if owner[j] < 0 or push(owner[j], seen):
                owner[j] = i
                return True
        return False
    return sum(push(i, set()) for i in range(len(adj)))


def scene(c):
    """positioners on a jittered hexagonal grid, spots in and between their patrol disks, other things around"""
    from astropy.table import Table
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["npos"]
    k = np.arange(n)
    w = max(1, int(np.ceil(np.sqrt(n))))
    pitch = c["pitch"]
    x = (k % w) * pitch + .5 * pitch * ((k // w) % 2) + rs.normal(0, .2, n) + 40.
    y = (k // w) * pitch * .866 + rs.normal(0, .2, n) - 100.
    names = np.array(["M%05d" % v for v in rs.permutation(9000)[:n]])
    r1, r2 = rs.uniform(2.6, 3.4, (2, n))
    reach = r1 + r2 + .1
    # spots: one per positioner somewhere in its disk (or slightly out of it), some missing, some extra
    rr = reach * np.sqrt(rs.rand(n)) * c["spread"]
    a = rs.uniform(0, 2 * np.pi, n)
    have = rs.rand(n) > c["missing"]
    sx, sy = (x + rr * np.cos(a))[have], (y + rr * np.sin(a))[have]
    ne = c["extra"]
    lo, hi = (min(x) - 8, max(x) + 8) if n else (0, 1)
    sx = np.r_[sx, rs.uniform(lo, hi, ne)]
    sy = np.r_[sy, rs.uniform(min(y) - 8, max(y) + 8, ne) if n else []]
    counts = np.where(rs.rand(len(sx)) < c["faint"], rs.uniform(0., .99, len(sx)), rs.uniform(1.01, 50., len(sx))) * c["thresh"]
    pin = np.where(rs.rand(len(sx)) < c["fiducial"], rs.randint(1, 5, len(sx)), 0)
    # metrology has fiducial pinholes as well, at positions of spots
    nf = c["nfid"]
    mx, my, mp = np.r_[x, x[:nf] + 1.], np.r_[y, y[:nf]], np.r_[np.zeros(n, int), 1 + np.arange(len(x[:nf]))]
    mname = np.r_[names, names[:nf]]
    o = rs.permutation(len(mx))
    metr = Table(dict(DEVICE_ID=mname[o], PINHOLE_ID=mp[o], X_FP=mx[o], Y_FP=my[o]))
    known = rs.rand(n) > c["unknown"]
    if n and not known.any():
        known[0] = True
    o = rs.permutation(np.flatnonzero(known))
    calib = Table(dict(POS_ID=np.r_[names[o], ["X0001"]], LENGTH_R1=np.r_[r1[o], 9.], LENGTH_R2=np.r_[r2[o], 9.]))
    if c["static"]:
        calib["LENGTH_R1_STATIC"], calib["LENGTH_R2_STATIC"] = np.array(calib["LENGTH_R1"]), np.array(calib["LENGTH_R2"])
        calib["LENGTH_R1"] += 2.
        calib["LENGTH_R2"] -= .5
    fvc = Table(dict(PINHOLE_ID=pin, COUNTS=counts, X_FP=sx, Y_FP=sy))
    return rs, fvc, metr, calib, dict(zip(names[known], (r1 + r2)[known])), dict(zip(names, zip(r1, r2)))


def strat(nmax):
    return lambda: fixed(seed=gen.seeds(), npos=st.integers(1, nmax), pitch=st.one_of(uni(3., 14.), st.just(10.4)), spread=st.sampled_from([.3, 1., 1., 1.1]), missing=st.sampled_from([0., 0., .2]),
                         extra=st.integers(0, 4), faint=st.sampled_from([0., .1]), fiducial=st.sampled_from([0., .1]), nfid=st.integers(0, 3), unknown=st.sampled_from([0., .2, .6]),
                         static=st.booleans(), thresh=st.sampled_from([80000., 80000., 1000.]), fudge=st.sampled_from([.1, .1, 0., .5]), alt=st.booleans())


@sub(P, strat(30), 1500, 15000, "a spot within reach of two positioners or two spots within reach of one", shards=6)
def assignment(c, ctx):
    """assignment is one to one, within reach, bright enough, and as large as a maximum bipartite matching"""
    from desimeter.match_positioners import match_positioners
    rs, fvc, metr, calib, arms, _ = scene(c)
    kw = {}
    if c["thresh"] != 80000.:
        kw["countthresh"] = c["thresh"]
    if c["fudge"] != .1:
        kw["arm_fudge_offset"] = c["fudge"]
    mp = np.flatnonzero(np.array(metr["PINHOLE_ID"]) == 0)
    mid = [str(v) for v in metr["DEVICE_ID"]]
    med = np.median([v + c["fudge"] for v in arms.values()])
    reach = np.array([arms[mid[i]] + c["fudge"] if mid[i] in arms else med for i in mp])
    sp = np.flatnonzero((np.array(fvc["PINHOLE_ID"]) == 0) & (np.array(fvc["COUNTS"]) > c["thresh"]))
    d = np.hypot(np.array(metr["X_FP"])[mp][:, None] - np.array(fvc["X_FP"])[sp], np.array(metr["Y_FP"])[mp][:, None] - np.array(fvc["Y_FP"])[sp])
    within = d < reach[:, None]
    if np.any(np.abs(d - reach[:, None]) < 1e-4):
        return ctx.label("on the edge")
    adj = [list(np.flatnonzero(w)) for w in within]
    best = matching(adj, len(sp))
    conflict = within.sum(axis=0).max(initial=0) > 1 or within.sum(axis=1).max(initial=0) > 1
    ctx.nontrivial(bool(conflict))
    ctx.label("conflicts" if conflict else "no conflict")
    ctx.label("unequal", len(sp) != len(mp))
    res = match_positioners(fvc, metr, calib, return_alternatives=c["alt"], **kw)
    ind, score, total = [np.asarray(v) for v in res[:3]]
    ctx.expect(len(ind) == len(fvc) and len(score) == len(fvc), "one answer per spot")
    no = np.ones(len(fvc), bool)
    no[sp] = False
    ctx.expect(np.all(ind[no] == -1), "a fiducial or faint spot was assigned")
    ctx.expect(np.all(np.isnan(score[ind < 0])) and np.all(np.isfinite(score[ind >= 0])), "score of unassigned spots")
    u = ind[ind >= 0]
    ctx.expect(len(np.unique(u)) == len(u), "a positioner is assigned twice")
    ctx.expect(np.all(np.isin(u, mp)), "a spot is assigned to something which is not a positioner")
    row = {m: i for i, m in enumerate(mp)}
    col = {s: j for j, s in enumerate(sp)}
    pairs = [(row[ind[s]], col[s]) for s in np.flatnonzero(ind >= 0)]
    good = np.array([within[p] for p in pairs], dtype=bool)
    ctx.expect(np.array_equal(score[ind >= 0] == 1, good), "score is not 1 exactly for the pairs within reach")
    ctx.expect(np.all((score[ind >= 0] == 0) | good), "score of a pair out of reach")
    ctx.expect(total == good.sum() == best, "{} assignments announced, {} made, {} possible", total, good.sum(), best)
    for j in np.flatnonzero(within.sum(axis=0) == 1):
        i = np.flatnonzero(within[:, j])[0]
        if within[i].sum() == 1:
            ctx.expect(ind[sp[j]] == mp[i], "unambiguous spot {} not assigned to its positioner", sp[j])
    edges = {p for p, g in zip(pairs, good) if g}
    if c["alt"]:
        alts = []
        for a in np.asarray(res[3]):
            e = [(row.get(a[s]), col.get(s)) for s in np.flatnonzero(a >= 0)]
            ctx.expect(all(i is not None and j is not None for i, j in e), "an alternative assigns something which is not a positioner or a valid spot")
            ctx.expect(len({i for i, j in e}) == len(e), "an alternative uses a positioner twice")
            e = {p for p in e if within[p]}
            ctx.expect(len(e) == best, "an alternative makes {} assignments instead of {}", len(e), best)
            alts.append(e)
        for i, j in edges:
            if matching(adj, len(sp), (i, j)) == best:
                ctx.label("ambiguous pair")
                ctx.expect(any((i, j) not in e for e in alts), "no alternative found to the ambiguous pair {}", (i, j))
    # order of spots and positioners
    o1, o2, o3 = rs.permutation(len(fvc)), rs.permutation(len(metr)), rs.permutation(len(calib))
    r2 = match_positioners(fvc[o1], metr[o2], calib[o3], **kw)
    ctx.expect(r2[2] == best, "{} assignments in another order of the rows, {} in the first", r2[2], best)
    ind2 = np.full(len(fvc), -1)
    ind2[o1] = np.where(r2[0] >= 0, o2[r2[0]], -1)
    for i, j in edges:
        if matching(adj, len(sp), (i, j)) < best:
            ctx.expect(ind2[sp[j]] == mp[i], "the certain pair {} is lost in another order", (i, j))


@sub(P, strat(12), 500, 5000, "some positioner with several possible spots", shards=2, floor=.05)
def groupings(c, ctx):
    """printed groups list every possible spot of each positioner with a consistent elbow"""
    from desimeter.match_positioners import match_positioners, print_groupings, possible_assignments_dict
    rs, fvc, metr, calib, arms, both = scene(dict(c, nfid=0))
    res = match_positioners(fvc, metr, calib, countthresh=c["thresh"], return_alternatives=True)
    ind, alts = res[0], res[3]
    want = {}
    for a in [ind] + list(alts):
        for s in np.flatnonzero(np.asarray(a) >= 0):
            want.setdefault(int(a[s]), set()).add(int(s))
    got = possible_assignments_dict(ind, alts)
    ctx.expect({int(k): {int(v) for v in w} for k, w in got.items()} == want, "possible assignments {} instead of {}", got, want)
    only = possible_assignments_dict(ind, None)
    ctx.expect({int(k): {int(v) for v in w} for k, w in only.items()} == {int(ind[s]): {int(s)} for s in np.flatnonzero(ind >= 0)}, "possible assignments without alternatives")
    if not want:
        return
    ctx.nontrivial(max(map(len, want.values())) > 1)
    use = calib if c["alt"] else None
    f = io.StringIO()
    print_groupings(fvc, metr, ind, alts, file=f, calib=use)
    lines = f.getvalue().split("\n")
    head, rows = lines[0].split(), [l.split() for l in lines[1:] if l.strip()]
    names = [r[0] for r in rows]
    ctx.expect(names == sorted(names), "positioners are not listed in order")
    byname = {}
    for m, s in want.items():
        byname.setdefault(str(metr["DEVICE_ID"][m]), []).extend((float(fvc["X_FP"][k]), float(fvc["Y_FP"][k])) for k in s)
    ctx.expect(len(rows) == sum(map(len, byname.values())) and all(len(r) == len(head) for r in rows), "{} lines for {} possible pairs", len(rows), sum(map(len, byname.values())))
    for nm, spots in byname.items():
        mine = [r for r in rows if r[0] == nm]
        ctx.expect(sorted((float(r[1]), float(r[2])) for r in mine) == sorted(spots), "spots listed for {}", nm)
        ctx.expect(all(int(r[-1]) == len(spots) for r in mine), "number of spots of {}", nm)
        if use is None:
            continue
        k = list(calib["POS_ID"]).index(nm) if nm in list(calib["POS_ID"]) else None
        if k is None:
            continue
        r1, r2 = np.float32(calib["LENGTH_R1"][k]), np.float32(calib["LENGTH_R2"][k])
        m = [i for i in want if str(metr["DEVICE_ID"][i]) == nm][0]
        cx, cy = metr["X_FP"][m], metr["Y_FP"][m]
        for r in mine:
            x, y, ex, ey = map(float, r[1:5])
            dist = np.hypot(x - cx, y - cy)
            if abs(r1 - r2) + 1e-3 < dist < r1 + r2 - 1e-3:
                ctx.close([np.hypot(ex - cx, ey - cy), np.hypot(ex - x, ey - y)], [r1, r2], 1e-4, "arm lengths to the elbow")


@sub(P, lambda: fixed(seed=gen.seeds(), n1=st.integers(1, 20), n2=st.integers(1, 20), rad=st.one_of(uni(0., 1.), st.just(5.)), keys=st.integers(1, 30)), 800, 8000, "some pair within the radius", shards=1)
def pairs(c, ctx):
    """all pairs within a radius, and equal keys, by brute force"""
    from desimeter import match_positioners as M
    rs = np.random.RandomState(c["seed"] % 2**32)
    x1, y1 = rs.uniform(-1, 1, (2, c["n1"]))
    x2, y2 = rs.uniform(-1, 1, (2, c["n2"]))
    d = np.hypot(x1[:, None] - x2, y1[:, None] - y2)
    if np.any(np.abs(d - c["rad"]) < 1e-12):
        return
    a, b, dd = M.match2d(x1, y1, x2, y2, c["rad"])
    ctx.nontrivial(bool((d < c["rad"]).any()))
    ctx.expect(sorted(zip(map(int, a), map(int, b))) == [tuple(map(int, p)) for p in np.argwhere(d < c["rad"])], "pairs within the radius")
    ctx.close(dd, d[a, b], 1e-12, "distance of a pair")
    ka = rs.permutation(30)[:c["keys"]]
    kb = rs.randint(-3, 33, c["n2"])
    if c["seed"] % 2:
        ka, kb = np.array(["k%d" % v for v in ka]), np.array(["k%d" % v for v in kb])
    ma, mb = M.match(ka, kb)
    want = [(list(ka).index(v), j) for j, v in enumerate(kb) if v in list(ka)]
    ctx.expect(list(zip(map(int, ma), map(int, mb))) == want, "equal keys of {} and {}: {} {}", ka, kb, ma, mb)
    try:
        M.match(np.r_[ka, ka[:1]], kb)
    except ValueError:
        return
    ctx.fail("duplicate keys accepted")
