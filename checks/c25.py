"""C25 bit masks and move flags"""
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, uni, mix

P = "C25"
D = np.pi / 180
NAME = st.from_regex(r"\A[A-Z][A-Z0-9_]{0,11}\Z").filter(lambda n: n not in ("ON", "OFF", "YES", "NO", "TRUE", "FALSE", "NULL", "Y", "N"))     # words that mean something else in YAML
WORD = st.text(alphabet="abcdefghij klmno.pqrs()-", max_size=20)
EXTRA = st.dictionaries(st.sampled_from(["sciencename", "priority", "level", "colour"]), st.one_of(st.integers(-5, 1000), st.sampled_from(["red", "x y"]), st.booleans()), max_size=3)


def defs():
    one = st.tuples(NAME, gen.count(0, 62) | st.sampled_from([0, 1, 31, 32, 52, 53, 62, 63]), WORD, st.one_of(st.none(), EXTRA))
    return st.lists(one, min_size=1, max_size=20, unique_by=(lambda t: t[0], lambda t: t[1])).map(lambda l: [list(t) for t in l])


@sub(P, lambda: fixed(defs=defs(), pick=st.lists(st.integers(0, 19), max_size=20), foreign=st.lists(st.integers(0, 63), max_size=3), missing=NAME, np_=st.booleans()), 1500, 20000, "several names in the mask", shards=2)
def masks(c, ctx):
    """names <-> bits for generated masks, in every documented form of call"""
    import yaml
    from desimeter.bitmask import BitMask
    d = c["defs"]
    spec = {"other": [["ZZZ", 5, "of another mask"]], "m": [[n, b, t] if e is None else [n, b, t, e] for n, b, t, e in d]}
    import copy
    keep = copy.deepcopy(spec)
    m = BitMask("m", spec)
    ctx.expect(spec == keep, "definitions modified")
    table = {n: b for n, b, t, e in d}
    back = {b: n for n, b in table.items()}
    pick = sorted({d[i % len(d)][0] for i in c["pick"]}, key=lambda n: table[n])
    ctx.nontrivial(len(pick) > 1)
    val = sum(1 << table[n] for n in pick)
    ctx.expect(m.names() == [back[b] for b in sorted(back)], "all names {}", m.names())
    for n, b, t, e in d:
        ctx.expect(m.bitnum(n) == b and m.bitname(b) == n and m.comment(n) == t and m.comment(b) == t, "bit {}", n)
        ctx.expect(m.mask(n) == m.mask(b) == m[n] == m[b] == getattr(m, n) == 1 << b, "mask of {}", n)
        bit = getattr(m, n)
        ctx.expect((bit.name, bit.bitnum, bit.mask, bit.comment) == (n, b, 1 << b, t), "attributes of {}", n)
        for k, v in (e or {}).items():
            ctx.expect(getattr(bit, k) == v, "extra {} of {}", k, n)
        ctx.expect(n in str(bit) and str(b) in str(bit), "text of {}", n)
    if pick:
        perm = pick[::-1] if c["np_"] else pick
        ctx.expect(m.mask("|".join(perm)) == val, "mask of {}: {}", perm, m.mask("|".join(perm)))
        v = 0
        for n in perm:
            v |= m[n]
        ctx.expect(v == val, "bits of {} combined: {}", perm, v)
    arg = (np.uint64(val) if c["np_"] else val)
    ctx.expect(m.names(arg) == pick, "names of {}: {} instead of {}", val, m.names(arg), pick)
    foreign = sorted({b for b in c["foreign"]} - set(back))
    allnames = [back.get(b, "UNKNOWN%d" % b) for b in sorted({table[n] for n in pick} | set(foreign))]
    w = val | sum(1 << b for b in foreign)
    ctx.label("undefined bits", len(foreign) > 0)
    ctx.expect(m.names(w) == allnames, "names of {}: {} instead of {}", w, m.names(w), allnames)
    # unknown
    if c["missing"] not in table and not hasattr(BitMask, c["missing"]):
        x = c["missing"]
        ctx.raises((KeyError,), lambda: m[x], "unknown name")
        ctx.raises((KeyError,), lambda: m.mask(x), "unknown name")
        ctx.raises((KeyError,), lambda: m.mask(d[0][0] + "|" + x), "unknown name")
        ctx.raises((KeyError,), lambda: m.bitnum(x), "unknown name")
        ctx.raises((KeyError,), lambda: m.comment(x), "unknown name")
        ctx.raises((AttributeError,), lambda: getattr(m, x), "unknown name")
    free = [b for b in range(64) if b not in back]
    if free:
        ctx.raises((KeyError,), lambda: m.bitname(free[0]), "unknown bit")
        ctx.raises((KeyError,), lambda: m.mask(free[-1]), "unknown bit")
    ctx.raises((KeyError,), lambda: BitMask("nosuch", spec), "unknown mask")
    # written as text
    r = BitMask("m", yaml.safe_load(repr(m)))
    ctx.expect(r.names() == m.names() and all((r.bitnum(n), r.comment(n), r.mask(n)) == (m.bitnum(n), m.comment(n), m.mask(n)) for n in table), "definitions written and read back {}", repr(m))
    for n, b, t, e in d:
        for k, v in (e or {}).items():
            ctx.expect(getattr(r[n], k) == v, "extra {} of {} read back", k, n)


@sub(P, lambda: fixed(kind=st.sampled_from(["clash", "nodict"]), key=st.sampled_from(["name", "bitnum", "mask", "comment", "real", "bit_length"]), bad=st.sampled_from([[1], "text", 3])), 60, 200, "any", shards=1)
def refused_definitions(c, ctx):
    """unusable definitions and unknown names are refused"""
    from desimeter.bitmask import BitMask
    ctx.nontrivial()
    e = {c["key"]: 1} if c["kind"] == "clash" else c["bad"]
    ctx.raises((AttributeError, ValueError), lambda: BitMask("m", {"m": [["A", 0, "", e]]}), "definition with extra %r" % (e,))


# bits published for the online system and for this package
ONLINE = "MATCHED PINHOLE POSITIONER FIDUCIAL FVCERROR BADPOSFID MOVED GIF ETC FITTEDPINHOLE MATCHEDCENTER AMBIGUOUS FVCPROC . ASSIGNED CONVERGED NOTCTLENABLED BROKENFIBER COMERROR OVERLAP FROZEN UNREACHABLE BOUNDARYVIOLATION MULTIPLEREQUESTS NONFUNCTIONAL REJECTED EXPERTLIMIT BADNEIGHBOR MISSINGSPOT BADPERFORMANCE".split()
MOVE = "THETA_STUCK PHI_STUCK FAILED_FIT INVALID_TABLE INVALID_AFTER_FILTER".split()


@sub(P, lambda: fixed(which=st.sampled_from(["online", "move"]), bits=st.integers(0, 2**30 - 1)), 400, 4000, "several bits", shards=1)
def shipped(c, ctx):
    """names and bits of the shipped masks"""
    from desimeter.posparams.posflags_mask import posflags_mask
    from desimeter.posparams.movemask import movemask
    m, names = dict(online=(posflags_mask, ONLINE), move=(movemask, MOVE))[c["which"]]
    bits = c["bits"] % (1 << len(names))
    want = [n if n != "." else "UNKNOWN%d" % i for i, n in enumerate(names) if bits >> i & 1]
    ctx.nontrivial(len(want) > 1)
    ctx.expect(m.names(bits) == want, "names of {}: {} instead of {}", bits, m.names(bits), want)
    known = [n for n in want if not n.startswith("UNKNOWN")]
    if known:
        ctx.expect(m.mask("|".join(known)) == sum(1 << names.index(n) for n in known), "mask of {}", known)
    ctx.expect(m.names() == [n for n in names if n != "."], "all names")


@sub(P, lambda: fixed(seed=gen.seeds(), groups=st.lists(st.tuples(st.one_of(st.integers(-5, 200), st.sampled_from([160, 161, 160.5, 159.999, 180, 130])), gen.count(1, 12), st.one_of(uni(0., 19.), uni(20.5, 360.), st.sampled_from([0., 180., 360.]))).map(list), min_size=1, max_size=5, unique_by=lambda g: g[0]),
                      state=st.sampled_from(["moving", "moving", "theta stuck", "all stuck", "barely", "some"]), r1=uni(2.8, 3.2), r2=uni(2.8, 3.2), noise=st.sampled_from([0., .002, .01]), order=st.sampled_from(["grouped", "random"])), 2500, 30000, "a tested group", shards=3)
def move_flags(c, ctx):
    """flags of generated move histories against the documented rules"""
    from desimeter.posparams.flags import eval_move_flags
    from desimeter.posparams.movemask import movemask
    rs = np.random.RandomState(c["seed"] % 2**32)
    T, Ph = [], []
    for p, n, rng in c["groups"]:
        t = rs.uniform(-170, 170) + np.r_[0., rng, rs.uniform(0, rng, max(n - 2, 0))][:n]
        T += list(t)
        Ph += [float(p)] * n
    T, Ph = np.array(T), np.array(Ph)
    o = rs.permutation(len(T)) if c["order"] == "random" else np.arange(len(T))
    T, Ph = T[o], Ph[o]
    t0, p0 = rs.uniform(-180, 180), rs.uniform(10, 170)
    t = dict(moving=T + t0, barely=t0 + T * .02)
    t = t.get(c["state"], np.where(Ph == c["groups"][0][0], T, 0.) + t0 if c["state"] == "some" else np.full(len(T), t0))
    ph = np.full(len(T), p0) if c["state"] == "all stuck" else Ph
    x = 200 + c["r1"] * np.cos(t * D) + c["r2"] * np.cos((t + ph) * D) + rs.normal(size=len(T)) * c["noise"]
    y = -40 + c["r1"] * np.sin(t * D) + c["r2"] * np.sin((t + ph) * D) + rs.normal(size=len(T)) * c["noise"]
    args = [T.tolist(), Ph.tolist(), x.tolist(), y.tolist()]
    keep = [list(a) for a in args]
    # documented rule: at least 4 positions with the same phi (not more than 160) and 20 degrees of range in theta
    tested, moved, sure = False, False, True
    for p in sorted(set(Ph)):
        k = Ph == p
        if k.sum() < 4 or p > 160:
            continue
        r = np.ptp(T[k])
        if abs(r - 20) < 1e-6:
            return ctx.label("borderline")
        if r < 20:
            continue
        tested = True
        s = np.sqrt(np.var(x[k]) + np.var(y[k]))
        if abs(s - .1) < 1e-6:
            return ctx.label("borderline")
        moved |= s > .1
    want = movemask.THETA_STUCK if tested and not moved else 0
    ctx.nontrivial(tested)
    ctx.label("stuck", want > 0), ctx.label("moving", tested and moved), ctx.label("untested", not tested)
    got = eval_move_flags(*args)
    ctx.expect(args == keep, "inputs modified")
    ctx.expect(got == want, "flags {} instead of {}", got, want)
    o = rs.permutation(len(T))
    ctx.expect(eval_move_flags(*[[a[i] for i in o] for a in args]) == want, "flags with the moves in another order")
    a = rs.uniform(0, 2 * np.pi)
    ctx.expect(eval_move_flags(args[0], args[1], (np.cos(a) * x - np.sin(a) * y).tolist(), (np.sin(a) * x + np.cos(a) * y).tolist()) == want or abs(a) < 0, "flags in a rotated frame")
    ctx.raises((AssertionError,), lambda: eval_move_flags(args[0][:-1], *args[1:]), "lists of different length")
