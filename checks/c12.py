"""C12 angular moves."""
import math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, mix

P = "C12"
HALF = st.integers(-3600, 3600).map(lambda k: k / 4.)


def angle():
    return st.one_of(HALF, mix(-200., 200., 0., 180., -180.), mix(-1000., 1000., 0., 360., 720., -360.), st.sampled_from([0., 180., -180., 360., -360., 720., 179., -179., 400., 800.]))


def direction():
    return st.sampled_from([0, 1, -1, 0., 1., -1., 2, -3, .5, -0.1])


def model(u0, u1, d):
    """from the docstring, in exact arithmetic.  None where rounding decides (difference within 1e-9 of whole turns but not on them)"""
    n = Fraction(u1 - u0)          # the rounded difference is the one the caller sees
    sg = (n > 0) - (n < 0)
    d = (d > 0) - (d < 0)
    if d == 0 or d == sg or n == 0:
        return n
    if n % 360 == 0:
        return abs(n) * d          # exact revolutions: as many the other way
    m = n % 360                    # in (0, 360)
    return m if d > 0 else m - 360


def check(ctx, u0, u1, d, got, what):
    want = model(u0, u1, d)
    w = float(want)
    s = (d > 0) - (d < 0)
    # whatever the rounding: ends on the target, obeys the direction, no more turns than needed
    off = (got - (u1 - u0) + 180.) % 360. - 180.
    ctx.close(off, 0., 1e-9, "%s: does not end on the final angle modulo 360" % what)
    if s:
        ctx.expect(got * s >= 0, "{}: moved {!r} against direction {!r}", what, got, d)
    near = abs((u1 - u0 + 180.) % 360. - 180.)
    if near > 1e-9 or (u1 - u0) % 360. == 0:
        ctx.close(got, w, 1e-9, "%s: from %r to %r direction %r" % (what, u0, u1, d))
    else:
        ctx.expect(abs(got) <= max(abs(u1 - u0), 360.) + 1e-9, "{}: {!r} wraps further than needed", what, got)


def cast(v, how):
    if how == "scalar":
        return v[0]
    return {"list": list, "tuple": tuple, "array": np.array}[how](v)


HOW = st.sampled_from(["scalar", "list", "array", "tuple"])


@sub(P, lambda: fixed(a=st.lists(st.tuples(angle(), angle(), direction()).map(list), min_size=1, max_size=6), h=st.tuples(HOW, HOW, st.sampled_from(["scalar", "list", "array", "tuple", "default"])).map(list)),
     6000, 60000, "direction against the plain difference", shards=2, floor=.15)
def moves(c, ctx):
    """angle after a move equals the target; direction obeyed; size below a turn where so documented"""
    from desimeter.transform.pos2ptl import delta_angle
    a, h = c["a"], c["h"]
    cols = [[r[0] for r in a], [r[1] for r in a], [r[2] for r in a]]
    if h[2] == "default":
        cols[2] = [0] * len(a)
    for k in range(3):
        if h[k] == "scalar":
            cols[k] = [cols[k][0]] * len(a)
    n = len(a)
    if all(x in ("scalar", "default") for x in h):
        n = 1
    args = [cast(v, x) for v, x in zip(cols, h) if x != "default"]
    keep = [np.array(v, dtype=float).copy() for v in args]
    ctx.nontrivial(any(r[2] * (r[1] - r[0]) < 0 for r in zip(*cols)))
    ctx.label("mixed scalars and vectors", len(a) > 1 and len({x == "scalar" for x in h if x != "default"}) > 1)
    ctx.label("several revolutions", any(abs(r[1] - r[0]) > 360 for r in zip(*cols)))
    ctx.label("exact revolutions", any((r[1] - r[0]) % 360 == 0 for r in zip(*cols)))
    got = np.ravel(delta_angle(*args))
    ctx.expect(len(got) == n, "%d results for %d moves" % (len(got), n))
    for i in range(n):
        check(ctx, cols[0][i], cols[1][i], cols[2][i], float(got[i]), "move %d" % i)
    for v, k in zip(args, keep):
        ctx.expect(np.array_equal(np.array(v, dtype=float), k), "input modified")


@sub(P, lambda: fixed(a=st.lists(st.tuples(st.integers(-800, 800), st.integers(-800, 800), st.sampled_from([-1, 0, 1])).map(list), min_size=1, max_size=6), h=st.sampled_from(["list", "array"])),
     2000, 20000, "direction against the plain difference", floor=.15)
def whole_degrees(c, ctx):
    """integer inputs"""
    from desimeter.transform.pos2ptl import delta_angle
    u0, u1, d = [cast([r[k] for r in c["a"]], c["h"]) for k in range(3)]
    ctx.nontrivial(any(r[2] * (r[1] - r[0]) < 0 for r in c["a"]))
    got = delta_angle(u0, u1, d)
    for i, r in enumerate(c["a"]):
        check(ctx, r[0], r[1], r[2], float(got[i]), "move %d" % i)
    # the opposite move in the opposite direction
    back = delta_angle(u1, u0, [-r[2] for r in c["a"]])
    ctx.close(np.array(back, float), -np.array(got, float), 0., "the move back")
