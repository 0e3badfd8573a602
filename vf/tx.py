"""Strategies for camera transforms and fiducial scenes."""
import numpy as np
from hypothesis import strategies as st
from . import zb
from .gen import mix, fixed

STD = [0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30]


def coeffs(ids):
    if len(ids) == 0:
        return st.just([])
    return st.one_of(
        st.tuples(*[mix(-zb.SIZES.get(i, .0005), zb.SIZES.get(i, .0005), 0.) for i in ids]).map(list),
        # sparse: a few terms only
        st.dictionaries(st.sampled_from(ids), st.sampled_from([-1., 1., .5]), max_size=3).map(
            lambda d: [zb.SIZES.get(i, .0005) * d.get(i, 0.) for i in ids]))


def camera(ids=STD, sro_small=False):
    a = 0.02 if sro_small else 0.05
    return fixed(scale=mix(1 - 3 * a, 1 + 3 * a, 1.), rotation=mix(-a, a, 0.) if sro_small else
                 st.one_of(mix(-a, a, 0.), mix(-np.pi, np.pi, np.pi, np.pi / 2)),
                 offset_x=mix(-a, a, 0.), offset_y=mix(-a, a, 0.),
                 ids=st.just(ids), coeffs=coeffs(ids) if not sro_small else coeffs(ids).map(lambda c: [v * (.1 if i in (0, 1, 2, 27) else .7) for i, v in zip(ids, c)]),
                 reduce=st.sampled_from([[-3000., 3000., 3000., 3000.]] * 3 + [[-2900., 2900., 2950., 3050.], [3000., 3000., 3000., 3000.],
                                                                               [-1500., 1600., 1500., 1450.]]))


def random_camera(rs):
    """a camera from a numpy random state"""
    return dict(scale=rs.uniform(.9, 1.1), rotation=rs.uniform(-np.pi, np.pi), offset_x=rs.uniform(-.03, .03), offset_y=rs.uniform(-.03, .03), ids=list(STD),
                coeffs=[float(rs.uniform(-.5, .5) * zb.SIZES.get(i, .0005)) for i in STD], reduce=[-3000., 3000., 3000., 3000.])


def make(t):
    from desimeter.transform.fvc2fp import FVC2FP
    tx = FVC2FP()
    tx.scale, tx.rotation, tx.offset_x, tx.offset_y = t["scale"], t["rotation"], t["offset_x"], t["offset_y"]
    tx.zbpolids = np.array(t["ids"], dtype=int)
    tx.zbcoeffs = np.array(t["coeffs"], dtype=float)
    tx.xfvc_scale, tx.yfvc_scale, tx.xfvc_offset, tx.yfvc_offset = t["reduce"]
    return tx


def forward(t, xpix, ypix):
    xs, ys, xo, yo = t["reduce"]
    x, y = zb.forward((np.asarray(xpix) - xo) / xs, (np.asarray(ypix) - yo) / ys, t["scale"], t["rotation"],
                      t["offset_x"], t["offset_y"], t["ids"], t["coeffs"])
    return x * 420., y * 420.


def inverse(t, xfp, yfp):
    xs, ys, xo, yo = t["reduce"]
    x, y = zb.inverse(np.asarray(xfp) / 420., np.asarray(yfp) / 420., t["scale"], t["rotation"],
                      t["offset_x"], t["offset_y"], t["ids"], t["coeffs"])
    return x * xs + xo, y * ys + yo
