"""Zhao-Burge vector polynomials written out in Cartesian form (independent of /repo),
from the Noll Zernike table and Zhao & Burge (2007, 2008)."""
import numpy as np

s = np.sqrt


def noll(x, y):
    r2 = x * x + y * y
    c = (x + 1j * y)
    return {
        1: 1 + 0 * x, 2: 2 * x, 3: 2 * y, 4: s(3) * (2 * r2 - 1), 5: s(6) * 2 * x * y, 6: s(6) * (x * x - y * y),
        7: s(8) * (3 * r2 - 2) * y, 8: s(8) * (3 * r2 - 2) * x, 9: s(8) * (c**3).imag, 10: s(8) * (c**3).real,
        11: s(5) * (6 * r2**2 - 6 * r2 + 1), 12: s(10) * (4 * r2 - 3) * (c**2).real, 13: s(10) * (4 * r2 - 3) * (c**2).imag,
        14: s(10) * (c**4).real, 15: s(10) * (c**4).imag,
        16: s(12) * (10 * r2**2 - 12 * r2 + 3) * x, 17: s(12) * (10 * r2**2 - 12 * r2 + 3) * y,
        18: s(12) * (5 * r2 - 4) * (c**3).real, 19: s(12) * (5 * r2 - 4) * (c**3).imag,
        20: s(12) * (c**5).real, 21: s(12) * (c**5).imag}


def terms(x, y):
    """list of (fx, fy) for polids 0..32"""
    Z = noll(np.asarray(x, float), np.asarray(y, float))
    h = s(.5)
    z = 0 * Z[1]
    S = [
        (Z[1], z), (z, Z[1]),
        (h * Z[2], h * Z[3]), (h * Z[3], h * Z[2]), (h * Z[2], -h * Z[3]),
        (.5 * Z[5], h * Z[4] - .5 * Z[6]), (h * Z[4] + .5 * Z[6], .5 * Z[5]),
        (h * Z[5], h * Z[6]), (h * Z[6], -h * Z[5]),
        (h * Z[8], h * Z[7]),
        (.5 * (Z[8] + Z[10]), .5 * (Z[9] - Z[7])), (.5 * (Z[7] + Z[9]), .5 * (Z[8] - Z[10])),
        (h * Z[10], -h * Z[9]), (h * Z[9], h * Z[10]),
        (h * Z[11] + .5 * Z[12], .5 * Z[13]), (.5 * Z[13], h * Z[11] - .5 * Z[12]),
        (.5 * (Z[12] + Z[14]), .5 * (Z[15] - Z[13])), (.5 * (Z[13] + Z[15]), .5 * (Z[12] - Z[14])),
        (h * Z[14], -h * Z[15]), (h * Z[15], h * Z[14]),
        (h * Z[16], h * Z[17]),
        (.5 * (Z[17] + Z[19]), .5 * (Z[16] - Z[18])), (.5 * (Z[16] + Z[18]), .5 * (Z[19] - Z[17])),
        (.5 * (Z[19] + Z[21]), .5 * (Z[18] - Z[20])), (.5 * (Z[18] + Z[20]), .5 * (Z[21] - Z[19])),
        (h * Z[21], h * Z[20]), (h * Z[20], -h * Z[21]),
    ]
    T = [
        (h * Z[3], -h * Z[2]),
        (h * Z[4] - .5 * Z[6], -.5 * Z[5]), (.5 * Z[5], -h * Z[4] - .5 * Z[6]),
        (h * Z[7], -h * Z[8]),
        (.5 * (Z[9] - Z[7]), -.5 * (Z[8] + Z[10])), (.5 * (Z[8] - Z[10]), -.5 * (Z[7] + Z[9])),
    ]
    return S + T


def eval(polids, coeffs, x, y):
    t = terms(x, y)
    dx = sum(c * t[p][0] for p, c in zip(polids, coeffs)) if len(polids) else 0 * np.asarray(x)
    dy = sum(c * t[p][1] for p, c in zip(polids, coeffs)) if len(polids) else 0 * np.asarray(x)
    return dx, dy


def forward(x, y, scale, rotation, ox, oy, polids, coeffs):
    x, y = np.asarray(x, float) + ox, np.asarray(y, float) + oy
    c, s_ = np.cos(rotation), np.sin(rotation)
    xx, yy = scale * (c * x - s_ * y), scale * (s_ * x + c * y)
    dx, dy = eval(polids, coeffs, xx, yy)
    return xx + dx, yy + dy


def inverse(X, Y, scale, rotation, ox, oy, polids, coeffs, niter=200):
    """damped-free fixed point to machine precision, then the linear part"""
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    x, y = X.copy(), Y.copy()
    for _ in range(niter):
        dx, dy = eval(polids, coeffs, x, y)
        x2, y2 = X - dx, Y - dy
        done = np.max(np.abs(x2 - x), initial=0) < 1e-15 and np.max(np.abs(y2 - y), initial=0) < 1e-15
        x, y = x2, y2
        if done:
            break
    x, y = x / scale, y / scale
    c, s_ = np.cos(rotation), np.sin(rotation)
    return c * x + s_ * y - ox, -s_ * x + c * y - oy


SIZES = {0: .01, 1: .01, 2: .02, 3: .002, 4: .002, 5: .001, 6: .001, 7: .0005, 8: .0005, 9: .01, 20: .001,
         27: .005, 28: .001, 29: .001, 30: .0005}
