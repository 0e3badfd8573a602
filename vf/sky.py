"""Independent spherical-astronomy model (rotation vectors, no code from /repo).

Constants are those documented in the repository's docstrings and comments.
"""
import numpy as np

LAT = 31.96403                      # Mayall latitude, deg
D = np.pi / 180.
REFR30 = 79.                        # arcsec at 30 deg elevation, cot(alt) law
ME, MA = -120., -2.                 # polar misalignment, arcsec
OBLIQ = 23 + 26 / 60. + 21.406 / 3600.
PREC_PERIOD = 360. / (5028.796195 / 100. / 3600.)   # Julian years


def vec(lon, lat):
    lon, lat = np.asarray(lon, float) * D, np.asarray(lat, float) * D
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) + 0 * lon], axis=-1)


def lonlat(v):
    lon = np.arctan2(v[..., 1], v[..., 0]) / D % 360.
    lat = np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])) / D
    return lon, lat


def rot(axis, deg):
    """active rotation matrix about axis ('x','y','z' or vector) by deg"""
    if isinstance(axis, str):
        axis = dict(x=[1, 0, 0], y=[0, 1, 0], z=[0, 0, 1])[axis]
    u = np.asarray(axis, float)
    u = u / np.linalg.norm(u)
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    a = deg * D
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * (k @ k)


def sep(lon1, lat1, lon2, lat2):
    """angular separation in arcsec, accurate for small and large angles"""
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    c = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(c, np.sum(a * b, axis=-1)) / D * 3600.


def offset(lon, lat, theta, phi):
    """Point at distance theta from (lon,lat), direction phi measured from +lat (north) towards +lon (east)."""
    b = vec(lon, lat)
    n = vec(lon, np.asarray(lat, float) + 90.)
    e = vec(np.asarray(lon, float) + 90., 0.)
    th, ph = np.asarray(theta, float)[..., None] * D, np.asarray(phi, float)[..., None] * D
    v = np.cos(th) * b + np.sin(th) * (np.cos(ph) * n + np.sin(ph) * e)
    return lonlat(v)


def hadec2altaz(ha, dec):
    """azimuth from north through east"""
    v = vec(-np.asarray(ha, float), dec)          # x towards meridian on equator, y east, z pole
    up = np.array([np.cos(LAT * D), 0, np.sin(LAT * D)])
    north = np.array([-np.sin(LAT * D), 0, np.cos(LAT * D)])
    east = np.array([0., 1., 0.])
    z, n, e = v @ up, v @ north, v @ east
    return np.arctan2(z, np.hypot(n, e)) / D, np.arctan2(e, n) / D % 360.


def altaz2hadec(alt, az):
    alt, az = np.asarray(alt, float) * D, np.asarray(az, float) * D
    up = np.array([np.cos(LAT * D), 0, np.sin(LAT * D)])
    north = np.array([-np.sin(LAT * D), 0, np.cos(LAT * D)])
    east = np.array([0., 1., 0.])
    v = (np.sin(alt)[..., None] * up + (np.cos(alt) * np.cos(az))[..., None] * north
         + (np.cos(alt) * np.sin(az))[..., None] * east)
    lon, lat = lonlat(v)
    return (-lon) % 360., lat


def precess(ra, dec, mjd):
    """ICRS -> date: ecliptic longitude grows uniformly (fixed obliquity)"""
    years = (mjd - 51544.5) / 365.256363004
    R = rot('x', OBLIQ) @ rot('z', 360. * years / PREC_PERIOD) @ rot('x', -OBLIQ)
    return lonlat(vec(ra, dec) @ R.T)


def sun_lon(mjd):
    d = mjd - 51544.5
    g = (357.528 + 0.9856003 * d) * D
    return 280.460 + 0.9856474 * d + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g)


def aberrate(ra, dec, mjd):
    """circular-orbit annual aberration, apex at sun longitude - 90 on the ecliptic"""
    v = vec(ra, dec)
    apex = rot('x', OBLIQ) @ vec(sun_lon(mjd) - 90., 0.)
    k = 0.99365e-4
    w = v + k * (apex - (v @ apex)[..., None] * v)
    return lonlat(w)


def polmis(ha, dec):
    """rotation taking the mount's pole to the true pole; mount pole at alt=LAT-ME, az=MA"""
    def hv(ha, dec):
        return vec(ha, dec)
    h1, d1 = altaz2hadec(LAT - ME / 3600., MA / 3600.)
    p = hv(h1, d1)
    z = np.array([0., 0., 1.])
    ax = np.cross(p, z)
    ang = np.arctan2(np.linalg.norm(ax), p @ z) / D
    return lonlat(hv(ha, dec) @ rot(ax, ang).T)


def refract(alt):
    return np.asarray(alt, float) + REFR30 / 3600. * np.tan(30 * D) / np.tan(np.asarray(alt, float) * D)


def radec2tan(ra, dec, tra, tdec, mjd, lst, hexrot, precession=True, aberration=True, polar_misalignment=True):
    ra, dec = np.asarray(ra, float), np.asarray(dec, float)
    out = []
    for a, d in ((ra, dec), (np.asarray(tra, float), np.asarray(tdec, float))):
        if precession:
            a, d = precess(a, d, mjd)
        if aberration:
            a, d = aberrate(a, d, mjd)
        h = lst - a
        if polar_misalignment:
            h, d = polmis(h, d)
        al, az = hadec2altaz(h, d)
        h, d = altaz2hadec(refract(al), az)
        out.append((h, d))
    (h, d), (th, td) = out
    v = vec(h, d)
    ex = vec(th + 90., 0.)          # +x: larger hour angle
    ey = vec(th, td + 90.)          # +y: larger declination
    x, y = v @ ex, v @ ey
    c, s = np.cos(hexrot * D), np.sin(hexrot * D)
    return c * x - s * y, s * x + c * y
