"""C19 field models from guide stars"""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, sky, data
from vf.gen import fixed, uni, mix

P = "C19"
D = np.pi / 180


def model_case():
    return dict(p=gen.pointing(altmin=28.), adc1=gen.angle(0., 360.), adc2=gen.angle(0., 360.), sxx=mix(.995, 1.005, 1.), syy=mix(.995, 1.005, 1.), sxy=mix(-.003, .003, 0.),
                zp=st.one_of(mix(-1., 1., 0.), mix(359., 361., 360., 0.)), flags=st.sampled_from([[True] * 3] * 3 + [[False, True, True], [True, False, True], [True, True, False], [False] * 3]))


def build(c):
    from desimeter.fieldmodel import FieldModel
    fm = FieldModel()
    p = c["p"]
    fm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg = p["ra"], p["dec"], p["mjd"], p["lst"], p["hexrot"]
    fm.adc1, fm.adc2, fm.sxx, fm.syy, fm.sxy, fm.fieldrot_zp_deg = c["adc1"], c["adc2"], c["sxx"], c["syy"], c["sxy"], c["zp"]
    fm.precession, fm.aberration, fm.polar_misalignment = c["flags"]
    return fm


def inst2sky(c, x, y):
    """own correction of the tangent plane"""
    a = c["zp"] * D
    u, v = np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y
    return c["sxx"] * u + c["sxy"] * v, c["sxy"] * u + c["syy"] * v


def slack(c, dec):
    """arcsec; round trips of the sky transforms degrade next to the pole and to the zenith"""
    return .08 + .02 / np.maximum(np.cos(dec * D), 1e-3) + (.3 if c["p"]["alt"] > 87 else 0.)


@sub(P, lambda: fixed(pts=gen.field_offsets(2, 8, 1.5), **model_case()), 700, 8000, "off-centre star and a correction", shards=5)
def both_ways(c, ctx):
    """sky -> focal plane against an own model, and back"""
    fm = build(c)
    t, ph = np.array(c["pts"]).T
    ctx.nontrivial(t.max() > .1 and (c["zp"] % 360 != 0 or c["sxy"] != 0))
    ctx.label("correction", c["zp"] % 360 != 0)
    ra, dec = sky.offset(fm.ra, fm.dec, t, ph)
    x, y = fm.radec2fp(ra, dec)
    ctx.expect(np.all(np.hypot(x, y) < 450), "focal plane radius {}", np.hypot(x, y).max())
    from desimeter.transform.tan2fp import fp2tan
    X, Y = sky.radec2tan(ra, dec, fm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg, *c["flags"])
    u, v = inst2sky(c, *fp2tan(x, y, fm.adc1, fm.adc2))
    ctx.close(np.hypot(u - X, v - Y) * 206265, 0., .01, "sky to focal plane against the independent model [arcsec]")
    r2, d2 = fm.fp2radec(x, y)
    ctx.close(sky.sep(ra, dec, r2, d2), 0., slack(c, np.abs(dec).max()), "sky to focal plane and back [arcsec]")
    x2, y2 = fm.radec2fp(r2, d2)
    ctx.close(np.hypot(x2 - x, y2 - y), 0., .08 * slack(c, np.abs(dec).max()), "focal plane to sky and back [mm]")
    a = fm.tancorr_sky2inst(*fm.tancorr_inst2sky(X, Y))
    ctx.close(a, [X, Y], 1e-12, "correction and back")
    ctx.close(fm.tancorr_inst2sky(X, Y), inst2sky(c, X, Y), 1e-12, "correction")


def guide_cameras():
    """petals with a guide camera (those with four or more surveyed marks)"""
    m = data.metro_np()
    k = (m["DEVICE_TYPE"] == "GFA") | (m["DEVICE_TYPE"] == "GIF-T")
    return sorted({int(p) for p in m["PETAL_LOC"][m["DEVICE_TYPE"] == "GFA"]})


def catalogue(c, fm, rs):
    """stars on the guide cameras with their true coordinates"""
    from desimeter.transform.gfa2fp import gfa2fp
    pet = guide_cameras()
    if c["ncam"] < len(pet):
        k = rs.permutation(len(pet))[:c["ncam"]]
        while len(set(np.array(pet)[k])) < 3:
            k = rs.permutation(len(pet))[:3]
        pet = [pet[i] for i in k]
    P_, X, Y, FX, FY = [], [], [], [], []
    for p in pet:
        n = rs.randint(1, c["nstar"] + 1) if c["nstar"] > 1 else 1
        u, v = rs.uniform(20, 2027, n), rs.uniform(20, 1031, n)
        x, y = gfa2fp(p, u, v)
        P_.append(np.full(n, p)), X.append(u), Y.append(v), FX.append(x), FY.append(y)
    return [np.concatenate(a) for a in (P_, X, Y, FX, FY)]


@sub(P, lambda: fixed(seed=gen.seeds(), ncam=st.integers(3, 10), nstar=st.integers(1, 20), off=st.one_of(uni(0., 60.), st.sampled_from([0., 90.])), extra=st.booleans(), noise=st.sampled_from([0., 0., .1]),
                      column=st.sampled_from(["ra_gaia", "with_pm", "both"]), lst=st.sampled_from(["model", "arg", "computed"]), mjd=st.sampled_from(["model", "arg", "column"]), hexrot=st.booleans(), miss=st.sampled_from([""] * 8 + ["mjd", "hexrot_deg"]), **model_case()),
     260, 2600, "pointing offset or correction", shards=8)
def fit(c, ctx):
    """stars generated with a model are reproduced by a model that is fitted to them"""
    from astropy.table import Table
    from desimeter.fieldmodel import FieldModel
    c = dict(c, zp=(c["zp"] + 180.) % 360. - 180.)
    true = build(c)
    if c["lst"] == "computed":      # same hour angle at the sidereal time of that date
        from desimeter.time import mjd2lst          # checked by C02
        l = mjd2lst(true.mjd)
        true.ra, true.lst = (true.ra + l - true.lst) % 360., l
    rs = np.random.RandomState(c["seed"] % 2**32)
    pet, u, v, fx, fy = catalogue(c, true, rs)
    if abs(true.dec) > 84:
        return ctx.label("next to the pole")
    ctx.nontrivial(c["off"] > 0 or c["zp"] != 0)
    ra, dec = true.fp2radec(fx, fy)
    n = len(ra)
    if c["noise"]:
        ra, dec = ra + rs.normal(0, 1, n) * c["noise"] / 3600. / np.cos(dec * D), dec + rs.normal(0, 1, n) * c["noise"] / 3600.
    if c["extra"]:     # camera without survey
        none = [p for p in range(10) if p not in guide_cameras()]
        ctx.label("unsurveyed camera", bool(none))
        if none:
            pet, u, v, ra, dec = np.r_[pet, none[0]], np.r_[u, 500.], np.r_[v, 500.], np.r_[ra, ra[0] + 1.], np.r_[dec, dec[0]]
    k = rs.permutation(len(ra))
    t = Table(dict(petal_loc=pet[k], xcentroid=u[k], ycentroid=v[k]))
    for name in dict(ra_gaia=["ra_gaia"], with_pm=["ra_gaia_with_pm"], both=["ra_gaia_with_pm", "ra_gaia"])[c["column"]]:
        bad = c["column"] == "both" and name == "ra_gaia"
        t[name] = ra[k] + (.01 if bad else 0.)
        t[name.replace("ra", "dec", 1)] = dec[k]
    keep = t.copy()

    def start(order=None):
        fm = FieldModel()
        ph = rs.uniform(0, 2 * np.pi) if order is None else c["ph"]
        c["ph"] = ph
        fm.dec = true.dec + c["off"] / 3600. * np.sin(ph)
        fm.ra = true.ra + c["off"] / 3600. * np.cos(ph) / np.cos(true.dec * D)
        fm.adc1, fm.adc2 = true.adc1, true.adc2
        fm.precession, fm.aberration, fm.polar_misalignment = c["flags"]
        kw = {}
        for name, how in (("lst", c["lst"]), ("mjd", c["mjd"]), ("hexrot_deg", "arg" if c["hexrot"] else "model")):
            if how == "arg":
                kw[name] = getattr(true, name)
                if name != "hexrot_deg":
                    setattr(fm, name, 5000. if name == "mjd" else 77.)     # to be overruled
            elif how == "model":
                setattr(fm, name, getattr(true, name))
        tt = t.copy() if order is None else t.copy()[order]
        if c["mjd"] == "column":
            tt["mjd_obs"] = true.mjd
        if c["miss"]:
            setattr(fm, c["miss"], None), kw.pop(c["miss"], None)
            if c["miss"] == "mjd" and "mjd_obs" in tt.colnames:
                tt.remove_column("mjd_obs")
            return ctx.raises((RuntimeError,), lambda: fm.fit_tancorr(tt, **kw), "fit without %s" % c["miss"])
        fm.fit_tancorr(tt, **kw)
        return fm
    if c["miss"]:
        ctx.label("refused")
        return start()
    fm = start()
    ctx.expect(all(np.array_equal(t[q], keep[q]) for q in t.colnames), "catalogue modified")
    ctx.close([fm.mjd, fm.lst, fm.hexrot_deg], [true.mjd, true.lst, true.hexrot_deg], 1e-9, "mjd, lst, hexapod rotation of the fitted model")
    ctx.expect(fm.nstars == n, "{} stars fitted out of {}", fm.nstars, n)
    ext = max(np.ptp(fx), np.ptp(fy))
    sl = slack(c, abs(true.dec) + 2)
    # the fit attributes the mean displacement to the pointing first: exact to second order in the deformation
    from desimeter.transform.tan2fp import fp2tan
    defo = abs(c["zp"]) * D + max(abs(c["sxx"] - 1), abs(c["syy"] - 1)) + abs(c["sxy"])
    sl = sl + 2 * defo ** 2 * 206265 * np.hypot(*np.mean(fp2tan(fx, fy, true.adc1, true.adc2), axis=1)) + c["off"] * defo ** 2
    tol = sl + (6 * c["noise"] * 3 if c["noise"] else 0.)
    r2, d2 = fm.fp2radec(fx, fy)
    ctx.close(sky.sep(ra[:n], dec[:n], r2, d2), 0., tol, "distance of stars to their catalogue position [arcsec]")
    x2, y2 = fm.radec2fp(ra[:n], dec[:n])
    ctx.close(np.hypot(x2 - fx, y2 - fy), 0., .08 * tol, "catalogue position on the focal plane [mm]")
    X, Y = sky.radec2tan(ra[:n], dec[:n], fm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg, *c["flags"])
    xt, yt = fm.tancorr_inst2sky(*fp2tan(fx, fy, fm.adc1, fm.adc2))
    rms = np.sqrt(np.mean((xt - X) ** 2 + (yt - Y) ** 2)) * 206265
    ctx.close(fm.rms_arcsec, rms, sl + .01 * rms, "rms of the residuals")
    if not c["noise"] and ext > 400 and len(set(pet[:n])) >= 3:
        gx, gy = 380 * np.cos(np.arange(6.)), 380 * np.sin(np.arange(6.))
        a, b = fm.fp2radec(gx, gy), true.fp2radec(gx, gy)
        if c["ncam"] >= 6:
            ctx.close(sky.sep(*a, *b), 0., 4 * sl, "elsewhere in the field [arcsec]")
    fm2 = start(rs.permutation(len(t)))
    ctx.close([fm2.ra, fm2.dec], [fm.ra, fm.dec], 1e-7, "pointing with stars in another order")
    ctx.close([fm2.sxx, fm2.syy, fm2.sxy], [fm.sxx, fm.syy, fm.sxy], 1e-9, "scales with stars in another order")
    # the reported rotation
    r = rotation(fm)
    ctx.close(fm.fieldrot_deg, r, 2e-3 + 3 * abs(r * D) ** 3 / D, "reported field rotation")


def rotation(fm):
    """rotation of the focal plane with respect to the sky, from four points half a degree off"""
    a = np.arange(4) * np.pi / 2
    from desimeter.transform.tan2fp import tan2fp
    x, y = D * np.r_[0., np.cos(a)], D * np.r_[0., np.sin(a)]
    ra, dec = fm.fp2radec(*tan2fp(x, y, fm.adc1, fm.adc2))
    v = sky.vec(-ra, dec)
    X, Y = v @ sky.vec(-ra[0] + 90., 0.), v @ sky.vec(-ra[0], dec[0] + 90.)
    r = (np.degrees(np.arctan2(y, x) - np.arctan2(Y, X))[1:] + 180) % 360 - 180
    return np.mean(r)


@sub(P, lambda: fixed(turn=mix(-1., 1., .5, -.5), **model_case()), 400, 4000, "a rotation", shards=3)
def field_rotation(c, ctx):
    """field rotation of a model against its own map, and its change with the zero point"""
    c = dict(c, zp=(c["zp"] + 180.) % 360. - 180.)
    fm = build(c)
    ctx.nontrivial(c["turn"] != 0)
    f0, r0 = fm.compute_fieldrot(), rotation(fm)
    if abs(r0) > 15:
        return ctx.label("next to the pole")
    tol = 2e-3 + 3 * abs(r0 * D) ** 3 / D       # the average of sines stands for the angle
    ctx.close(f0, r0, tol, "field rotation")
    fm.fieldrot_zp_deg += c["turn"]
    tol += 3 * (abs(r0) + 1) ** 3 * D ** 2 + 1e-3 + 1.5 * abs(c["turn"]) * (abs(c["sxx"] - c["syy"]) + abs(c["sxy"]))
    ctx.close(fm.compute_fieldrot() - f0, -c["turn"], tol, "change of the field rotation with the zero point")


@sub(P, lambda: fixed(seed=gen.seeds(), n=st.integers(1, 40), ra0=st.one_of(gen.angle(), st.sampled_from([0., 359.999])), dec=mix(-30., 80., 0.), pm=st.booleans(), mjd=st.sampled_from(["column", "model", "none"]),
                      sep=st.sampled_from([2., 2., .5, 5.]), fmt=st.sampled_from(["csv", "fits", "ecsv"])), 300, 3000, "stars on either side of the limit", shards=3)
def guide_catalogue(c, ctx):
    """reading of guide star catalogues: proper motions, selection"""
    from astropy.table import Table
    from desimeter.fieldmodel import FieldModel
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["n"]
    t = Table()
    gra, gdec = (c["ra0"] + rs.uniform(-.001, .001, n) * (1 + 20 * (rs.rand() < .5))) % 360., c["dec"] + rs.uniform(-1, 1, n)
    pmra, pmdec, ep = rs.normal(0, 300, n), rs.normal(0, 300, n), rs.choice([2015.5, 2016.], n) if rs.rand() < .4 else np.full(n, rs.choice([2015.5, 2016.]))
    pmra[rs.rand(n) < .2] = np.nan
    pmdec[rs.rand(n) < .2] = np.nan
    mjd = rs.uniform(58000, 61000)
    tra, tdec = gra.copy(), gdec.copy()
    if c["pm"]:
        y = 2000. + (mjd - 51544.5) / 365.25 - ep
        tra = tra + np.nan_to_num(pmra) * y / 3.6e6 / np.cos(gdec * D)
        tdec = tdec + np.nan_to_num(pmdec) * y / 3.6e6
    d, a = np.where(rs.rand(n) < .6, rs.uniform(0, c["sep"], n), rs.uniform(c["sep"], 5 * c["sep"], n)), rs.uniform(0, 2 * np.pi, n)
    d = np.where(np.abs(d - c["sep"]) < .01 * c["sep"], .5 * c["sep"], d)
    t["ra"], t["dec"] = (tra + d * np.cos(a) / 3600. / np.cos(tdec * D)) % 360., tdec + d * np.sin(a) / 3600.
    t["ra_gaia"], t["dec_gaia"] = gra, gdec
    t["xcentroid"], t["ycentroid"], t["petal_loc"] = np.arange(n) + .5, rs.uniform(0, 1000, n), rs.randint(0, 10, n)
    if c["pm"]:
        t["pmra"], t["pmdec"], t["ref_epoch"] = pmra, pmdec, ep
    if c["mjd"] == "column":
        t["mjd_obs"] = mjd + np.arange(n) * 1e-6
    fm = FieldModel()
    if c["mjd"] == "model":
        fm.mjd = mjd
    good = d < c["sep"]
    ctx.nontrivial(good.any() and not good.all())
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "cat." + c["fmt"])
        t.write(fn)
        kw = {} if c["sep"] == 2. else dict(max_sep_arcsec=c["sep"])
        if (c["pm"] and c["mjd"] == "none") or not good.any():
            ctx.label("refused")
            return ctx.raises((RuntimeError,), lambda: fm.read_guide_stars_catalog(fn, **kw), "catalogue")
        r = fm.read_guide_stars_catalog(fn, **kw)
    ctx.label("proper motions" if c["pm"] else "no proper motions")
    got = np.array(r["xcentroid"]) - .5
    ctx.expect(np.array_equal(got, np.flatnonzero(good)), "stars {} selected instead of {}", got[:10], np.flatnonzero(good)[:10])
    if c["mjd"] == "column":
        ctx.close(fm.mjd, mjd + np.mean(np.arange(n)) * 1e-6, 1e-8, "date of the catalogue")
    if c["pm"]:
        ctx.close(sky.sep(np.array(r["ra_gaia_with_pm"]), np.array(r["dec_gaia_with_pm"]), tra[good], tdec[good]), 0., 2e-3, "position with proper motion [arcsec]")
    else:
        ctx.close(np.array(r["ra_gaia"]), gra[good], 1e-12, "ra_gaia")
