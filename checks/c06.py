"""C06 saved transforms read back as the same mapping."""
import json, os, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen, env, zb, tx
from vf.gen import fixed, mix

P = "C06"

LONG = [float("%.17g" % v) for v in (0.1, 1 / 3, -2 / 3, 1e-17, 123456.789012345, -9.99999999999999e-5, 4.9e-300)]


def num(lo, hi):
    """numbers whose shortest decimal form is long as often as not"""
    return st.one_of(mix(lo, hi, 0.), st.floats(lo, hi, allow_nan=False), st.sampled_from([v for v in LONG if lo <= v <= hi] or [lo]))


def pixels():
    return st.lists(st.tuples(mix(-100., 6100., 0., 3000.), mix(-100., 6100., 0., 3000.)).map(list), min_size=1, max_size=8)


def fpts():
    return st.lists(st.tuples(mix(-420., 420., 0.), mix(-420., 420., 0.)).map(list), min_size=1, max_size=8)


def exact(ctx, a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ctx.expect(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), "%s: %s became %s" % (what, a.tolist(), b.tolist()))


def text_stable(ctx, cls, text, what):
    o = cls.fromjson(text)
    t2 = o.tojson()
    ctx.expect(json.loads(t2) == json.loads(text), "%s: second writing differs: %s / %s" % (what, text[:300], t2[:300]))
    ctx.expect(cls.fromjson(t2).tojson() == t2, "%s: third writing differs" % what)
    return o


def files(ctx, o, cls, what, write=("write", "write_jsonfile"), read=("read", "read_jsonfile")):
    """through every file interface, with paths that hold other dots"""
    out = []
    with tempfile.TemporaryDirectory() as d:
        for i, w in enumerate(write):
            for j, r in enumerate(read):
                fn = os.path.join(d, ["a.json", "b.v1.json", "c.json", "d.x.json"][2 * i + j])
                getattr(o, w)(fn)
                ctx.expect(os.listdir(d) == [os.path.basename(fn)], "%s: wrote %s instead of %s" % (what, os.listdir(d), fn))
                out.append(getattr(cls, r)(fn))
                os.remove(fn)
        if "write" in write:
            for fn in ("noext", "x.csv", "y.fits"):
                ctx.raises((RuntimeError,), lambda: o.write(os.path.join(d, fn)), "%s: writing %s" % (what, fn))
                with open(os.path.join(d, fn), "w") as f:
                    f.write(o.tojson())
                ctx.raises((RuntimeError,), lambda: cls.read(os.path.join(d, fn)), "%s: reading %s" % (what, fn))
                os.remove(os.path.join(d, fn))
    return out


def refuses(ctx, cls, params, edits, what):
    for k, v in edits:
        p = dict(params)
        p[k] = v
        ctx.raises((AssertionError, RuntimeError, ValueError, KeyError), lambda: cls.fromjson(json.dumps(p)), "%s with %s=%r" % (what, k, v))


@sub(P, lambda: fixed(t=tx.camera(ids=sorted(range(33))[::1]) if False else st.one_of(tx.camera(), tx.camera(ids=[2, 5, 6, 9, 20, 28, 29, 30]), tx.camera(ids=[30, 7, 9, 0])),
                      px=pixels(), extra=st.lists(st.tuples(num(-1e3, 1e3), num(0, 1e5)), max_size=1), nm=st.integers(0, 500)), 400, 4000, "non-zero distortion", shards=2)
def camera(c, ctx):
    """written and read camera transforms map bit for bit alike; inconsistent files are refused"""
    from desimeter.transform.fvc2fp import FVC2FP
    o = tx.make(c["t"])
    if c["extra"]:
        o.meandistance, o.rmsdistance = c["extra"][0]
        o.mediandistance, o.nmatch = c["extra"][0][0], c["nm"]
    ctx.nontrivial(any(c["t"]["coeffs"]))
    p = np.array(c["px"])
    ref = o.fvc2fp(p[:, 0], p[:, 1])
    inv = o.fp2fvc(*ref)
    objs = [text_stable(ctx, FVC2FP, o.tojson(), "camera transform"), FVC2FP.fromjson(str(o))] + files(ctx, o, FVC2FP, "camera transform")
    for q in objs:
        exact(ctx, ref, q.fvc2fp(p[:, 0], p[:, 1]), "pixels to mm")
        exact(ctx, inv, q.fp2fvc(*ref), "mm to pixels")
        if c["extra"]:
            ctx.expect((q.meandistance, q.mediandistance, q.rmsdistance, q.nmatch) == (o.meandistance, o.mediandistance, o.rmsdistance, o.nmatch), "fit quality changed")
    exact(ctx, ref, o.fvc2fp(p[:, 0], p[:, 1]), "the original after saving")
    par = json.loads(o.tojson())
    refuses(ctx, FVC2FP, par, [("version", "3"), ("version", "0"), ("version", ""), ("method", "zhao-burge"), ("method", "Simple Correction")], "camera transform")


@sub(P, lambda: fixed(t=tx.camera(ids=[2, 5, 6, 9, 20, 28, 29, 30]), px=pixels(), keep=st.booleans()), 400, 4000, "non-zero distortion")
def camera_version_1(c, ctx):
    """files of the older version: eight coefficients, no list of terms, reduction optional"""
    from desimeter.transform.fvc2fp import FVC2FP
    t = c["t"]
    d = dict(method="Zhao-Burge", version="1", scale=t["scale"], rotation=t["rotation"], offset_x=t["offset_x"], offset_y=t["offset_y"], zbcoeffs=t["coeffs"])
    red = [-3000., 3000., 3000., 3000.]
    if c["keep"]:
        red = t["reduce"]
        d.update(xfvc_scale=red[0], yfvc_scale=red[1], xfvc_offset=red[2], yfvc_offset=red[3])
    ctx.nontrivial(any(t["coeffs"]))
    ctx.label("explicit reduction", c["keep"])
    o = FVC2FP.fromjson(json.dumps(d))
    p = np.array(c["px"])
    want = tx.forward(dict(t, reduce=red), p[:, 0], p[:, 1])
    got = o.fvc2fp(p[:, 0], p[:, 1])
    ctx.close(got, want, 1e-8, "version 1 file, pixels to mm")
    q = FVC2FP.fromjson(o.tojson())
    exact(ctx, got, q.fvc2fp(p[:, 0], p[:, 1]), "version 1 file saved again")


@sub(P, lambda: fixed(ids=st.lists(st.integers(0, 32), unique=True, min_size=1, max_size=15), co=st.lists(num(-1e-3, 1e-3), min_size=30, max_size=30), pts=fpts()),
     400, 4000, "non-zero coefficients")
def platemaker(c, ctx):
    """the same for platemaker transforms"""
    from desimeter.transform.dm2pm import DM2PM
    n = len(c["ids"])
    o = DM2PM()
    o.zbpolids = np.array(c["ids"])
    o.dm2pm_zbcoeffs, o.pm2dm_zbcoeffs = np.array(c["co"][:n]), np.array(c["co"][15:15 + n])
    ctx.nontrivial(any(c["co"][:n]) and any(c["co"][15:15 + n]))
    p = np.array(c["pts"])
    a, b = o.dm2pm(p[:, 0], p[:, 1]), o.pm2dm(p[:, 0], p[:, 1])
    for q in [text_stable(ctx, DM2PM, o.tojson(), "platemaker"), DM2PM.fromjson(str(o))] + files(ctx, o, DM2PM, "platemaker"):
        exact(ctx, a, q.dm2pm(p[:, 0], p[:, 1]), "to platemaker")
        exact(ctx, b, q.pm2dm(p[:, 0], p[:, 1]), "from platemaker")
    refuses(ctx, DM2PM, json.loads(o.tojson()), [("version", "2"), ("version", ""), ("method", "x")], "platemaker transform")


@sub(P, lambda: fixed(seed=gen.seeds(), amp=st.sampled_from([0., 1e-6, 1e-4]), sel=st.integers(0, 1), adc=st.tuples(gen.angle(), gen.angle()).map(list),
                      pts=st.lists(st.tuples(mix(-.018, .018, 0.), mix(-.018, .018, 0.)).map(list), min_size=1, max_size=5)), 120, 1200, "modified model", floor=.1)
def optics(c, ctx):
    """the same for optical models"""
    from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit as T
    fn = os.path.join(env.REPO, "py/desimeter/data", ["raytrace-tan2fp.json", "raytrace-tan2fp-6560A.json"][c["sel"]])
    o = T.read_jsonfile(fn)
    rng = np.random.RandomState(c["seed"])
    o.scale = o.scale + c["amp"] * rng.uniform(-1, 1, o.scale.shape)
    o.rotation = o.rotation + c["amp"] * rng.uniform(-1, 1, o.scale.shape)
    o.offset_x = o.offset_x + c["amp"] * rng.uniform(-1, 1, o.scale.shape)
    o.offset_y = o.offset_y + c["amp"] * rng.uniform(-1, 1, o.scale.shape)
    o.zbcoeffs = o.zbcoeffs + c["amp"] * rng.uniform(-1, 1, o.zbcoeffs.shape)
    if c["seed"] % 2:      # the same table, in the other memory order
        o.zbcoeffs = np.asfortranarray(o.zbcoeffs)
    ctx.nontrivial(c["amp"] > 0)
    p = np.array(c["pts"])
    a = o.tan2fp(p[:, 0], p[:, 1], *c["adc"])
    b = o.fp2tan(a[0], a[1], *c["adc"])
    for q in [text_stable(ctx, T, o.tojson(), "optical model")] + files(ctx, o, T, "optical model", ("write_jsonfile",), ("read_jsonfile",)):
        exact(ctx, a, q.tan2fp(p[:, 0], p[:, 1], *c["adc"]), "tangent to focal plane")
        exact(ctx, b, q.fp2tan(a[0], a[1], *c["adc"]), "focal to tangent plane")
    refuses(ctx, T, json.loads(o.tojson()), [("version", "2"), ("method", "Zhao-Burge")], "optical model")


def linear():
    return dict(sxx=num(.5, 2.), syy=num(.5, 2.), sxy=num(-.3, .3), rot_deg=st.one_of(gen.angle(-180., 180.), num(-1e-3, 1e-3)))


@sub(P, lambda: fixed(dx=num(-400., 400.), dy=num(-400., 400.), nmatch=st.integers(0, 5000), rms=num(0., 10.), pts=fpts(), **linear()), 800, 8000, "not the identity")
def simple_correction(c, ctx):
    """the same for the similarity correction"""
    from desimeter.simplecorr import SimpleCorr
    o = SimpleCorr()
    for k in ("dx", "dy", "sxx", "syy", "sxy", "rot_deg", "nmatch", "rms"):
        setattr(o, k, c[k])
    ctx.nontrivial(c["rot_deg"] != 0 or c["dx"] != 0)
    p = np.array(c["pts"])
    q = text_stable(ctx, SimpleCorr, o.tojson(), "simple correction")
    exact(ctx, o.apply(p[:, 0], p[:, 1]), q.apply(p[:, 0], p[:, 1]), "simple correction")
    exact(ctx, o.apply_inverse(p[:, 0], p[:, 1]), q.apply_inverse(p[:, 0], p[:, 1]), "inverse simple correction")
    ctx.expect((q.nmatch, q.rms) == (o.nmatch, o.rms), "fit quality changed")
    refuses(ctx, SimpleCorr, json.loads(o.tojson()), [("version", "2"), ("name", "Field model"), ("name", "")], "simple correction")


def small():
    return st.lists(st.tuples(mix(-.028, .028, 0.), mix(-.028, .028, 0.)).map(list), min_size=1, max_size=6)


@sub(P, lambda: fixed(dha=num(-1., 1.), ddec=num(-1., 1.), nstars=st.integers(0, 5000), rms_arcsec=num(0., 10.), pts=small(), **linear()), 800, 8000, "not the identity")
def tangent_correction(c, ctx):
    """the same for the tangent-plane correction"""
    from desimeter.fieldmodel import TanCorr
    o = TanCorr()
    for k in ("dha", "ddec", "sxx", "syy", "sxy", "rot_deg", "nstars", "rms_arcsec"):
        setattr(o, k, c[k])
    ctx.nontrivial(c["rot_deg"] != 0 or c["dha"] != 0)
    p = np.array(c["pts"])
    q = text_stable(ctx, TanCorr, o.tojson(), "tangent plane correction")
    exact(ctx, o.apply(p[:, 0], p[:, 1]), q.apply(p[:, 0], p[:, 1]), "tangent plane correction")
    exact(ctx, o.apply_inverse(p[:, 0], p[:, 1]), q.apply_inverse(p[:, 0], p[:, 1]), "inverse tangent plane correction")
    ctx.expect((q.nstars, q.rms_arcsec) == (o.nstars, o.rms_arcsec), "fit quality changed")
    refuses(ctx, TanCorr, json.loads(o.tojson()), [("version", "2"), ("name", "Field model"), ("name", "")], "tangent plane correction")


@sub(P, lambda: fixed(p=gen.pointing(30.), adc=st.tuples(gen.angle(), gen.angle()).map(list), lin=fixed(sxx=num(.99, 1.01), syy=num(.99, 1.01), sxy=num(-.005, .005)),
                      rot=num(-2., 2.), fr=num(-5., 5.), expid=st.integers(0, 10**6), ns=st.integers(0, 1000), rms=num(0., 5.),
                      flags=st.lists(st.booleans(), min_size=3, max_size=3), pts=fpts(), old=st.booleans()), 200, 2000, "model with corrections", shards=2)
def field_model(c, ctx):
    """the same for field models, with all switches"""
    from desimeter.fieldmodel import FieldModel
    o = FieldModel()
    o.ra, o.dec, o.mjd, o.lst, o.hexrot_deg = c["p"]["ra"], c["p"]["dec"], c["p"]["mjd"], c["p"]["lst"], c["p"]["hexrot"]
    o.adc1, o.adc2 = c["adc"]
    o.sxx, o.syy, o.sxy = c["lin"]["sxx"], c["lin"]["syy"], c["lin"]["sxy"]
    o.fieldrot_zp_deg, o.fieldrot_deg, o.expid, o.nstars, o.rms_arcsec = c["rot"], c["fr"], c["expid"], c["ns"], c["rms"]
    if not c["old"]:
        o.precession, o.aberration, o.polar_misalignment = c["flags"]
    ctx.nontrivial(c["rot"] != 0)
    ctx.label("switches not default", not c["old"] and not all(c["flags"]))
    x, y = np.array(c["pts"]).T * .95
    ra, dec = o.fp2radec(x, y)
    xy = o.radec2fp(ra, dec)
    q = text_stable(ctx, FieldModel, o.tojson(), "field model")
    objs = [q]
    if c["old"]:      # as written before the switches were part of the file
        d = json.loads(o.tojson())
        for k in ("precession", "aberration", "polar_misalignment"):
            d.pop(k, None)
        objs.append(FieldModel.fromjson(json.dumps(d)))
    for q in objs:
        exact(ctx, (ra, dec), q.fp2radec(x, y), "focal plane to sky")
        exact(ctx, xy, q.radec2fp(ra, dec), "sky to focal plane")
        ctx.expect((q.expid, q.nstars, q.rms_arcsec, q.fieldrot_deg) == (o.expid, o.nstars, o.rms_arcsec, o.fieldrot_deg), "summary values changed")
        exact(ctx, o.compute_fieldrot(), q.compute_fieldrot(), "field rotation")
    refuses(ctx, FieldModel, json.loads(o.tojson()), [("version", "2"), ("name", "Tangent Plane Correction"), ("name", "")], "field model")
