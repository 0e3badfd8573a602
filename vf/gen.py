"""Shared Hypothesis strategies."""
from hypothesis import strategies as st


def flt(lo, hi, *special):
    base = st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    sp = [s for s in special if lo <= s <= hi]
    return st.one_of(base, base, st.sampled_from(sp)) if sp else base


def uni(lo, hi):
    """Uniform on [lo,hi].  Hypothesis draws integers and floats from heavy-tailed distributions, so the
    integer drawn (which still shrinks to 0, i.e. to lo) is spread by a golden-ratio sequence."""
    return st.integers(0, 2**31 - 1).map(lambda k: lo + (hi - lo) * ((k * 0x9E3779B97F4A7C15 >> 11 & (2**53 - 1)) / 2.**53))


def mix(lo, hi, *special):
    """uniform most of the time, Hypothesis' adversarial floats and named special values otherwise"""
    base = uni(lo, hi)
    adv = st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    sp = [s for s in special if lo <= s <= hi]
    opts = [base, base, adv]
    if sp:
        opts.append(st.sampled_from(sp))
    return st.one_of(*opts)


ANGLES360 = (0., 90., 180., 270., 360., 359.999999, 1e-7, 45., 179.999999, 180.000001)


def angle(lo=0., hi=360.):
    return mix(lo, hi, *ANGLES360, *(-a for a in ANGLES360), *(a + 360 for a in ANGLES360))


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def seeds():
    return st.integers(0, 2**31 - 1)


@st.composite
def pointing(draw, altmin=20., altmax=90.):
    """Telescope pointing above the horizon limit, with date, LST, hexapod rotation."""
    from vf import sky
    mode = draw(st.integers(0, 9))
    alt = draw(mix(altmin, altmax, 30., 45., 60., 89., 89.99))
    az = draw(angle())
    lst = draw(angle())
    ha, dec = sky.altaz2hadec(alt, az)
    ha, dec = float(ha), float(dec)
    if mode == 0:      # exact meridian
        ha = 0.
        dec = draw(mix(max(-35., altmin + sky.LAT - 90. + .5), 85., 0., 31.96403, 30.))
    elif mode == 1:    # celestial equator
        dec = 0.
        ha = draw(mix(-55., 55., 0.)) if altmin <= 25 else draw(mix(-30., 30., 0.))
    ra = (lst - ha) % 360.
    if mode == 2:      # RA origin
        ra = draw(st.sampled_from([0., 359.9999, 1e-4, 0.5, 359.5]))
        lst = ra + ha
    alt = float(sky.hadec2altaz(lst - ra, dec)[0])
    return dict(ra=ra, dec=dec, lst=lst, mjd=draw(mix(48000., 69000., 51544.5, 59000., 60000.5)),
                hexrot=draw(mix(-2., 2., 0., 0.1, -0.1)), alt=alt)


def field_offsets(n_min=1, n_max=6, rmax=1.65):
    """list of [theta_deg, phi_deg] in the field"""
    return st.lists(st.tuples(mix(0., rmax, 0., rmax), angle()).map(list), min_size=n_min, max_size=n_max)


def count(lo, hi):
    """uniform integer"""
    return st.integers(0, 2**31 - 1).map(lambda k: lo + ((k * 0x9E3779B97F4A7C15 >> 20 & (2**40 - 1)) * (hi - lo + 1) >> 40))
