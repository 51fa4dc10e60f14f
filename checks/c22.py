"""C22: unit and geometry conversions."""
import numpy as np
from hypothesis import strategies as st

from pbt import sersic as S
from pbt.core import Sub
from pbt.util import Frozen, angles, close, fl, logfl, need, raises, rnd

ASSUMPTIONS = [
    "Elongations are at least 1 and ellipticities in [0, 1).",
    "Pixel scales are between 1e-7 and 1e4 arcsec; 'non-square' means side ratios which differ from 1 by at least 10 percent.",
    "WCSs are two-dimensional celestial ones.",
]

FORMS = ["float", "np", "array", "array2d", "column", "f4", "empty"]


def shaped(values, form):
    a = np.array(values, float)
    if form == "float":
        return float(a[0]), a[0]
    if form == "np":
        return np.float64(a[0]), a[0]
    if form == "array2d":
        b = np.concatenate([a, a[::-1]]).reshape(2, -1)
        return b.copy(), b
    if form == "column":
        from astropy.table import Column

        return Column(a.copy(), name="v"), a
    if form == "f4":
        b = a.astype(np.float32)
        return b.copy(), b.astype(float)
    if form == "empty":
        return np.zeros(0), np.zeros(0)
    return a.copy(), a


@st.composite
def shape_cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "ellip": draw(st.lists(st.one_of(st.sampled_from([0.0, 0.5, 0.75]), fl(0, 0.999), logfl(1e-9, 0.5)), min_size=n, max_size=n)),
        "area": draw(st.lists(st.one_of(st.just(0.0), logfl(1e-6, 1e8), st.integers(1, 100).map(float)), min_size=n, max_size=n)),
        "form": draw(st.sampled_from(FORMS)),
        "scalar_elong": draw(st.booleans()),
    }


def check_shape(case, rec):
    from petrofit.utils import circle_area_to_r, ellip_to_elong, elliptical_area_to_r, elong_to_ellip

    form = case["form"]
    tol = 1e-5 if form == "f4" else 1e-11
    e, ev = shaped(case["ellip"], form)
    area, av = shaped(case["area"], form)
    frozen = Frozen(e=e, area=area)
    elong = ellip_to_elong(e)
    close(elong, 1.0 / (1.0 - ev), 2e-3 if form == "f4" else 1e-11, what="elongation")
    back = elong_to_ellip(elong)
    close(back, ev, tol, 1e-7 if form == "f4" else 1e-15, "ellipticity of the elongation")
    q, qv = shaped(1.0 / (1.0 - np.array(case["ellip"])), form)
    close(elong_to_ellip(q), 1.0 - 1.0 / qv, tol, 1e-6 if form == "f4" else 1e-15, "ellipticity")
    close(ellip_to_elong(elong_to_ellip(q)), qv, 2e-3 if form == "f4" else 1e-11, what="elongation of the ellipticity")
    if case["scalar_elong"]:
        q, qv = float(np.array(case["ellip"][0]) * 3 + 1), case["ellip"][0] * 3 + 1
    a, b = elliptical_area_to_r(area, q)
    close(a, np.sqrt(qv * av / np.pi), tol, what="semi-major axis of the area")
    close(b, np.sqrt(av / np.pi / qv), tol, what="semi-minor axis of the area")
    close(np.pi * np.asarray(a, float) * np.asarray(b, float), av, 4 * tol, what="pi a b")
    c = circle_area_to_r(area)
    close(c, np.sqrt(av / np.pi), tol, what="radius of the circle")
    close(np.pi * np.asarray(c, float) ** 2, av, 4 * tol, what="area of the circle")
    frozen.check("conversion")
    rec.label(form)
    rec.nontrivial(form != "empty" and np.any(np.array(ev) > 0))


# -- WCS ------------------------------------------------------------------------

UNITS = {"deg": 3600.0, "arcsec": 1.0, "arcmin": 60.0, "rad": np.rad2deg(1.0) * 3600.0}


@st.composite
def wcs_cases(draw):
    n = draw(st.integers(1, 4))
    return {
        "scale": draw(st.one_of(st.sampled_from([1.0, 0.06, 0.2, 0.05]), logfl(1e-7, 1e4))),
        "unit": draw(st.sampled_from(list(UNITS))),
        "matrix": draw(st.sampled_from(["cdelt", "cd", "pc"])),
        "rot": draw(angles),
        "flip": draw(st.sampled_from([-1, 1])),
        "swap": draw(st.booleans()),
        "proj": draw(st.sampled_from(["TAN", "SIN", "CAR"])),
        "set": draw(st.booleans()),
        "header": draw(st.booleans()),
        "ratio": draw(st.sampled_from([1.0] * 6 + [1.1, 2.0, 0.5])),
        "size": draw(st.lists(st.one_of(logfl(1e-4, 1e5), st.just(0.0), rnd(-5, 5)), min_size=n, max_size=n)),
        "form": draw(st.sampled_from(["float", "int", "np", "array", "array2d", "pix", "pix_array", "pix_array2d"])),
        "ang": draw(st.sampled_from(["arcsec", "deg", "arcmin", "rad", "mas", "uas"])),
    }


def make_wcs(c):
    from astropy.wcs import WCS

    w = WCS(naxis=2)
    types = ["RA---" + c["proj"], "DEC--" + c["proj"]]
    w.wcs.ctype = types[::-1] if c["swap"] else types
    w.wcs.cunit = [c["unit"]] * 2
    s = c["scale"] / UNITS[c["unit"]]
    sx, sy = s * c["flip"], s * c["ratio"]
    ct, sn = np.cos(c["rot"]), np.sin(c["rot"])
    rot = np.array([[ct, -sn], [sn, ct]])
    if c["matrix"] == "cdelt":
        w.wcs.cdelt = [sx, sy]
    elif c["matrix"] == "pc":
        # rotation and the two scales of the pixel sides
        w.wcs.cdelt = [s, s]
        w.wcs.pc = rot @ np.diag([c["flip"], c["ratio"]])
    else:
        w.wcs.cd = rot @ np.diag([sx, sy])
    w.wcs.crpix = [5, 7]
    w.wcs.crval = [10 * 3600 / UNITS[c["unit"]], 20 * 3600 / UNITS[c["unit"]]]
    if c["header"]:
        w = WCS(w.to_header())
    if c["set"]:
        w.wcs.set()
    return w


def check_wcs(case, rec):
    from astropy import units as u

    from petrofit.utils import angular_to_pixel, pixel_to_angular

    w = make_wcs(case)
    vals = np.array(case["size"])
    form = case["form"]
    if form in ("float", "pix"):
        size = float(vals[0])
    elif form == "int":
        size = int(vals[0])
    elif form == "np":
        size = np.float64(vals[0])
    elif form.endswith("array2d"):
        size = np.concatenate([vals, vals]).reshape(2, -1)
    else:
        size = vals.copy()
    plain = np.array(size, float)
    if form.startswith("pix"):
        size = size * u.pix
    frozen = Frozen(size=np.asarray(getattr(size, "value", size)))
    unit = u.Unit(case["ang"])
    angle = (plain * case["scale"] * u.arcsec).to(unit)
    rec.label(form, case["matrix"], case["unit"], "square" if case["ratio"] == 1 else "not square")
    if case["ratio"] != 1.0:
        raises(lambda: pixel_to_angular(size, w), "a WCS with pixel sides 1:%s" % case["ratio"])
        raises(lambda: angular_to_pixel(angle, w), "a WCS with pixel sides 1:%s" % case["ratio"])
        return
    rec.nontrivial(case["matrix"] != "cdelt" or case["unit"] != "deg")
    got = pixel_to_angular(size, w)
    need(got.unit == u.arcsec, "angles are in %s", got.unit)
    close(got.value, plain * case["scale"], 1e-9, 0, "angle in arcsec")
    back = angular_to_pixel(got, w)
    close(back, plain, 1e-9, 0, "pixels of the angle")
    need(not hasattr(back, "unit") or str(back.unit) == "", "pixels have a unit: %r", back)
    close(angular_to_pixel(angle, w), plain, 1e-9, 0, "pixels of the angle in %s" % case["ang"])
    again = pixel_to_angular(angular_to_pixel(angle, w), w)
    close(again.to_value(unit), angle.value, 1e-9, 0, "angle of the pixels")
    frozen.check("conversion")


# -- Petrosian radii in arcsec ----------------------------------------------------


@st.composite
def petro_cases(draw):
    return {
        "wcs": draw(wcs_cases()),
        "n": draw(rnd(0.5, 4)), "re": draw(rnd(2, 20)), "reach": draw(rnd(2, 15)),
        "eps": draw(rnd(0.5, 3)), "total": draw(rnd(0.5, 1.0)),
    }


def check_petro(case, rec):
    from petrofit.petrosian import Petrosian

    w = make_wcs(dict(case["wcs"], ratio=1.0))
    r = np.linspace(case["re"] / 5, case["re"] * case["reach"], 40)
    p = Petrosian(
        r, np.pi * r**2, S.enclosed(r, 3.0, case["re"], case["n"]),
        epsilon=case["eps"], total_flux_fraction=case["total"],
    )
    scale = case["wcs"]["scale"]
    close(p.r_half_light_arcsec(w), float(p.r_half_light) * scale, 1e-9, what="r_half_light_arcsec")
    close(p.r_total_flux_arcsec(w), float(p.r_total_flux) * scale, 1e-9, what="r_total_flux_arcsec")
    need(not hasattr(p.r_half_light_arcsec(w), "unit"), "r_half_light_arcsec has a unit")
    rec.nontrivial(p.r_total_flux == p.r_total_flux)
    rec.label("found" if p.r_total_flux == p.r_total_flux else "nan", "half" if p.r_half_light == p.r_half_light else "no half")


# -- magnitudes -------------------------------------------------------------------

MAG_FORMS = ["float", "int", "np.float64", "np.float32", "np.int64", "list", "intlist", "tuple", "array", "intarray", "f4", "array2d", "0d", "uint8"]


@st.composite
def mag_cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "flux": draw(st.lists(st.one_of(logfl(1e-12, 1e12), st.integers(1, 1000).map(float), st.sampled_from([0.0, -1.0, -0.0, -1e-3, 1.0])), min_size=n, max_size=n)),
        "form": draw(st.sampled_from(MAG_FORMS)),
        "flam": draw(logfl(1e-21, 1e-15)),
        "zpt": draw(st.sampled_from([-21.1, -21.1, 0.0, -20.5])),
        "plam": draw(fl(1000, 20000)),
        "fits": draw(st.booleans()),
    }


def check_mag(case, rec):
    from astropy.io import fits

    from petrofit.utils import hst_flux_to_abmag

    form = case["form"]
    f = np.array(case["flux"])
    if form in ("int", "np.int64", "intlist", "intarray", "uint8"):
        f = np.clip(np.round(f), -100, 2**40)
        if form == "uint8":
            f = np.clip(f, 0, 255)
    make = {
        "float": lambda: float(f[0]), "int": lambda: int(f[0]), "np.float64": lambda: np.float64(f[0]),
        "np.float32": lambda: np.float32(f[0]), "np.int64": lambda: np.int64(f[0]),
        "list": lambda: [float(v) for v in f], "intlist": lambda: [int(v) for v in f],
        "tuple": lambda: tuple(float(v) for v in f), "array": lambda: f.copy(),
        "intarray": lambda: f.astype(int), "f4": lambda: f.astype(np.float32),
        "array2d": lambda: np.concatenate([f, f]).reshape(2, -1), "0d": lambda: np.array(f[0]),
        "uint8": lambda: f.astype(np.uint8),
    }
    flux = make[form]()
    plain = np.array(flux, float)
    head = {"PHOTFLAM": case["flam"], "PHOTZPT": case["zpt"], "PHOTPLAM": case["plam"], "EXPTIME": 100.0}
    if case["fits"]:
        head = fits.Header(head)
    items = {k: head[k] for k in head}
    frozen = Frozen(flux=flux)
    got = hst_flux_to_abmag(flux, head)
    frozen.check("hst_flux_to_abmag")
    need({k: head[k] for k in head} == items, "hst_flux_to_abmag changed the header")
    zero = -2.5 * np.log10(case["flam"]) + case["zpt"] - 5 * np.log10(case["plam"]) + 18.692
    want = np.full(plain.shape, np.nan)
    ok = plain > 0
    want[ok] = -2.5 * np.log10(plain[ok]) + zero
    close(got, want, 1e-12, 1e-9, "magnitude")
    rec.label(form, "some undefined" if not np.all(ok) else "all defined")
    rec.nontrivial(np.any(ok))
    if np.any(ok) and form in ("float", "array", "list"):
        ten = hst_flux_to_abmag([10 * v for v in flux] if form == "list" else flux * 10, head)
        close(ten, want - 2.5, 1e-12, 1e-8, "magnitude of ten times the flux")


SUBS = [
    Sub("shapes", shape_cases, check_shape, 3000, 40000, "some ellipticity above zero"),
    Sub("wcs", wcs_cases, check_wcs, 3000, 40000, "a matrix, rotation or unit other than plain degrees"),
    Sub("arcsec", petro_cases, check_petro, 400, 6000, "the total-flux radius exists"),
    Sub("abmag", mag_cases, check_mag, 3000, 40000, "a positive flux"),
]
