"""C24: isophote amplitudes and FWHM."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import sersic as S
from pbt.core import Sub
from pbt.util import Frozen, close, fl, logfl, need, rnd, same

ASSUMPTIONS = [
    "Isophotes lie inside the image, are at least 3 pixels across and the profile is sampled well enough there, so that "
    "photutils' bilinear sampling of the image is good to 4 percent.",
    "Gaussians have standard deviations of at least 0.8 pixels and at most a fifth of the image, aligned with x and y, "
    "with the centre within two pixels of the image centre, and amplitudes of at least 0.1 (scipy's fitter stops at an absolute tolerance).",
]
SIGMA_TO_FWHM = 2 * np.sqrt(2 * np.log(2))
PROFILES = ["sersic", "gauss", "moffat"]


@st.composite
def iso_cases(draw, least=56, most=90, widest=12):
    nx, ny = draw(st.integers(least, most)), draw(st.integers(least, most))
    e = draw(st.one_of(st.just(0.0), rnd(0.02, 0.6)))
    re = draw(rnd(6, widest))
    far = min(min(nx, ny) / 2 - 10, 2 * re)
    lo = max(1.6, 1.5 / (1 - e))
    return {
        "size": [nx, ny],
        "at": [draw(rnd(nx / 2 - 6, nx / 2 + 6)), draw(rnd(ny / 2 - 6, ny / 2 + 6))],
        "ellip": e,
        "theta": draw(st.one_of(st.sampled_from([0.0, np.pi / 2, np.pi, np.pi / 4]), fl(0.01, np.pi), fl(-np.pi, -0.01))),
        "r": draw(st.one_of(st.integers(int(np.ceil(lo)), int(far)), rnd(lo, far), rnd(lo, far), rnd(lo, 5))),
        "profile": draw(st.sampled_from(PROFILES)),
        "n": draw(rnd(0.7, 2.5)),
        "re": re,
        "amp": draw(logfl(1e-2, 1e4)),
        # a constant background, in units of the value at r (-3: everything is negative at r)
        "base": draw(st.sampled_from([0.0, 0.0, 0.0, 0.5, 3.0, -0.5, -2.0, -3.0])),
        "wrap": draw(st.sampled_from(["ccd", "cutout", "float32", "fortran", "big_endian"])),
        "r_form": draw(st.sampled_from(["np", "int", "str", "0d"])),
    }


def profile(c):
    if c["profile"] == "sersic":
        return lambda r: c["amp"] * S.intensity(r, 1.0, c["re"], c["n"])
    if c["profile"] == "gauss":
        return lambda r: c["amp"] * np.exp(-0.5 * (r / c["re"]) ** 2)
    return lambda r: c["amp"] * (1 + (r / c["re"]) ** 2) ** -2.5


def ellipse_image(c):
    nx, ny = c["size"]
    y, x = np.mgrid[:ny, :nx].astype(float)
    ct, sn = np.cos(c["theta"]), np.sin(c["theta"])
    dx, dy = x - c["at"][0], y - c["at"][1]
    u, v = dx * ct + dy * sn, -dx * sn + dy * ct
    return profile(c)(np.hypot(u, v / (1 - c["ellip"])))


def check_iso(case, rec):
    from astropy.nddata import CCDData, Cutout2D

    from petrofit.segmentation import get_amplitude_at_r

    value = float(profile(case)(float(case["r"])))
    base = case["base"] * value
    img = ellipse_image(case) + base
    nx, ny = case["size"]
    r, e, th = case["r"], case["ellip"], case["theta"]
    x0, y0 = case["at"]
    # the whole ellipse, with the neighbours used to estimate the gradient, inside
    reach = 1.15 * r
    if not (reach < x0 < nx - 1 - reach and reach < y0 < ny - 1 - reach):
        return
    frozen = Frozen(image=img)
    got = get_amplitude_at_r(r, img, x0, y0, e, th)
    frozen.check("get_amplitude_at_r")
    # over one pixel the profile changes by this fraction: the sampling error
    slope = abs(float(profile(case)(r + 1.0)) / value - 1)
    tol = (0.04 + 0.3 * slope**2) * value
    want = value + base
    need(np.ndim(got) == 0, "amplitude %r", got)
    close(got, want, 0, tol, what="amplitude at r=%r" % r)
    rec.nontrivial(e > 0.1 and nx != ny)
    rec.label("negative" if want < 0 else "positive", case["profile"], case["wrap"], "round" if e == 0 else "elliptical")
    if base >= 0 and r * (1 - e) > 4 and reach + 1 < min(x0, y0, nx - 2 - x0, ny - 2 - y0):
        # a slightly larger isophote: the sampling errors are nearly the same
        there = float(profile(case)(r + 0.04))
        close(
            float(get_amplitude_at_r(r + 0.04, img, x0, y0, e, th)) - float(got), there - value,
            0.75, 1e-9 * want, what="change of the amplitude from r=%r to r=%r" % (r, r + 0.04),
        )
        rec.label("neighbour")
    w = case["wrap"]
    if w == "ccd":
        other = CCDData(img.copy(), unit="adu")
    elif w == "cutout":
        big = np.full((ny + 10, nx + 8), 1e9)
        big[5 : 5 + ny, 4 : 4 + nx] = img
        other = Cutout2D(big, (4 + (nx - 1) / 2, 5 + (ny - 1) / 2), (ny, nx))
    elif w == "float32":
        other = img.astype(np.float32)
    elif w == "fortran":
        other = np.asfortranarray(img)
    else:
        other = img.astype(">f8")
    again = get_amplitude_at_r(r, other, x0, y0, e, th)
    if w == "float32":
        close(again, want, 0, tol, what="amplitude of the image as float32")
    else:
        close(again, got, 1e-12, what="amplitude of the image as %s" % w)
    rr = {"np": np.float64, "int": lambda v: v, "str": str, "0d": np.array}[case["r_form"]](r)
    close(get_amplitude_at_r(rr, img, x0, y0, e, th), got, 1e-12, what="amplitude with r as %s" % case["r_form"])

@st.composite
def nan_cases(draw):
    return {
        "size": [draw(st.integers(20, 40)), draw(st.integers(20, 40))],
        "image": draw(st.sampled_from(["zeros", "constant", "nan", "one_dim", "none"])),
        "wrap": draw(st.booleans()),
        "r": draw(rnd(4, 8)), "ellip": draw(rnd(0, 0.5)), "theta": draw(rnd(0, 3)),
    }


def check_nan(case, rec):
    from astropy.nddata import CCDData

    from petrofit.segmentation import get_amplitude_at_r

    nx, ny = case["size"]
    img = {
        "zeros": np.zeros((ny, nx)), "constant": np.full((ny, nx), 3.5), "nan": np.full((ny, nx), np.nan),
        "one_dim": np.ones(5), "none": None,
    }[case["image"]]
    if case["wrap"] and img is not None:
        img = CCDData(img, unit="adu")
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        got = get_amplitude_at_r(case["r"], img, nx / 2, ny / 2, case["ellip"], case["theta"])
    if case["image"] == "constant" and got == 3.5:
        return
    need(np.ndim(got) == 0 and np.isnan(got), "amplitude %r of an image without isophotes (%s)", got, case["image"])
    need(len(seen) > 0, "no warning about an amplitude which cannot be measured")
    rec.nontrivial()
    rec.label(case["image"])


@st.composite
def fwhm_cases(draw, top=44, widest=6, least=9):
    nx, ny = draw(st.integers(least, top)), draw(st.integers(9, top))
    sx, sy = draw(rnd(0.8, max(1.0, min(nx / 5, widest)))), draw(rnd(0.8, max(1.0, min(ny / 5, widest))))
    if draw(st.integers(0, 5)) == 0:
        sy = min(sx, ny / 5)
        sx = sy
    off = lambda s: draw(st.one_of(st.just(0.0), rnd(-1, 1).map(lambda v: v * min(2.0, s))))
    return {
        "size": [nx, ny], "sigma": [sx, sy], "off": [off(sx), off(sy)],
        "amp": draw(logfl(0.1, 1e5)),
        "plot": draw(st.sampled_from([None] + [False] * 6)),
        "print": draw(st.booleans()),
        "form": draw(st.sampled_from(["f8", "f8", "f4", ">f8", "fortran"])),
        "hidden": draw(st.lists(st.tuples(st.integers(0, ny - 1), st.integers(0, nx - 1)), max_size=4)),
        "masked": draw(st.booleans()),
    }


def check_fwhm(case, rec):
    from petrofit.modeling.fitting import fit_gaussian2d, measure_fwhm

    nx, ny = case["size"]
    sx, sy = case["sigma"]
    x0, y0 = nx // 2 + case["off"][0], ny // 2 + case["off"][1]
    y, x = np.mgrid[:ny, :nx].astype(float)
    img = case["amp"] * np.exp(-0.5 * (((x - x0) / sx) ** 2 + ((y - y0) / sy) ** 2))
    form = case["form"]
    whole = img
    img = np.asfortranarray(img) if form == "fortran" else img.astype(form)
    # undefined or masked pixels, but not those which hold a narrow source
    hidden = [p for p in case["hidden"] if min(sx, sy) > 1.5 or np.hypot(p[0] - y0, p[1] - x0) > 3]
    if hidden:
        mask = np.zeros(img.shape, bool)
        mask[tuple(np.transpose(hidden))] = True
        img[mask] = 3 * case["amp"] if case["masked"] else np.nan
        if case["masked"]:
            img = np.ma.array(img, mask=mask)
    frozen = Frozen(image=img)
    kw = {"printout": case["print"]}
    if case["plot"] is not None:
        kw["plot"] = case["plot"]
    got = measure_fwhm(img, **kw)
    frozen.check("measure_fwhm")
    tol = 2e-3 if form == "f4" else 1e-3
    close(np.asarray(got, float), SIGMA_TO_FWHM * np.array([sx, sy]), tol, what="FWHM in x and y")
    same(np.asarray(measure_fwhm(img, plot=False, printout=False), float), np.asarray(got, float), "FWHM without plot and printout")
    m = fit_gaussian2d(img)
    frozen.check("fit_gaussian2d")
    close([m.x_mean.value, m.y_mean.value], [x0, y0], 1e-4, 1e-3, "fitted centre")
    close(m.amplitude.value, case["amp"], tol, what="fitted amplitude")
    close(m(x, y), whole, 2e-3, 2e-3 * case["amp"], "fitted image")
    rec.nontrivial(nx != ny and abs(sx - sy) > 0.05)
    rec.label("plot" if case["plot"] is None else "no plot", "wide" if sx > sy else "tall", form,
              "all pixels" if not hidden else "masked pixels" if case["masked"] else "NaN pixels")


SUBS = [
    Sub("isophote", iso_cases, check_iso, 400, 8000, "elliptical source in a non-square image"),
    Sub("large", lambda: iso_cases(130, 260, 50), check_iso, 12, 240, "elliptical source in a non-square image"),
    Sub("undefined", nan_cases, check_nan, 60, 600, "an image without isophotes"),
    Sub("large_fwhm", lambda: fwhm_cases(320, 40, 100), check_fwhm, 24, 480, "non-square image, different widths"),
    Sub("fwhm", fwhm_cases, check_fwhm, 1000, 16000, "non-square image, different widths"),
]
