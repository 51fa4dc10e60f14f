"""C14: background fits."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.util import Frozen, close, need, noise, rnd, same, seeds
from checks.c13 import fitter_of, linear_model

ASSUMPTIONS = [
    "Sources cover at most 8 % of the pixels and stand at least 100 times the range of the background above it in the "
    "exact-recovery part: more may rightly survive three-sigma clipping.",
    "Which pixels survive is decided by astropy.stats.sigma_clip with its defaults.",
]

FITTERS = [None, None, "LinearLSQFitter", "TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter"]


def clip(values, sigma):
    """Which values survive sigma clipping (astropy's own, on the bare values)."""
    from astropy.stats import sigma_clip

    ok = np.isfinite(values)
    kept = ~np.ma.getmaskarray(sigma_clip(values[ok], sigma))
    ok[ok] = kept
    return ok


@st.composite
def cases(draw, low=8, top=24):
    nx, ny = draw(st.integers(low, top)), draw(st.integers(low, top))
    exact = draw(st.booleans())
    return {
        "size": [nx, ny],
        "exact": exact,
        "model": draw(st.sampled_from(["default", "default", "planar", "poly2", "const"])),
        "coef": draw(st.lists(rnd(-5, 5), min_size=6, max_size=6)),
        "scale": draw(st.sampled_from([1.0, 1e-3, 1e3])),
        "sigma": draw(st.sampled_from(["default", "default", 3.0, 2.0, 2.5, 5.0, None])),
        "fitter": draw(st.sampled_from(FITTERS)),
        "sources": draw(
            st.lists(
                st.tuples(st.integers(0, ny - 1), st.integers(0, nx - 1), st.integers(1, 4), rnd(1, 1.15)), max_size=4
            )
        ),
        "height": draw(st.sampled_from([100.0, 1e3, 1e5])),
        "nan": draw(st.lists(st.tuples(st.integers(0, ny - 1), st.integers(0, nx - 1)), max_size=5)),
        "masked": draw(st.lists(st.tuples(st.integers(0, ny - 1), st.integers(0, nx - 1)), max_size=4)),
        # a masked border: this share of the columns
        "cover": draw(st.sampled_from([0, 0, 0, 0, 0, 0.3, 0.55, 0.7])),
        "negative": draw(st.booleans()),
        "noise": draw(st.sampled_from([0.05, 0.5, 3.0])),
        "seed": draw(seeds),
        "dtype": draw(st.sampled_from(["float64", "float64", ">f8", "float32"] if exact else ["float64", ">f8"])),
        "uncertainties": draw(st.booleans()),
        "again": draw(st.booleans()),
    }


def check(case, rec):
    from astropy.modeling import models
    from petrofit.modeling.fitting import fit_background

    nx, ny = case["size"]
    yy, xx = np.mgrid[0:ny, 0:nx].astype(float)
    coef = [v * case["scale"] for v in case["coef"]]
    kind = {"default": "planar", "const": "const"}.get(case["model"], case["model"])
    fitter = case["fitter"]
    if kind == "const":
        # astropy cannot fit Const2D linearly: the default fitter is for planes
        if fitter in (None, "LinearLSQFitter"):
            fitter = "TRFLSQFitter"
        bg = np.full((ny, nx), coef[0])
        make = lambda c: models.Const2D(c[0])
        design = lambda x, y: [np.ones_like(x)]
    else:
        bg = linear_model(kind, coef)[0](xx, yy)
        make = lambda c: linear_model(kind, c)[0]
        design = linear_model(kind, coef)[1]
    span = np.ptp(bg) + case["scale"]
    image = bg.copy()
    if not case["exact"]:
        image = image + case["noise"] * span * noise(case["seed"], (ny, nx))
    # sources
    src = np.zeros((ny, nx))
    cover = xx < min(case["cover"] * nx, nx - 5)
    for j, i, w, h in case["sources"]:
        box = np.zeros((ny, nx), bool)
        box[j : j + w, i : i + w] = True
        if (src[box] == 0).all() and (src > 0).sum() + box.sum() <= 0.08 * (~cover).sum():
            src[box] = h
    # (iterative fitters stop early when the answer is 1e5 times their start)
    height = case["height"] if fitter in (None, "LinearLSQFitter") or case["sigma"] in ("default", 3.0) else 100.0
    image = image + src * height * span
    image = image.astype(case["dtype"])
    nan = np.zeros((ny, nx), bool)
    for j, i in case["nan"]:
        nan[j, i] = True
    image[nan] = np.nan
    if case["masked"] or cover.any():
        mask = cover
        for j, i in case["masked"]:
            mask[j, i] = True
        image[mask] = -1e6 * span
        data = np.ma.array(image, mask=mask | nan)
        nan = mask | nan
    else:
        data = image
    kw = {}
    if case["model"] != "default":
        # (the finite differences of scipy fail on a constant passing through zero)
        kw["model"] = make([case["scale"]] * 6)
    sigma = 3.0
    if case["sigma"] != "default":
        kw["sigma"] = sigma = case["sigma"]
    if fitter is not None:
        kw["fitter"] = fitter_of(fitter)
    if case["uncertainties"]:
        kw["calc_uncertainties"] = True
    linear = fitter in (None, "LinearLSQFitter")
    if kind == "const":
        values = np.where(nan, np.nan, image.astype(float))
        mean = np.nanmean(values) if sigma is None else np.mean(values[clip(values, sigma)])
        kw["model"].amplitude = 1.3 * mean or case["scale"]

    start = None if "model" not in kw else np.array(kw["model"].parameters)
    if case["again"]:
        # an earlier fit of something else leaves nothing behind
        fit_background(7.0 * xx[::-1] - 3.0 * yy + 11.0)
    frozen = Frozen(image=data)
    out, used = fit_background(data, **kw)
    frozen.check("fit_background")
    need(isinstance(used, fitter_of(fitter or "LinearLSQFitter")), "the fitter returned is a %s", type(used).__name__)
    need(out is not kw.get("model"), "the model given was returned")
    if not case["uncertainties"]:
        need(out.cov_matrix is None, "a covariance matrix which was not asked for")
    elif fitter != "LMLSQFitter" or out.cov_matrix is not None:
        need(out.cov_matrix is not None and out.stds is not None, "no covariance matrix although it was asked for")
    if start is not None:
        same(kw["model"].parameters, start, "parameters of the model given")
    got = np.asarray(out(xx, yy), float)
    f4 = 1e3 if case["dtype"] == "float32" else 1
    big = np.max(np.abs(bg)) + span
    if case["exact"] and (sigma == 3.0 or not (src > 0).any()):
        tol = (1e-9 if linear else 2e-6) * big * f4
        close(got, bg, 0, tol, "background under sources")
        rec.label("exact")
        rec.nontrivial((src > 0).any() and nx != ny)
    else:
        if case["dtype"] == "float32":
            return
        values = np.where(nan, np.nan, image.astype(float))
        ok = np.isfinite(values) if sigma is None else clip(values, sigma)
        if sigma is not None:
            # survivors next to the threshold could go either way
            v = values[ok]
            lim = np.abs(np.abs(values - np.median(v)) - sigma * np.std(v))
            if np.nanmin(lim) < 1e-9 * big:
                return
        cols = np.array([np.broadcast_to(c, xx.shape)[ok] for c in design(xx, yy)])
        sol = np.linalg.lstsq(cols.T, values[ok], rcond=None)[0]
        want = sum(s * np.broadcast_to(c, xx.shape) for s, c in zip(sol, design(xx, yy)))
        rms = np.sqrt(np.mean((want[ok] - values[ok]) ** 2))
        tol = 1e-8 * (np.max(np.abs(want)) + big + rms) if linear else 3e-3 * rms + 1e-5 * big
        close(got, want, 0, tol, "fit of the pixels surviving %s-sigma clipping" % sigma)
        rec.label("clipped" if sigma is not None else "all pixels")
        rec.nontrivial(ok.sum() < ok.size)
    if cover.sum() > 0.5 * nx * ny:
        rec.label("mostly masked")
    rec.label(case["model"], str(fitter))


def large_cases():
    return cases(40, 130)


SUBS = [
    Sub("large", large_cases, check, 60, 1000, "sources or clipped pixels present"),
    Sub("background", cases, check, 4000, 60000, "sources or clipped pixels present"),
]
