"""C05: measurements are equivariant under changes of flux and length units."""
import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt.core import Sub
from pbt.util import angles, close, fl, need, noise, rnd, scalar, seeds

ASSUMPTIONS = [
    "Curve-of-growth constants are powers of two (scaling is then exact in floating point).",
    "total_flux_err and half_flux_err are a known finding and not part of the search.",
]

FLUXES = ["total_flux", "half_flux"]
RADII = ["r_petrosian", "r_epsilon", "r_total_flux", "r_half_light", "r_50",
         "r_petrosian_err", "r_total_flux_err", "r_half_light_err", "r_50_err"]
PURE = ["c2080", "c5090"]


@st.composite
def curve_cases(draw, long=False):
    kind = draw(st.sampled_from(petro.KINDS))
    r = draw(petro.long_radii() if long else petro.radii(lo=5))
    n = len(r)
    return {
        "r": r,
        "flux": draw(petro.growth_curves(n)),
        "flux_err": draw(st.one_of(st.none(), fl(0, 2).map(lambda e: [e] * n) if long else st.lists(fl(0, 2), min_size=n, max_size=n))),
        "area_err": draw(st.one_of(st.none(), fl(0, 2))),
        "kind": kind,
        "num": draw(petro.long_nums if long else petro.nums),
        "elong": draw(fl(1, 3)),
        "eta": draw(st.one_of(st.just(0.2), fl(0.05, 0.9))),
        "eps": draw(st.one_of(st.just(2.0), fl(0.5, 3))),
        "eps_frac": draw(st.sampled_from([0.99, 0.5, 0.8])),
        "fpow": draw(st.one_of(st.just(0), st.integers(-66, 66))),
        "rpow": draw(st.one_of(st.just(0), st.integers(-33, 33))),
        "fraction": draw(fl(0.1, 1)),
    }


def build(case, fs, rs):
    from petrofit.petrosian import Petrosian

    r = np.array(case["r"]) * rs
    area = np.pi * np.array(case["r"]) ** 2 / case["elong"] * rs**2
    n = len(r)
    return Petrosian(
        r, area, np.array(case["flux"]) * fs,
        flux_err=None if case["flux_err"] is None else np.array(case["flux_err"]) * fs,
        area_err=None if case["area_err"] is None else np.full(n, case["area_err"]) * rs**2,
        eta=case["eta"], epsilon=case["eps"], epsilon_fraction=case["eps_frac"],
        interp_kind=case["kind"], interp_num=case["num"],
    )


def check_curve(case, rec):
    fs, rs = 2.0 ** case["fpow"], 2.0 ** case["rpow"]
    a, b = build(case, 1.0, 1.0), build(case, fs, rs)
    close(b.petrosian_list, a.petrosian_list, 1e-11, 1e-12, "Petrosian profile")
    if a.petrosian_err is not None:
        close(b.petrosian_err, a.petrosian_err, 1e-9, 1e-100, "Petrosian profile error")
    for name in FLUXES:
        close(getattr(b, name) / fs, getattr(a, name), 1e-9, 0, name)
    for name in RADII:
        close(getattr(b, name) / rs, getattr(a, name), 1e-9, 1e-9, name)
    for name in PURE:
        close(getattr(b, name), getattr(a, name), 1e-9, 1e-9, name)
    close(b.fraction_flux_to_r(case["fraction"]) / rs, a.fraction_flux_to_r(case["fraction"]), 1e-9, 0, "fraction_flux_to_r")
    need(bool(a.r_epsilon_in_range) == bool(b.r_epsilon_in_range), "r_epsilon_in_range changed")
    rec.nontrivial(a.r_half_light == a.r_half_light and (case["fpow"] or case["rpow"]))
    rec.label("found" if a.r_half_light == a.r_half_light else "nan",
              "flux" if case["fpow"] else "", "length" if case["rpow"] else "")


@st.composite
def image_cases(draw):
    ny, nx = draw(st.integers(9, 30)), draw(st.integers(9, 30))
    return {
        "seed": draw(seeds),
        "shape": [ny, nx],
        "pos": [draw(rnd(0, nx - 1)), draw(rnd(0, ny - 1))],
        "radii": draw(st.lists(rnd(0.5, 14), min_size=1, max_size=6)),
        "elong": draw(fl(1, 3)),
        "theta": draw(angles),
        "scale": draw(st.integers(-20, 20)),
        "mant": draw(fl(1, 9.9)),
        "error": draw(st.booleans()),
        "mask": draw(st.booleans()),
        "method": draw(st.sampled_from(["exact", "center", "subpixel"])),
        "offset": draw(st.sampled_from([0.0, 3.0])),
    }


def check_image(case, rec):
    from petrofit.photometry import radial_photometry

    k = case["mant"] * 10.0 ** case["scale"]
    image = noise(case["seed"], case["shape"]) + case["offset"]
    err = np.abs(noise(case["seed"] + 1, case["shape"])) if case["error"] else None
    mask = noise(case["seed"] + 2, case["shape"]) > -1 if case["mask"] else None
    kw = dict(mask=mask, elong=case["elong"], theta=case["theta"], method=case["method"])
    f1, a1, e1 = radial_photometry(image, tuple(case["pos"]), case["radii"], error=err, **kw)
    f2, a2, e2 = radial_photometry(
        image * k, tuple(case["pos"]), case["radii"], error=None if err is None else err * k, **kw
    )
    top = np.sum(np.abs(image))
    close(f2 / k, f1, 1e-9, 1e-13 * top, "flux of the image in other units")
    close(a2, a1, 0, 2e-6, "area of the image in other units")
    close(e2 / k, e1, 1e-9, 0, "error of the image in other units")
    rec.nontrivial(case["scale"] != 0)
    rec.label("tiny" if case["scale"] < -6 else "")


def known_flux_err(inp):
    from petrofit.petrosian import Petrosian

    r = np.array(inp["r"], float)
    out = []
    for k in (1.0, 1024.0):
        p = Petrosian(r, np.pi * r**2, k * np.array(inp["flux"]), flux_err=k * np.array(inp["flux_err"]))
        out.append([getattr(p, n) / k for n in ("total_flux_err", "half_flux_err")])
    return not np.allclose(out[0], out[1], rtol=1e-6)


KNOWN = {"flux-err-mixes-units": known_flux_err}

SUBS = [
    Sub("long", lambda: curve_cases(True), check_curve, 100, 2000, "the half-light radius exists and a constant is not 1"),
    Sub("curve", curve_cases, check_curve, 2400, 40000, "the half-light radius exists and a constant is not 1"),
    Sub("image", image_cases, check_image, 1600, 24000, "the image is scaled by more than a factor of ten"),
]
