"""C15: radial photometry against exact pixel / ellipse overlaps."""
import numpy as np
from hypothesis import strategies as st

from pbt import overlap
from pbt.core import Sub
from pbt.util import Frozen, angles, close, containers, fl, logfl, need, noise, raises, rnd, same, seeds, wrap

ASSUMPTIONS = [
    "Apertures meet the image: photometry of an aperture which lies wholly outside raises by design.",
    "Radii at which photutils itself misjudges an aperture exactly tangent to a pixel (radius 0.5 at a pixel centre) are left out.",
    "Areas are rounded to six decimals, so they are compared to 1e-6.",
]

coordinate = lambda n: st.one_of(
    st.integers(0, n - 1).map(float), st.integers(-1, 2 * n - 1).map(lambda i: i / 2.0), rnd(-0.4, n - 0.6)
)


@st.composite
def cases(draw, low=1, top=22, most=6):
    nx, ny = draw(st.integers(low, top)), draw(st.integers(low, top))
    n = draw(st.integers(1, most))
    reach = 14 if top < 40 else top
    radius = st.one_of(st.integers(1, reach).map(float), rnd(0.1, reach), logfl(0.02, 3 * reach))
    return {
        "size": [nx, ny],
        "position": [draw(coordinate(nx)), draw(coordinate(ny))],
        "position_form": draw(st.sampled_from(["tuple", "list", "array", "int"])),
        "r": draw(st.lists(radius, min_size=n, max_size=n)),
        "r_form": draw(containers(["array", "list", "tuple", "column", "big_endian", "strided"])),
        "sorted": draw(st.booleans()),
        "elong": draw(st.one_of(st.none(), st.just(1.0), rnd(1, 8), logfl(1, 30))),
        "theta": draw(st.one_of(st.none(), angles)),
        "seed": draw(seeds),
        "image": draw(st.sampled_from(["float64", "float64", "float32", ">f8", "int", "int16", "fortran", "view"])),
        "scale": draw(st.sampled_from([1.0, 1e-9, 1e7])),
        "error": draw(st.sampled_from([None, "float", "float", "int", "float32"])),
        "mask": draw(st.sampled_from([None, "random", "random", "few", "all_used", "band", "none_used"])),
        "hidden": draw(st.sampled_from(["nan", "huge", "inf"])),
        "method": draw(st.sampled_from([None, "exact", "exact", "center", "subpixel"])),
        "pick": draw(st.integers(0, most - 1)),
    }


def check(case, rec):
    from photutils.aperture import EllipticalAperture

    from petrofit.photometry import radial_photometry

    nx, ny = case["size"]
    shape = (ny, nx)
    scale = case["scale"]
    image = (noise(case["seed"], shape) + 0.5) * scale
    kind = case["image"]
    if kind.startswith("int"):
        image = np.round((noise(case["seed"], shape) + 0.5) * 100).astype(kind)
        scale = 100.0
    elif kind == "fortran":
        image = np.asfortranarray(image)
    elif kind == "view":
        big = np.full((2 * ny, nx + 3), 1e9)
        big[::2, 1 : nx + 1] = image
        image = big[::2, 1 : nx + 1]
    else:
        image = image.astype(kind)
    error = None
    if case["error"]:
        error = 0.1 + np.abs(noise(case["seed"] + 1, shape))
        error = np.ceil(error).astype(int) if case["error"] == "int" else error
        error = error.astype(np.float32) if case["error"] == "float32" else error
    used = None
    m = case["mask"]
    rng = np.random.RandomState(case["seed"] % 1000)
    if m is not None:
        used = np.ones(shape, bool)
        if m == "random":
            used = rng.uniform(size=shape) < 0.6
        elif m == "few":
            for _ in range(3):
                used[rng.randint(ny), rng.randint(nx)] = False
        elif m == "band":
            used[:, : nx // 2] = False
        elif m == "none_used":
            used[:] = False
    use = np.ones(shape, bool) if used is None else used
    values = np.where(use, np.asarray(image, float), 0.0)
    errs = None if error is None else np.where(use, np.asarray(error, float), 0.0)
    if not kind.startswith("int") and not use.all():
        # what lies under the mask never matters
        image = image.copy()
        with np.errstate(over="ignore"):
            image[~use] = {"nan": np.nan, "huge": 1e30, "inf": np.inf}[case["hidden"]]
    if error is not None and error.dtype.kind == "f" and not use.all():
        error[~use] = np.nan

    r = sorted(case["r"]) if case["sorted"] else list(case["r"])
    x0, y0 = case["position"]
    if case["position_form"] == "int":
        x0, y0 = float(np.clip(round(x0), 0, nx - 1)), float(np.clip(round(y0), 0, ny - 1))
    q = case["elong"] or 1.0
    th = 0.0 if case["theta"] is None else case["theta"]
    method = case["method"] or "exact"

    weights, keep = [], []
    for k, a in enumerate(r):
        b = a / q
        if method == "exact":
            w = overlap.exact(shape, x0, y0, a, b, th)
            lib = EllipticalAperture((x0, y0), a, b, theta=th).to_mask("exact").to_image(shape)
            fine = lib is not None and np.max(np.abs(lib - w)) < 1e-6
        else:
            w, near = overlap.subpixel(shape, x0, y0, a, b, th, 5 if method == "subpixel" else 1)
            # centres on the very edge could fall either way
            fine = near > 1e-9
        # the aperture's bounding box has to meet the image
        if EllipticalAperture((x0, y0), a, b, theta=th).to_mask("exact").to_image(shape) is None:
            fine = False
        if fine:
            keep.append(a)
            weights.append(w)
    if not keep:
        return
    position = {
        "tuple": tuple, "list": list, "array": np.array, "int": lambda p: (int(p[0]), int(p[1])),
    }[case["position_form"]]([x0, y0])
    kw = {}
    if case["elong"] is not None:
        kw["elong"] = q
    if case["theta"] is not None:
        kw["theta"] = th
    if error is not None:
        kw["error"] = error
    if used is not None:
        kw["mask"] = used
    if case["method"] is not None:
        kw["method"] = method
    r_in = wrap(keep, case["r_form"])
    frozen = Frozen(image=image, error=error, mask=used, r=r_in, position=position)
    flux, area, err = radial_photometry(image, position, r_in, **kw)
    frozen.check("radial_photometry")

    weights = np.array(weights)
    want = (weights * values).sum(axis=(1, 2))
    f4 = kind == "float32"
    tol = (1e-5 if f4 else 1e-9) * np.abs(weights * values).sum(axis=(1, 2)).max() + 1e-7 * np.abs(values).max()
    close(flux, want, 0, tol, "flux")
    close(area, (weights * use).sum(axis=(1, 2)), 1e-9, 2e-6, "area")
    if error is None:
        need(np.shape(err) == (len(keep),) and np.all(np.isnan(err)), "errors without an error map: %r", err)
    else:
        want = (weights * errs**2).sum(axis=(1, 2))
        close(np.square(err), want, 1e-5, 1e-7 * np.max(errs**2), "squared error")
    # one radius does not depend on the others
    k = case["pick"] % len(keep)
    f1, a1, e1 = radial_photometry(image, position, [keep[k]], **kw)
    same([f1[0], a1[0], e1[0]], [flux[k], area[k], err[k]], "photometry of one radius alone")
    # linear in the image
    if not kind.startswith("int") and not f4:
        other = np.where(use, noise(case["seed"] + 2, shape), 0.0)
        mix = np.where(use, 3 * values + 2 * other * scale, np.nan)
        fm = radial_photometry(mix, position, r_in, **kw)[0]
        fo = radial_photometry(other, position, r_in, **kw)[0]
        close(fm, 3 * flux + 2 * scale * fo, 0, tol * 20 + 1e-9 * scale * weights.sum(), "linearity in the image")
    rec.nontrivial(not use.all() and use.any() and q > 1 and nx != ny)
    rec.label(method, "mask %s" % m, "error" if error is not None else "no error")


@st.composite
def nan_cases(draw):
    nx, ny = draw(st.integers(3, 20)), draw(st.integers(3, 20))
    return {
        "size": [nx, ny],
        "position": [draw(rnd(0, nx - 1)), draw(rnd(0, ny - 1))],
        "r": draw(st.lists(rnd(0.3, 9), min_size=1, max_size=5)),
        "elong": draw(rnd(1, 4)), "theta": draw(angles),
        "nan": [draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))],
        "masked": draw(st.booleans()),
        "seed": draw(seeds),
        "error": draw(st.booleans()),
    }


def check_nan(case, rec):
    """A NaN which is used is refused, any other has no effect."""
    from petrofit.photometry import radial_photometry

    nx, ny = case["size"]
    image = noise(case["seed"], (ny, nx))
    i, j = case["nan"]
    x0, y0 = case["position"]
    q, th = case["elong"], case["theta"]
    kw = {"elong": q, "theta": th}
    if case["masked"]:
        kw["mask"] = np.ones((ny, nx), bool)
        kw["mask"][j, i] = False
    if case["error"]:
        kw["error"] = np.ones((ny, nx))
    plain = radial_photometry(image, (x0, y0), case["r"], **kw)
    bad = image.copy()
    bad[j, i] = np.nan
    # the aperture which reaches farthest towards the pixel
    area = np.array([overlap.exact((ny, nx), x0, y0, a, a / q, th)[j, i] for a in case["r"]])
    # the pixel is well outside when the circle around the ellipse misses it
    out = np.hypot(i - x0, j - y0) > max(case["r"]) + 1
    run = lambda: radial_photometry(bad, (x0, y0), case["r"], **kw)
    if case["masked"] or out:
        for a, b, name in zip(run(), plain, ("flux", "area", "error")):
            same(a, b, "%s with a NaN pixel which is not used" % name)
        rec.label("masked" if case["masked"] else "outside")
    elif area.max() > 1e-3:
        raises(run, "a NaN pixel in an aperture")
        rec.label("used")
        rec.nontrivial()


def large_cases():
    return cases(30, 140, 40)


SUBS = [
    Sub("large", large_cases, check, 30, 600, "partly masked non-square image, elongated aperture"),
    Sub("nan", nan_cases, check_nan, 1000, 12000, "the NaN pixel lies in an aperture and is not masked"),
    Sub("photometry", cases, check, 6000, 80000, "partly masked non-square image, elongated aperture"),
]
