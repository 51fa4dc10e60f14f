"""C17: photometry of catalogue sources."""
import numpy as np
from hypothesis import strategies as st

from pbt import overlap
from pbt.core import Sub
from pbt.util import Frozen, close, containers, need, noise, raises, rnd, same, seeds, wrap
from checks.c14 import clip

ASSUMPTIONS = [
    "Elongation and orientation come from the catalogue (they are judged by C18).",
    "Images are floating point; the largest radius is at least 0.7 pixels, so that the default cutout holds the apertures.",
    "Plane invariance is asked for where clipping removes no background pixel; a constant may always be added.",
]


# mostly compact boxes; sometimes streaks a pixel or three wide
half_sizes = st.one_of(
    st.tuples(st.integers(1, 4), st.integers(1, 4)), st.tuples(st.integers(1, 4), st.integers(1, 4)), st.tuples(st.integers(1, 4), st.integers(1, 4)),
    st.tuples(st.integers(0, 1), st.integers(4, 20)), st.tuples(st.integers(4, 20), st.integers(0, 1)),
)


@st.composite
def scenes(draw, top=34, most=4):
    nx, ny = draw(st.integers(9, top)), draw(st.integers(9, top))
    n = draw(st.integers(1, most))
    return {
        "size": [nx, ny],
        "sources": [
            [draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1)), *draw(half_sizes), draw(rnd(5, 40))]
            for _ in range(n)
        ],
        "seed": draw(seeds),
        "noise": draw(st.sampled_from([0.0, 0.3, 1.0])),
        "plane": [draw(rnd(-0.3, 0.3)), draw(rnd(-0.3, 0.3)), draw(rnd(-5, 5))],
    }


def make_scene(s):
    """(image, labels): boxes with a unique brightest pixel each, on a plane."""
    nx, ny = s["size"]
    yy, xx = np.mgrid[0:ny, 0:nx]
    lab = np.zeros((ny, nx), int)
    img = np.zeros((ny, nx))
    k = 0
    for x, y, w, h, peak in s["sources"]:
        box = (abs(xx - x) <= w) & (abs(yy - y) <= h) & (lab == 0)
        if not box.any() or lab[y, x]:
            continue
        k += 1
        lab[box] = k
        d = np.hypot((xx - x) / (w + 0.7), (yy - y) / (h + 0.45))
        img[box] = (peak * 3 * np.exp(-d) + 1e-3 * (xx * 7 + yy) + 60)[box]
    img = img + s["noise"] * noise(s["seed"], (ny, nx))
    a, b, c = s["plane"]
    return img + a * xx + b * yy + c, lab


def reference(img, lab, label, pos, elong, theta, r, err, size, o):
    """Fluxes, areas and errors by definition; None where photutils is degenerate."""
    from photutils.aperture import EllipticalAperture

    ny, nx = img.shape
    x0, y0 = pos
    half = size // 2
    yy, xx = np.mgrid[0:ny, 0:nx]
    cut = (xx >= x0 - half) & (xx < x0 + half) & (yy >= y0 - half) & (yy < y0 + half)
    use = (lab == label) | ((lab == 0) & (not o["mask_background"]))
    use = use & np.isfinite(img) & cut
    val = np.where(use, img, 0.0)
    if o["bg_sub"]:
        bg = (lab == 0) & np.isfinite(img) & cut
        if bg.sum() > 10:
            v = img[bg]
            sigma = o["sigma"]
            if o["sigma_type"].lower() == "clip":
                ok = clip(v, sigma)
                d = np.abs(np.abs(v[ok] - np.median(v[ok])) - sigma * np.std(v[ok]))
            else:
                mean = np.mean(v[clip(v, 3)])
                ok = np.abs(v - mean) <= sigma
                d = np.abs(np.abs(v - mean) - sigma)
            if ok.sum() < 4 or d.min() < 1e-7 * (1 + np.abs(v).max()):
                return None
            A = np.array([xx[bg][ok], yy[bg][ok], np.ones(ok.sum())]).T.astype(float)
            if np.linalg.matrix_rank(A, tol=1e-6) < 3:
                return None
            c = np.linalg.lstsq(A, v[ok], rcond=None)[0]
            new = val - (c[0] * xx + c[1] * yy + c[2])
            if o["sigma_type"].lower() == "bound":
                new = np.maximum(new, -sigma)
            val = np.where(use, new, 0.0)
    flux, area, errs = [], [], []
    method = o["method"] or "exact"
    pad = int(max(r)) + 2
    for a in r:
        b = a / elong
        if method == "exact":
            w = overlap.exact(img.shape, x0, y0, a, b, theta)
            lib = EllipticalAperture((x0, y0), a, b, theta=theta).to_mask("exact").to_image(img.shape)
            if np.max(np.abs(lib - w)) > 1e-6:
                return None
        else:
            w, near = overlap.subpixel(img.shape, x0, y0, a, b, theta, 5 if method == "subpixel" else 1)
            if near < 1e-9:
                return None
        flux.append((w * val).sum())
        area.append((w * use).sum())
        errs.append(np.nan if err is None else (w * use * np.where(use, err, 0) ** 2).sum())
    return np.array(flux), np.array(area), np.array(errs), np.abs(val).max()


@st.composite
def cases(draw, top=34, most=4, reach=12, few=None, least=0.7):
    rmax = draw(st.one_of(rnd(least, reach), st.integers(int(np.ceil(least)), reach)))
    n = draw(st.integers(0, few or most))
    return {
        "scene": draw(scenes(top, most)),
        "pick": draw(st.integers(0, most - 1)),
        "r": [draw(rnd(0.1, reach)) for _ in range(n)] + [rmax],
        "r_form": draw(containers(["array", "list", "tuple", "column"])),
        "cutout": draw(st.one_of(st.none(), st.integers(0, 30))),
        "cutout_form": draw(st.sampled_from(["int", "float", "npint"])),
        "bg_sub": draw(st.booleans()),
        "sigma": draw(st.sampled_from([None, 3.0, 2.0, 1.0, 10.0, 0.5])),
        "sigma_type": draw(st.sampled_from([None, "clip", "clip", "bound", "Clip", "BOUND"])),
        "method": draw(st.sampled_from([None, None, "exact", "center", "subpixel"])),
        "mask_background": draw(st.one_of(st.none(), st.booleans())),
        "error": draw(st.booleans()),
        "hot": draw(st.sampled_from([None, None, 100.0, 1e4])),
        "image": draw(st.sampled_from(["array", "array", "ccd", "float32", "fortran", ">f8"])),
        "nan": draw(st.lists(st.tuples(st.integers(0, 33), st.integers(0, 33)), max_size=4)),
        "junk": draw(st.sampled_from([1e5, -1e4, 0.0, np.nan])),
        "plane": [draw(rnd(-2, 2)), draw(rnd(-2, 2)), draw(rnd(-50, 50))],
        "order": draw(st.permutations([0, 1, 2, 3])),
    }


def check(case, rec):
    from astropy.nddata import CCDData
    from photutils.segmentation import SegmentationImage, SourceCatalog

    from petrofit.segmentation import source_photometry

    img, lab = make_scene(case["scene"])
    ny, nx = img.shape
    if case["image"] == "float32":
        img = img.astype(np.float32).astype(float)
    segm = SegmentationImage(lab.copy())
    cat = SourceCatalog(img, segm)
    k = case["pick"] % len(cat)
    source = cat[k]
    label = int(source.label)
    inside = np.where(lab == label, img, -np.inf)
    y0, x0 = np.unravel_index(np.argmax(inside), inside.shape)
    elong = float(source.elongation.value)
    theta = float(source.orientation.to("rad").value)
    if not (np.isfinite(elong) and np.isfinite(theta)):
        return

    rec_img = img.copy()
    for j, i in case["nan"]:
        rec_img[j % ny, i % nx] = np.nan
    other = (lab != 0) & (lab != label)
    rec_img[other] = case["junk"]
    err = 0.1 + np.abs(noise(case["scene"]["seed"] + 1, (ny, nx))) if case["error"] else None
    if err is not None:
        if case["hot"]:
            # a few very uncertain pixels
            err[np.random.RandomState(case["scene"]["seed"] % 2**31).random_sample(err.shape) < 0.05] *= case["hot"]
        err[other] = np.nan

    r = list(case["r"])
    kw, o = {}, {"mask_background": False, "bg_sub": case["bg_sub"], "sigma": 3.0, "sigma_type": "clip", "method": case["method"]}
    for key in ("sigma", "sigma_type", "mask_background"):
        if case[key] is not None:
            kw[key] = o[key] = case[key]
    if case["method"] is not None:
        kw["method"] = case["method"]
    if case["bg_sub"]:
        kw["bg_sub"] = True
    if err is not None:
        kw["error"] = err
    need_size = 2 * int(np.ceil(max(r))) + 2
    size = int(np.ceil(max(r) * 3))
    if case["cutout"] is not None:
        size = need_size + case["cutout"]
        kw["cutout_size"] = {"int": int, "float": float, "npint": np.int64}[case["cutout_form"]](size)
    size += size % 2

    def container(a):
        if case["image"] == "ccd":
            return CCDData(a.copy(), unit="adu")
        if case["image"] == "fortran":
            return np.asfortranarray(a)
        if case["image"] in ("float32", ">f8"):
            return a.astype(case["image"])
        return a.copy()

    image = container(rec_img)
    r_in = wrap(r, case["r_form"])
    frozen = Frozen(image=image, err=err, segm=segm, r=r_in)
    want = reference(rec_img, lab, label, (x0, y0), elong, theta, r, err, size, o)
    if want is None and case["bg_sub"]:
        # (nearly) everything is clipped: there is no plane to speak of
        rec.label("degenerate")
        return
    flux, area, errs = source_photometry(source, image, segm, r_in, **kw)
    frozen.check("source_photometry")
    f4 = 3e-4 if case["image"] == "float32" else 1e-7
    if want is not None and not (case["image"] == "float32" and case["bg_sub"]):
        wf, wa, we, top = want
        scale = (1 + top) * (1 + wa.max())
        close(flux, wf, 1e-7, f4 * scale, "flux")
        close(area, wa, 1e-9, 2e-6, "area")
        if err is None:
            need(np.all(np.isnan(errs)), "errors %r without an error map", errs)
        else:
            close(np.square(errs), we, 1e-5, 1e-6 + 1e-12 * np.nanmax(err) ** 2, "squared error")
    scale = (1 + np.nanmax(np.abs(rec_img[~other]))) * (1 + np.max(area))
    # a radius alone, in the same cutout
    one = dict(kw, cutout_size=size)
    j = case["order"][0] % len(r)
    f1, a1, _ = source_photometry(source, image, segm, [r[j]], **one)
    close([f1[0], a1[0]], [flux[j], area[j]], 1e-12, 1e-12 * scale, "one radius alone")
    # other sources: any other values
    changed = rec_img.copy()
    changed[other] = 3.25e4
    f2, a2, _ = source_photometry(source, container(changed), segm, r_in, **kw)
    same(f2, flux, "flux after changing other sources")
    same(a2, area, "area after changing other sources")
    if not case["bg_sub"]:
        f3, a3, e3 = source_photometry(source, image, segm, r_in, **dict(kw, cutout_size=size + 7))
        close(f3, flux, 1e-9, 1e-9 * scale, "flux with a larger cutout")
        close(a3, area, 1e-9, 2e-6, "area with a larger cutout")
    elif case["image"] != "float32" and want is not None:
        # a constant, or a plane which clipping does not notice
        yy, xx = np.mgrid[0:ny, 0:nx]
        a, b, c = case["plane"]
        if o["sigma_type"].lower() == "clip":
            wide = dict(kw, sigma=1e6)
            p = container(rec_img + a * xx + b * yy + c)
            cut = (abs(xx - x0) <= size // 2) & (abs(yy - y0) <= size // 2)
            bgpix = (lab == 0) & np.isfinite(rec_img) & cut
            spread = len(set(xx[bgpix])) > 3 and len(set(yy[bgpix])) > 3
            # too few pixels: nothing is subtracted (and the cutout is one row short)
            if bgpix.sum() > 2 * size + 12 and spread:
                f4_, a4, _ = source_photometry(source, container(rec_img), segm, r_in, **wide)
                f5, a5, _ = source_photometry(source, p, segm, r_in, **wide)
                span = abs(a) * nx + abs(b) * ny + abs(c)
                close(f5, f4_, 1e-8, 1e-7 * (scale + span * (1 + np.max(area))), "flux after adding a plane")
                same(a5, a4, "area after adding a plane")
                rec.label("plane added")
        bgpix = (lab == 0) & np.isfinite(rec_img) & (xx >= x0 - size // 2) & (xx < x0 + size // 2)
        bgpix &= (yy >= y0 - size // 2) & (yy < y0 + size // 2)
        v = rec_img[bgpix]
        n = 3.0 if o["sigma_type"].lower() == "bound" else o["sigma"]
        # (rounding may tip a pixel over the threshold)
        if v.size > 10 and np.array_equal(clip(v, n), clip(v + c, n)):
            f6, _, _ = source_photometry(source, container(rec_img + c), segm, r_in, **kw)
            close(f6, flux, 1e-8, 1e-7 * (scale + 50 * (1 + np.max(area))), "flux after adding a constant")
            rec.label("constant added")
    edge = x0 < max(r) or y0 < max(r) or x0 + max(r) >= nx or y0 + max(r) >= ny
    rec.nontrivial(other.any() and len(cat) > 1)
    rec.label("edge" if edge else "inside", "bg_sub" if case["bg_sub"] else "plain", "compared" if want is not None else "degenerate")


@st.composite
def bad_cases(draw):
    return {
        "scene": draw(scenes()),
        "sigma_type": draw(st.sampled_from(["clipp", "", "none", "bounds", "std"])),
        "r": draw(rnd(1, 6)),
    }


def check_bad(case, rec):
    from photutils.segmentation import SegmentationImage, SourceCatalog

    from petrofit.segmentation import source_photometry

    img, lab = make_scene(case["scene"])
    segm = SegmentationImage(lab)
    source = SourceCatalog(img, segm)[0]
    yy, xx = np.mgrid[0 : img.shape[0], 0 : img.shape[1]]
    x, y = int(source.maxval_xindex), int(source.maxval_yindex)
    cut = (abs(xx - x) < case["r"] * 1.5 - 1) & (abs(yy - y) < case["r"] * 1.5 - 1)
    if ((lab == 0) & cut).sum() <= 10:
        return
    raises(
        lambda: source_photometry(source, img, segm, [case["r"]], bg_sub=True, sigma_type=case["sigma_type"]),
        "sigma_type=%r" % case["sigma_type"], kinds=(ValueError, TypeError, KeyError),
    )
    rec.nontrivial()


def large_cases():
    return cases(110, 20, 50)


SUBS = [
    Sub("large", large_cases, check, 40, 600, "another source exists and holds junk"),
    Sub("huge", lambda: cases(300, 6, 100, 2, 60), check, 10, 150, "another source exists and holds junk"),
    Sub("source", cases, check, 3600, 40000, "another source exists and holds junk"),
    Sub("bad_sigma_type", bad_cases, check_bad, 200, 2000, "enough background pixels"),
]
