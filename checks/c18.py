"""C18: segmentation maps, catalogues, accessors and ordering."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage

from pbt.core import Sub
from pbt.util import Frozen, close, need, noise, rnd, same, seeds

ASSUMPTIONS = [
    "Pixels are connected by edges or corners (photutils' default).",
    "Elongation and orientation are compared where the source has extent in every direction and is not round.",
    "A scene has at least one source: photutils cannot make an empty catalogue.",
]


@st.composite
def scenes(draw, low=4, top=34, most=5):
    nx, ny = draw(st.integers(low, top)), draw(st.integers(low, top))
    return {
        "size": [nx, ny],
        "blobs": [
            [draw(rnd(0, nx - 1)), draw(rnd(0, ny - 1)), draw(rnd(0.8, 3.5)), draw(rnd(0.4, 1)), draw(rnd(-1.6, 1.6)), draw(rnd(2, 60))]
            for _ in range(draw(st.integers(1, most)))
        ],
        "noise": draw(st.sampled_from([0.0, 0.1, 0.6, 2.0])),
        "seed": draw(seeds),
        "steps": draw(st.booleans()),
        # the level of the background, which the thresholds are above
        "level": draw(st.sampled_from([0, 0, 0, 0, -2, -8, -100, 30])),
    }


def make_image(s):
    nx, ny = s["size"]
    yy, xx = np.mgrid[0:ny, 0:nx]
    img = s["noise"] * noise(s["seed"], (ny, nx))
    for x, y, a, q, th, amp in s["blobs"]:
        u = (xx - x) * np.cos(th) + (yy - y) * np.sin(th)
        v = -(xx - x) * np.sin(th) + (yy - y) * np.cos(th)
        img = img + amp * np.exp(-0.5 * ((u / a) ** 2 + (v / (a * q)) ** 2))
    return (np.round(img) if s["steps"] else img) + s["level"]


def groups(above, npixels):
    """Label array of the connected groups which are large enough."""
    lab, n = ndimage.label(above, structure=np.ones((3, 3)))
    out = np.zeros_like(lab)
    k = 0
    for i in range(1, n + 1):
        sel = lab == i
        if sel.sum() >= npixels:
            k += 1
            out[sel] = k
    return out


def same_partition(got, want, what):
    got = np.asarray(got)
    need(got.shape == want.shape, "%s has shape %s", what, got.shape)
    same(got != 0, want != 0, "%s: segmented pixels" % what)
    pairs = set(zip(got[want != 0].tolist(), want[want != 0].tolist()))
    need(
        len(pairs) == len({p[0] for p in pairs}) == len({p[1] for p in pairs}),
        "%s: segments are not the connected groups of pixels", what,
    )


@st.composite
def cases(draw, *scene):
    return {
        "scene": draw(scenes(*scene)),
        "threshold": draw(st.sampled_from([0.5, 1.0, 1.5, 3.0])),
        "array": draw(st.booleans()),
        "npixels": draw(st.sampled_from([1, 1, 2, 4, 4, 9, 20])),
        "deblend": draw(st.booleans()),
        "nlevels": draw(st.sampled_from([None, None, 8, 2, 60])),
        "contrast": draw(st.sampled_from([None, None, 0.0, 0.1, 0.02, 0.4, 1.0])),
        "nan": draw(st.lists(st.tuples(st.integers(0, 200), st.integers(0, 200)), max_size=3)) if draw(st.integers(0, 3)) == 0 else [],
        "image": draw(st.sampled_from(["array", "array", "ccd", "cutout", "float32", "int", "fortran"])),
        "plot": draw(st.booleans()),
        "wcs": draw(st.booleans()),
        "key": draw(st.sampled_from([None, "area", "label", "max_value", "segment_flux", "xcentroid", "ycentroid", "min_value", "semimajor_sigma", "orientation", "orientation", "eccentricity", "kron_flux", "bbox_xmin"])),
        "reverse": draw(st.one_of(st.none(), st.booleans())),
    }


def check(case, rec):
    from astropy.nddata import CCDData, Cutout2D
    from astropy.table import Table
    from astropy.wcs import WCS
    from photutils.segmentation import deblend_sources

    from petrofit import segmentation as S

    img = make_image(case["scene"])
    if case["image"] == "float32":
        img = img.astype(np.float32)
    elif case["image"] == "int":
        img = np.round(img).astype(int)
    ny, nx = img.shape
    if case["image"] != "int":
        for j, i in case["nan"]:
            img[j % ny, i % nx] = np.nan
    thr = case["threshold"]
    base = case["scene"]["level"]
    level = thr + base
    if case["array"]:
        level = base + thr * (1 + 0.3 * np.sin(np.arange(nx * ny)).reshape(ny, nx))
    above = img > level
    want = groups(above, case["npixels"])
    if not want.any():
        return
    if case["image"] == "ccd":
        image = CCDData(img.copy(), unit="adu")
    elif case["image"] == "cutout":
        big = np.full((ny + 4, nx + 2), 50.0 + abs(base))
        big[2 : 2 + ny, 1 : 1 + nx] = img
        image = Cutout2D(big, (1 + (nx - 1) / 2, 2 + (ny - 1) / 2), (ny, nx))
    elif case["image"] == "fortran":
        image = np.asfortranarray(img)
    else:
        image = img.copy()
    kw = {"npixels": case["npixels"], "deblend": case["deblend"], "plot": case["plot"]}
    if case["nlevels"]:
        kw["nlevels"] = case["nlevels"]
    if case["contrast"] is not None:
        kw["contrast"] = case["contrast"]
    w = None
    if case["wcs"]:
        w = WCS(naxis=2)
        w.wcs.ctype = "RA---TAN", "DEC--TAN"
        w.wcs.crval = 30.0, 10.0
        w.wcs.cdelt = -1e-4, 1e-4
        kw["wcs"] = w
    if case["plot"]:
        kw.update(vmin=0, vmax=5, figsize=(4, 3))
    plain = np.array(image.data if case["image"] in ("ccd", "cutout") else image, copy=True)
    frozen = Frozen(image=image, threshold=level)
    cat, segm, deb = S.make_catalog(image, level, **kw)
    frozen.check("make_catalog")
    same_partition(segm.data, want, "segmentation map")
    alone = S.make_segments(plain, npixels=case["npixels"], threshold=level)
    same(alone.data, segm.data, "make_segments against make_catalog")
    if case["deblend"]:
        final = np.asarray(deb.data)
        same(final != 0, want != 0, "pixels of the deblended map")
        for lab in np.unique(final[final != 0]):
            need(len(np.unique(want[final == lab])) == 1, "deblended segment %d joins segments", lab)
        if case["contrast"] == 1.0:
            same_partition(final, want, "map deblended with contrast 1")
        dkw = {k: kw[k] for k in ("nlevels", "contrast") if k in kw}
        d2 = S.deblend_segments(plain, alone, npixels=case["npixels"], **dkw)
        same(d2.data, final, "deblend_segments against make_catalog")
        ref = deblend_sources(
            plain, alone, npixels=case["npixels"], nlevels=case["nlevels"] or 30,
            contrast=1 / 1000 if case["contrast"] is None else case["contrast"], progress_bar=False,
        )
        same_partition(final, np.asarray(ref.data), "deblended map against photutils with these options")
        split = len(np.unique(final)) > len(np.unique(want))
        rec.label("split" if split else "nothing to split")
    else:
        need(deb is None, "a deblended map without deblending")
        final = np.asarray(segm.data)
        split = False
    # the catalogue: one row per final segment
    ids = [int(i) for i in np.unique(final[final != 0])]
    need(len(cat) == len(ids), "%d rows for %d segments", len(cat), len(ids))
    need(sorted(int(c.label) for c in cat) == ids, "labels of the catalogue %s", [int(c.label) for c in cat])
    columns = ["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation", "area"]
    table = cat.to_table(columns=columns)
    data = plain.astype(float)
    for row, src in enumerate(cat):
        lab = int(src.label)
        sel = final == lab
        need(float(src.area.value) == sel.sum(), "area %s of segment %d with %d pixels", src.area, lab, sel.sum())
        x, y = S.get_source_position(src)
        need(0 <= x < nx and 0 <= y < ny and sel[y, x], "position (%s, %s) is outside of segment %d", x, y, lab)
        need(data[y, x] == data[sel].max(), "position (%s, %s) is not the brightest pixel", x, y)
        el, ep, th = S.get_source_elong(src), S.get_source_ellip(src), S.get_source_theta(src)
        if data[sel].max() > 0:
            close(ep, 1 - 1 / el, 1e-9, 1e-9, "ellipticity against elongation")
        # moments of the light
        f = np.where(sel, data, 0.0)
        f = np.where(f > 0, f, 0.0)
        yy, xx = np.mgrid[0:ny, 0:nx]
        t = f.sum()
        if t > 0:
            mx, my = (f * xx).sum() / t, (f * yy).sum() / t
            cxx, cyy = (f * (xx - mx) ** 2).sum() / t, (f * (yy - my) ** 2).sum() / t
            cxy = (f * (xx - mx) * (yy - my)).sum() / t
            disc = np.hypot((cxx - cyy) / 2, cxy)
            l1, l2 = (cxx + cyy) / 2 + disc, (cxx + cyy) / 2 - disc
            if l2 > 0.15 and data[sel].min() >= 0:
                close(el, np.sqrt(l1 / l2), 1e-5, 0, "elongation")
                if l1 / l2 > 1.02:
                    want_th = 0.5 * np.arctan2(2 * cxy, cxx - cyy)
                    d = (float(th) - want_th + np.pi / 2) % np.pi - np.pi / 2
                    need(abs(d) < 1e-4, "orientation %r rad, moments give %r", float(th), want_th)
                    rec.label("orientation compared")
        # table rows, also of a table without units
        for trow in (table[row], Table({c: np.asarray(table[c]) for c in columns})[row]):
            need(tuple(int(v) for v in S.get_source_position(trow)) == (int(x), int(y)), "position of a table row")
            close(float(S.get_source_elong(trow)), el, 1e-12, 0, "elongation of a table row")
            close(float(S.get_source_ellip(trow)), ep, 1e-12, 1e-15, "ellipticity of a table row")
            tth = S.get_source_theta(trow)
            close(float(getattr(tth, "value", tth)), th, 1e-9, 1e-12, "orientation of a table row")
    if w is not None:
        sky = w.pixel_to_world(cat.xcentroid, cat.ycentroid)
        close(cat.sky_centroid.ra.deg, sky.ra.deg, 1e-10, 0, "sky positions")
    # ordering
    okw = {}
    if case["key"] is not None:
        okw["key"] = case["key"]
    if case["reverse"] is not None:
        okw["reverse"] = case["reverse"]
    order = [int(i) for i in S.order_cat(cat, **okw)]
    need(sorted(order) == list(range(len(cat))), "order %s is not a permutation", order)
    col = np.asarray(cat.to_table()[case["key"] or "area"], dtype=float)[order]
    if np.all(np.isfinite(col)):
        step = np.diff(col)
        need(
            np.all(step <= 0) if case["reverse"] in (None, True) else np.all(step >= 0),
            "column %s in that order: %s", case["key"] or "area", col,
        )
    # once more, without plots and on the bare array
    cat2, segm2, deb2 = S.make_catalog(plain, level, **dict(kw, plot=False))
    same(segm2.data, segm.data, "segmentation map of a second call")
    if case["deblend"]:
        same(deb2.data, deb.data, "deblended map of a second call")
    close(cat2.segment_flux, cat.segment_flux, 0, 0, "fluxes of a second call")
    rec.nontrivial(len(ids) >= 2 and case["npixels"] > 1)
    if base < 0:
        rec.label("negative levels")
    rec.label(case["image"], "plot" if case["plot"] else "no plot")


def large_cases():
    return cases(50, 110, 30)


SUBS = [
    Sub("large", large_cases, check, 25, 400, "at least two sources and npixels > 1"),
    Sub("catalogue", cases, check, 2000, 24000, "at least two sources and npixels > 1"),
]
