"""C27: the whole pipeline on simulated galaxies, and its symmetries."""
import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt import sersic as S
from pbt.core import Sub
from pbt.util import Frozen, close, logfl, need, noise, rnd, same, seeds

ASSUMPTIONS = [
    "Galaxies are resolved (semi-minor half-light axis of at least 2 pixels), noiseless, with Sersic indices up to 2.5, and fit in their image.",
    "source_photometry centres its apertures on the brightest pixel (documented), so a galaxy may be up to half a pixel off the aperture centre; accuracies allow for that.",
    "Images with two equally bright brightest pixels are not compared after a symmetry transformation.",
]


@st.composite
def galaxies(draw):
    n = draw(rnd(0.5, 2.5))
    q = draw(st.one_of(st.just(1.0), rnd(0.35, 1), rnd(0.35, 1)))
    lo = max(3.0, 2.0 / q)
    hi = 11.0 if n < 1.5 else 7.5
    return {
        "n": n, "q": q, "re": draw(rnd(lo, hi)), "theta": draw(rnd(-1.57, 1.57)),
        "amp": draw(st.one_of(rnd(0.5, 50), logfl(1e-12, 1e12))),
        "dx": draw(rnd(-0.5, 0.5)), "dy": draw(rnd(-0.5, 0.5)),
        "pad": [draw(st.integers(0, 25)) for _ in range(4)],
        "threshold": draw(logfl(0.01, 0.2)),
        "deblend": draw(st.integers(0, 4)) == 0,
        "dr": draw(rnd(0.4, 0.8)),
        "how": draw(st.sampled_from(["source", "source", "radial"])),
        "cutout": draw(st.sampled_from([None, None, 0, 1, 30])),
        "mask_background": draw(st.booleans()),
        "bg": draw(st.sampled_from([None, None, None, 0.0])),
        "container": draw(st.sampled_from(["array", "array", "array", "ccd"])),
        "error": draw(st.booleans()),
    }


def truth(g):
    n, re = g["n"], g["re"]
    rp = S.petrosian_radius(0.2, re, n)
    r99 = float(S.radius(0.99, re, n))
    return rp, r99, r99 / rp


def simulate(g):
    from astropy.modeling.models import Sersic2D

    from petrofit.modeling.fitting import model_to_image
    from petrofit.modeling.models import PSFConvolvedModel2D

    rp, r99, _ = truth(g)
    # the annuli of width dr put r_petrosian up to about 1.3 dr too far out
    reach = 1.1 * max(r99, 2 * rp) + 1.5 * g["dr"] * r99 / rp
    half = int(np.ceil(reach)) + 2
    left, right, down, up = g["pad"]
    x0, y0 = left + half + g["dx"], down + half + g["dy"]
    size = (left + right + 2 * half + 1, down + up + 2 * half + 1)
    m = Sersic2D(amplitude=g["amp"], r_eff=g["re"], n=g["n"], x_0=x0, y_0=y0, ellip=1 - g["q"], theta=g["theta"])
    img = model_to_image(PSFConvolvedModel2D(m, oversample=5), size)
    return img, (x0, y0), reach


def check(case, rec):
    from astropy.nddata import CCDData

    from petrofit.petrosian import Petrosian
    from petrofit.photometry import radial_photometry
    from petrofit.segmentation import (
        get_source_elong, get_source_ellip, get_source_position, get_source_theta,
        make_catalog, order_cat, source_photometry,
    )
    from petrofit.utils import make_radius_list

    g = case
    img, (x0, y0), reach = simulate(g)
    rp, r99, eps = truth(g)
    need(img.shape[0] > 2 * reach, "image of shape %s", img.shape)
    image = CCDData(img, unit="adu") if g["container"] == "ccd" else img
    threshold = g["amp"] * g["threshold"]
    cat, segm, deb = make_catalog(image, threshold, deblend=g["deblend"], npixels=4, plot=False)
    the_segm = deb if g["deblend"] else segm
    need(len(cat) == 1, "%d sources found, one simulated", len(cat))
    src = cat[order_cat(cat, "area")[0]]
    rec.label(g["how"], "n<1" if g["n"] < 1 else "n>=1")
    rec.nontrivial(g["q"] < 1 and g["pad"][0] != g["pad"][2])
    # where it is and how it lies
    px, py = get_source_position(src)
    need(abs(float(px) - x0) <= 1.01 and abs(float(py) - y0) <= 1.01, "source at (%s, %s), simulated at (%s, %s)", px, py, x0, y0)
    close([float(src.xcentroid), float(src.ycentroid)], [x0, y0], 0, 0.15, "centroid")
    ellip, elong, theta = float(get_source_ellip(src)), float(get_source_elong(src)), float(get_source_theta(src))
    close(ellip, 1 - g["q"], 0, 0.07, "ellipticity")
    close(elong, 1 / g["q"], 0.12, what="elongation")
    if g["q"] < 0.8:
        off = (theta - g["theta"] + np.pi / 2) % np.pi - np.pi / 2
        need(abs(off) < 0.12, "orientation %r, simulated %r", theta, g["theta"])
    r = make_radius_list(reach, int(np.ceil(reach / g["dr"])))
    err = np.full(img.shape, 0.01 * g["amp"]) if g["error"] else None
    frozen = Frozen(image=image, error=err, r=r)
    if g["how"] == "source":
        kw = {"mask_background": False}
        if g["cutout"] is not None:
            kw["cutout_size"] = int(2 * np.ceil(reach)) + 4 + g["cutout"]
        flux, area, ferr = source_photometry(src, image, the_segm, r, error=err, bg_sub=False, **kw)
        q_used, tol_pos = 1 / elong, 1.0
    else:
        flux, area, ferr = radial_photometry(img, (x0, y0), r, error=err, elong=elong, theta=theta)
        q_used, tol_pos = 1 / elong, 0.0
    frozen.check(g["how"])
    close(area, np.pi * r**2 * q_used, 1e-6, 1e-4, "aperture areas")
    total = float(S.total(g["amp"], g["re"], g["n"], g["q"]))
    exact = S.enclosed(r, g["amp"], g["re"], g["n"], g["q"])
    big = r > max(2.5, 0.8 * g["re"])
    dev = np.abs(flux - exact)[big] / total
    need(dev.max() < 0.03 + 0.02 * tol_pos, "curve of growth off by %.4f of the total flux", dev.max())
    kw = {"epsilon": eps}
    if err is not None:
        kw["flux_err"] = ferr
        close(ferr, 0.01 * g["amp"] * np.sqrt(area), 1e-5, what="flux errors")
    p = Petrosian(r, area, flux, **kw)
    # the same aperture radii on the exact curve of growth
    mean = exact / r**2
    local = np.diff(exact) / np.diff(r**2)
    ideal = np.concatenate([[1.0], local / mean[1:]])
    rp_same = float(np.mean(petro.petro_radius(r, ideal, 0.2, "cubic", 5000)))
    vals = {
        "r_petrosian (same apertures)": (float(p.r_petrosian), rp_same),
        "r_petrosian": (float(p.r_petrosian), rp + 0.7 * g["dr"]),
        "r_half_light": (float(p.r_half_light), g["re"]),
        "total_flux": (float(p.total_flux), 0.99 * total),
        "r_total_flux": (float(p.r_total_flux), eps * rp_same),
        "c2080": (float(p.c2080), float(5 * np.log10(S.radius(0.8, 1, g["n"]) / S.radius(0.2, 1, g["n"])))),
    }
    if DEBUG is not None:
        DEBUG.append((g, vals, dev.max(), ellip - 1 + g["q"], elong * g["q"] - 1, (theta - g["theta"] + np.pi / 2) % np.pi - np.pi / 2, float(src.xcentroid) - x0))
        return
    for name, (got, want) in vals.items():
        rel, ab = TOL[g["how"]][name]
        close(got, want, rel, ab, name)


DEBUG = None
TOL = {
    "radial": {
        "r_petrosian (same apertures)": (0.03, 0.4), "r_petrosian": (0.03, 0.7),
        "r_half_light": (0.02, 0.2), "total_flux": (0.04, 0), "r_total_flux": (0.05, 0.6), "c2080": (0, 0.4),
    },
    "source": {
        "r_petrosian (same apertures)": (0.03, 0.6), "r_petrosian": (0.03, 0.9),
        "r_half_light": (0.03, 0.3), "total_flux": (0.045, 0), "r_total_flux": (0.06, 1.0), "c2080": (0, 0.7),
    },
}


# -- symmetries ---------------------------------------------------------------


@st.composite
def scenes(draw):
    nx, ny = draw(st.integers(8, 40)), draw(st.integers(8, 40))
    k = draw(st.integers(1, 4))
    return {
        "size": [nx, ny],
        "blobs": [
            [draw(rnd(0, nx - 1)), draw(rnd(0, ny - 1)), draw(rnd(1.2, 5)), draw(rnd(0.4, 1)), draw(rnd(-1.6, 1.6)), draw(rnd(2, 60))]
            for _ in range(k)
        ],
        "noise": draw(st.sampled_from([0.0, 0.0, 0.05, 0.3])),
        "plane": [draw(rnd(-0.02, 0.02)), draw(rnd(-0.02, 0.02))],
        "seed": draw(seeds),
        "threshold": draw(st.sampled_from([1.0, 1.5, 3.0])),
        "r": [draw(rnd(0.6, 3)), draw(rnd(0.4, 1.6)), draw(st.integers(6, 28))],
        "transpose": draw(st.booleans()),
        "flipx": draw(st.booleans()),
        "flipy": draw(st.booleans()),
        "pad": draw(st.one_of(st.none(), st.tuples(*[st.integers(0, 9)] * 4).map(list))),
        "scale": draw(st.sampled_from([1.0, 1.0, 2.0**-30, 2.0**30])),
        "error": draw(st.booleans()),
        "bg_sub": draw(st.sampled_from([None, None, "clip", "bound"])),
        "sigma": draw(st.sampled_from([3.0, 2.0])),
        "mask_background": draw(st.booleans()),
        "cutout": draw(st.sampled_from([None, "odd", "even"])),
        "method": draw(st.sampled_from(["exact", "exact", "exact", "subpixel"])),
    }


class Move:
    """An image symmetry: where pixels and directions go."""

    def __init__(self, case, shape):
        self.c, self.ny, self.nx = case, shape[0], shape[1]

    def image(self, a, fill=0.0):
        a = np.asarray(a)
        if self.c["transpose"]:
            a = a.T
        if self.c["flipx"]:
            a = a[:, ::-1]
        if self.c["flipy"]:
            a = a[::-1]
        if self.c["pad"]:
            l, r, d, u = self.c["pad"]
            a = np.pad(a, ((d, u), (l, r)), constant_values=fill)
        return np.ascontiguousarray(a)

    def point(self, x, y):
        nx, ny = self.nx, self.ny
        if self.c["transpose"]:
            x, y, nx, ny = y, x, ny, nx
        if self.c["flipx"]:
            x = nx - 1 - x
        if self.c["flipy"]:
            y = ny - 1 - y
        if self.c["pad"]:
            x, y = x + self.c["pad"][0], y + self.c["pad"][2]
        return x, y

    def angle(self, t):
        if self.c["transpose"]:
            t = np.pi / 2 - t
        if self.c["flipx"]:
            t = -t
        if self.c["flipy"]:
            t = -t
        return t


def scene_image(c):
    nx, ny = c["size"]
    yy, xx = np.mgrid[0:ny, 0:nx]
    img = c["noise"] * noise(c["seed"], (ny, nx)) + c["plane"][0] * (xx - nx / 2) + c["plane"][1] * (yy - ny / 2)
    for x, y, a, q, th, amp in c["blobs"]:
        u = (xx - x) * np.cos(th) + (yy - y) * np.sin(th)
        v = -(xx - x) * np.sin(th) + (yy - y) * np.cos(th)
        img = img + amp * np.exp(-np.sqrt((u / a) ** 2 + (v / (a * q)) ** 2))
    return img


def radii_of(p):
    return [float(v) for v in (p.r_petrosian, p.r_half_light, p.r_total_flux, p.r_petrosian_err, p.r_half_light_err)]


def check_symmetry(case, rec):
    from petrofit.petrosian import Petrosian
    from petrofit.segmentation import get_source_elong, get_source_position, get_source_theta, make_catalog, source_photometry

    c = case
    img = scene_image(c)
    ny, nx = img.shape
    mv = Move(c, img.shape)
    thr = c["threshold"]
    if np.min(np.abs(img - thr)) < 1e-9 or not (img > thr).any():
        return
    img2 = mv.image(img) * c["scale"]
    err = 0.5 + np.abs(noise(c["seed"] + 1, img.shape)) if c["error"] else None
    err2 = None if err is None else mv.image(err, 1.0) * c["scale"]
    cat, segm, _ = make_catalog(img, thr, deblend=False, npixels=5, plot=False) if groups(img > thr) else (None,) * 3
    if cat is None:
        return
    cat2, segm2, _ = make_catalog(img2, thr * c["scale"], deblend=False, npixels=5, plot=False)
    need(len(cat) == len(cat2), "%d sources, %d after the transformation", len(cat), len(cat2))
    same((mv.image(segm.data) > 0), segm2.data > 0, "segmented pixels after the transformation")
    r0, step, k = c["r"]
    r = r0 + 0.0137 + (step + 0.00071) * np.arange(k)
    for i in list(range(len(cat)))[:3]:
        src = cat[i]
        pix = img[segm.data == src.label]
        top = np.sort(pix)[-2:]
        if top[1] - top[0] < 1e-9:
            rec.label("two brightest pixels")
            continue
        x, y = (int(v) for v in get_source_position(src))
        x2, y2 = mv.point(x, y)
        label2 = int(segm2.data[y2, x2])
        src2 = [s for s in cat2 if s.label == label2]
        need(len(src2) == 1, "no source at the transformed position")
        src2 = src2[0]
        need(tuple(int(v) for v in get_source_position(src2)) == (x2, y2), "position %s, expected %s", get_source_position(src2), (x2, y2))
        e, e2 = float(get_source_elong(src)), float(get_source_elong(src2))
        if not (e < 50 and e == e):
            rec.label("degenerate")
            continue
        close(e2, e, 1e-6, what="elongation after the transformation")
        t, t2 = float(get_source_theta(src)), float(get_source_theta(src2))
        if e > 1.05:
            off = (t2 - mv.angle(t) + np.pi / 2) % np.pi - np.pi / 2
            need(abs(off) < 1e-6, "orientation %r after the transformation, was %r", t2, t)
        kw = {"mask_background": c["mask_background"], "method": c["method"]}
        whole = 2 * (max(nx, ny) + 20)
        if c["bg_sub"]:
            # the statistics use the whole cutout: all of the image
            kw.update(bg_sub=True, sigma_type=c["bg_sub"], cutout_size=whole, sigma=c["sigma"])
        elif c["cutout"]:
            kw["cutout_size"] = whole + (c["cutout"] == "odd")
        if c["bg_sub"] and c["pad"]:
            kw["bg_sub"] = False
        kw2 = dict(kw)
        if kw.get("bg_sub") and c["bg_sub"] == "bound":
            kw2["sigma"] = kw["sigma"] * c["scale"]
        if c["mask_background"] is False and c["pad"]:
            # background pixels count: the added border is not the same sky
            r_use = r[r * 1.0 < min(x, y, nx - 1 - x, ny - 1 - y) - 0.01]
        else:
            r_use = r
        if len(r_use) < 4:
            continue
        try:
            out = source_photometry(src, img, segm, r_use, error=err, **kw)
        except ValueError:
            rec.label("refused")
            continue
        out2 = source_photometry(src2, img2, segm2, r_use, error=err2, **kw2)
        top = np.abs(img).sum()
        subpix = c["method"] == "subpixel"
        if subpix and not same_subpixels(x, y, r_use, e, t, img.shape):
            rec.label("subpixel centre on the edge")
            continue
        close(np.array(out2[0]) / c["scale"], out[0], 1e-7, 1e-8 * top, "curve of growth after the transformation")
        close(out2[1], out[1], 1e-7, 1e-5, "areas after the transformation")
        close(np.array(out2[2]) / c["scale"], out[2], 1e-6, what="errors after the transformation")
        rec.label("compared", *[n for n in ("transpose", "flipx", "flipy") if c[n]])
        rec.nontrivial(e > 1.05 and (c["transpose"] or c["flipx"] or c["flipy"] or bool(c["pad"])))
        if np.all(np.diff(out[1]) > 0):
            ferr = {} if err is None else {"flux_err": out[2]}
            ferr2 = {} if err is None else {"flux_err": out2[2]}
            a = radii_of(Petrosian(r_use, out[1], out[0], **ferr))
            b = radii_of(Petrosian(r_use, out2[1], out2[0], **ferr2))
            if all(v == v for v in a[:3]):
                rec.label("radii compared")
            close(b[:3], a[:3], 1e-6, 3 * r_use[-1] / 5000, "radii after the transformation")


def groups(above):
    from scipy import ndimage

    lab, n = ndimage.label(above, structure=np.ones((3, 3)))
    return n > 0 and np.bincount(lab.reshape(-1))[1:].max() >= 5


def same_subpixels(x, y, r, e, t, shape):
    from pbt import overlap

    return all(overlap.subpixel(shape, x, y, a, a / e, t, 5)[1] > 1e-7 for a in r)


SUBS = [
    Sub("galaxy", galaxies, check, 1200, 20000, "an elongated galaxy off the image centre"),
    Sub("symmetry", scenes, check_symmetry, 3200, 60000, "an elongated source in a transformed image"),
]
