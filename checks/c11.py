"""C11: PSF convolution against direct sums."""
import numpy as np
from hypothesis import strategies as st

from pbt import psfref
from pbt.core import Sub
from pbt.imgmodels import build, model_specs
from pbt.util import Frozen, close, fl, need, noise, origins, rnd, same, seeds

ASSUMPTIONS = [
    "scipy.ndimage.rotate(reshape=False) defines what rotating the PSF image by an angle means.",
    "For images which are not square only pixels further from the edges than the PSF are compared: "
    "what lies beyond the edges is not documented.  Square images are compared up to the edges, zero padded.",
]


def make_psf(s):
    ky, kx = s["shape"]
    if s["kind"] == "random":
        p = np.abs(noise(s["seed"], (ky, kx))) + 0.01
    elif s["kind"] == "delta":
        p = np.zeros((ky, kx))
        p[s["at"][1] % ky, s["at"][0] % kx] = 1.0
    elif s["kind"] == "center":
        p = np.zeros((ky, kx))
        p[(ky - 1) // 2, (kx - 1) // 2] = 1.0
    else:
        y, x = np.mgrid[0:ky, 0:kx]
        y, x = y - (ky - 1) / 2, x - (kx - 1) / 2
        p = np.exp(-0.5 * ((x / 1.7) ** 2 + (y / 0.9) ** 2 + 0.3 * x * y / 1.5))
    p = p / p.sum() * s["norm"]
    if "int" in s["dtype"]:
        # whole numbers over most of what the type holds
        top = {"uint8": 250, "uint16": 60000}.get(s["dtype"], 100)
        return np.round(p / p.max() * top).astype(s["dtype"])
    return np.asfortranarray(p.astype(s["dtype"])) if s["fortran"] else p.astype(s["dtype"])


@st.composite
def psf_specs(draw, top=9):
    shape = [draw(st.integers(1, top)), draw(st.integers(1, top))]
    if draw(st.booleans()):
        shape[1] = shape[0]
    return {
        "shape": shape,
        "kind": draw(st.sampled_from(["random", "random", "gauss", "delta", "center"])),
        "seed": draw(seeds),
        "at": draw(st.tuples(st.integers(0, 8), st.integers(0, 8))),
        "norm": draw(st.sampled_from([1.0, 1.0, 1.0, 0.7, 3.0])),
        "dtype": draw(st.sampled_from(["float64", "float64", "float32", ">f8", "int", "uint8", "uint16"])),
        "fortran": draw(st.booleans()),
    }


@st.composite
def direct_cases(draw, top=16, psf_top=9):
    p = draw(st.sampled_from([None, None, 1, 2, 3, 4] if top < 20 else [None, None, 1, 2]))
    k = draw(st.integers(1, 3))
    nx = draw(st.integers(3, top))
    ny = nx if draw(st.booleans()) else draw(st.integers(3, top))
    origin = draw(st.one_of(st.just((0, 0)), st.tuples(st.integers(-30, 30), st.integers(-30, 30)), origins))
    over = draw(st.sampled_from(["none", "int", "int", "window"]))
    if over == "none" and p not in (None, 1):
        over = "int"
    spec = draw(model_specs())
    spec["kind"] = draw(st.sampled_from(["sersic", "gauss", "gauss", "plane", "compound"]))
    spec["x0"] = draw(rnd(-3, nx + 3)) + origin[0]
    spec["y0"] = draw(rnd(-3, ny + 3)) + origin[1]
    return {
        "model": spec,
        # now and then a PSF which is larger than the image
        "psf": draw(psf_specs(draw(st.sampled_from([psf_top, psf_top, psf_top, 30])))),
        "angle": draw(st.one_of(st.sampled_from([0.0, 0.0, 90.0, 180.0, -45.0, 360.0]), fl(-200, 400))),
        "p": p,
        "k": k,
        "over": over,
        "window": [
            draw(st.integers(-2, nx + 2)) + origin[0], draw(st.integers(-2, ny + 2)) + origin[1], draw(st.integers(1, 9 if top < 20 else 30)),
        ],
        "size": [nx, ny],
        "origin": list(origin),
        "how": draw(st.sampled_from(["image", "grid"])),
    }


def wrapped(case, model, psf):
    from petrofit.modeling.models import PSFConvolvedModel2D

    p = case["p"] or 1
    fac = p * case["k"]
    kw = {"psf": psf}
    window = None
    if case["over"] == "int":
        kw["oversample"] = fac
    elif case["over"] == "window":
        wx, wy, ws = case["window"]
        kw["oversample"] = (wx, wy, ws, fac)
        window = (wx - ws // 2, wy - ws // 2, ws)
    else:
        fac = 1
    if case["p"] is not None:
        kw["psf_oversample"] = case["p"]
    return PSFConvolvedModel2D(model, **kw), fac, p, window


def evaluate(m, case):
    from petrofit.modeling.fitting import model_to_image

    nx, ny = case["size"]
    x0, y0 = case["origin"]
    if case["how"] == "image":
        return np.asarray(model_to_image(m, (nx, ny), center=(x0 + nx // 2, y0 + ny // 2)))
    jj, ii = np.mgrid[0:ny, 0:nx]
    return np.asarray(m(ii + x0, jj + y0))


def check_direct(case, rec):
    model, f = build(case["model"], 0.00137)
    psf = make_psf(case["psf"])
    angle = case["angle"]
    frozen = Frozen(psf=psf, params=np.array(model.parameters))
    m, fac, p, window = wrapped(case, model, psf)
    m.psf_pa = angle
    got = evaluate(m, case)
    nx, ny = case["size"]
    x0, y0 = case["origin"]
    n = max(nx, ny)
    # the neighbourhood matters in the interior of images which are not square
    want = psfref.image_of(f, x0, y0, n, n, fac, p, window, np.array(psf, dtype=psf.dtype), angle)[:ny, :nx]
    scale = np.max(np.abs(psfref.sampled(f, x0, y0, n, n, 1))) * max(1, np.abs(psf).sum()) + np.max(np.abs(want))
    eps = 3e-5 if case["psf"]["dtype"] == "float32" else 1e-9
    need(got.shape == (ny, nx), "image shape %s", got.shape)
    sl = (slice(None), slice(None))
    if nx != ny:
        my, mx = (-(-k // p) + 1 for k in psf.shape)
        sl = (slice(my, max(my, ny - my)), slice(mx, max(mx, nx - mx)))
    close(got[sl], want[sl], 0, eps * scale, "PSF convolved image")
    frozen.check("PSF convolution")
    same(model.parameters, frozen.named["params"], "parameters of the model")
    rec.nontrivial(case["psf"]["kind"] in ("random", "gauss") and got[sl].size > 8)
    rec.label("psf_oversample %s" % case["p"], case["over"], "square" if nx == ny else "not square", "rotated" if angle else "pa 0")


@st.composite
def relation_cases(draw):
    case = draw(direct_cases())
    case["size"] = [max(case["size"])] * 2
    case["psf"]["dtype"] = "float64"
    case["angle"] = draw(st.one_of(st.just(0.0), fl(-180, 180)))
    case["psf2"] = dict(draw(psf_specs()), shape=case["psf"]["shape"], dtype="float64")
    case["mix"] = [draw(rnd(-2, 3)), draw(rnd(-2, 3))]
    case["amp"] = draw(rnd(0.1, 9))
    case["shift"] = [draw(st.integers(-3, 3)), draw(st.integers(-3, 3))]
    return case


def check_relations(case, rec):
    from astropy.modeling import models

    spec = dict(case["model"], kind="gauss")
    model, _ = build(spec, 0.00137)
    a, b = case["mix"]
    pa, pb = make_psf(case["psf"]), make_psf(case["psf2"])

    def image(psf, model=model, angle=case["angle"]):
        m = wrapped(case, model, psf)[0]
        m.psf_pa = angle
        return evaluate(m, case)

    ia, ib = image(pa), image(pb)
    tol = 1e-9 * (1 + np.max(np.abs(ia)) + np.max(np.abs(ib))) * (1 + abs(a) + abs(b)) * 5
    close(image(a * pa + b * pb), a * ia + b * ib, 0, tol, "linearity in the PSF")
    brighter = model.copy()
    brighter.amplitude = model.amplitude.value * case["amp"]
    close(image(pa, brighter), case["amp"] * ia, 0, tol * 10, "linearity in the amplitude")
    # a delta PSF changes nothing, a displaced one moves the image towards it
    p = case["p"] or 1
    if p % 2 or p == 1:
        plain = image(np.ones((1, 1)), angle=0.0)
        delta = np.zeros((7, 7))
        delta[3, 3] = 1
        close(image(delta, angle=0.0), plain, 0, tol, "delta PSF")
        if p == 1:
            dx, dy = case["shift"]
            delta = np.zeros((7, 7))
            delta[3 + dy, 3 + dx] = 1
            moved = image(delta, angle=0.0)
            n = case["size"][0]
            dst = (slice(max(dy, 0), n + min(dy, 0)), slice(max(dx, 0), n + min(dx, 0)))
            src = (slice(max(-dy, 0), n + min(-dy, 0)), slice(max(-dx, 0), n + min(-dx, 0)))
            close(moved[dst], plain[src], 0, tol, "image moved by an off-centre delta PSF")
    # flux of a source well inside the image
    from petrofit.modeling.models import PSFConvolvedModel2D
    from petrofit.modeling.fitting import model_to_image

    small = models.Gaussian2D(3.0, 40 + spec["x0"] % 5, 40 + spec["y0"] % 5, 2.0, 1.5, theta=spec["theta"])
    norm = pa / pa.sum()
    kw = {"oversample": p * case["k"], "psf_oversample": p} if case["p"] else {}
    m = PSFConvolvedModel2D(small, psf=norm, **kw)
    total = model_to_image(m, (90, 90)).sum()
    bare = PSFConvolvedModel2D(small, oversample=p * case["k"] if case["p"] else None)
    need(
        abs(total - model_to_image(bare, (90, 90)).sum()) <= 1e-8 * total,
        "total flux %r after convolution with a normalised PSF, %r before", total, model_to_image(bare, (90, 90)).sum(),
    )
    rec.nontrivial(a != 0 and b != 0)


SUBS = [
    Sub("direct", direct_cases, check_direct, 4000, 60000, "extended PSF and more than 8 compared pixels"),
    Sub("large", lambda: direct_cases(64, 25), check_direct, 60, 1500, "extended PSF and more than 8 compared pixels"),
    Sub("relations", relation_cases, check_relations, 800, 12000, "both PSFs take part in the sum"),
]
