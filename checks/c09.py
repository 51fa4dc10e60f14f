"""C09: model images and sampling grids."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.imgmodels import build, model_specs
from pbt.util import close, fl, need, raises, rnd, same

ASSUMPTIONS = [
    "Centres are whole or dyadic numbers (the documentation asks for whole numbers).",
    "mode='integrate' is exercised on images of at most 3 x 3 pixels (slow by design).",
]

whole = st.integers(-40, 60)
center = st.one_of(whole, whole, whole, st.integers(-160, 240).map(lambda i: i / 4.0), st.integers(-20000, 20000))


def scale_of(f, xs, ys):
    return 1e-9 * (1 + np.max(np.abs(f(xs, ys))))


@st.composite
def image_cases(draw, top=14, flat=None):
    modes = ["center"] * 20 + ["oversample", "linear_interp"] * 4 + ["integrate"] * (top < 20)
    mode = draw(st.sampled_from(modes))
    top = 3 if mode == "integrate" else top
    nx, ny = draw(st.integers(1, top)), draw(st.integers(1, flat or top))
    if flat and draw(st.booleans()):
        nx, ny = ny, nx
    spec = draw(model_specs())
    at = draw(st.one_of(st.none(), st.tuples(center, center)))
    if at and max(abs(v) for v in at) > 100:
        spec["x0"], spec["y0"] = spec["x0"] + at[0], spec["y0"] + at[1]
    return {
        "model": spec,
        "mode": mode,
        "factor": draw(st.integers(1, 6)) if mode == "oversample" else 1,
        "size": [nx, ny],
        "size_form": draw(st.sampled_from(["tuple", "list", "int", "npint", "float", "tuple_float", "tuple_np"])),
        "center": at,
        "center_form": draw(st.sampled_from(["tuple", "list"])),
        "shift": draw(st.tuples(st.integers(-3, 3), st.integers(-3, 3))),
    }


@st.composite
def fine_cases(draw):
    """A small image of a source much smaller than a pixel, finely sampled."""
    case = draw(image_cases(4))
    nx, ny = case["size"]
    x0, y0 = 0, 0
    if case["center"] is not None:
        x0, y0 = case["center"][0] - nx // 2, case["center"][1] - ny // 2
    spec = dict(
        case["model"],
        kind=draw(st.sampled_from(["gauss", "gauss", "sersic"])),
        re=draw(rnd(0.005, 0.3)), n=draw(rnd(0.5, 1.5)), ellip=draw(rnd(0, 0.4)),
        x0=x0 + draw(rnd(-0.4, nx - 0.6)), y0=y0 + draw(rnd(-0.4, ny - 0.6)),
    )
    return dict(case, model=spec, mode="oversample", factor=draw(st.integers(12, 72)))


def pixel_value(f, x, y, mode, factor):
    """The value the mode asks for in the pixels centred at x, y."""
    if mode == "center":
        return f(x, y)
    if mode == "linear_interp":
        return sum(f(x + a, y + b) for a in (-0.5, 0.5) for b in (-0.5, 0.5)) / 4
    if mode == "oversample":
        k = (np.arange(factor) + 0.5) / factor - 0.5
        return sum(f(x + a, y + b) for a in k for b in k) / factor**2
    t, w = np.polynomial.legendre.leggauss(16)
    return sum(
        wa * wb * f(x + a / 2, y + b / 2) for a, wa in zip(t, w) for b, wb in zip(t, w)
    ) / 4


def check_image(case, rec):
    from petrofit.modeling.fitting import model_to_image

    mode, factor = case["mode"], case["factor"]
    # off the sub-pixel centres, where the value at a cusp hangs on rounding
    model, f = build(case["model"], 0.0 if mode == "center" else 0.00137)
    nx, ny = case["size"]
    form = case["size_form"]
    if form in ("int", "npint", "float"):
        ny = nx
    size = {
        "tuple": (nx, ny), "list": [nx, ny], "int": nx, "npint": np.int64(nx), "float": float(nx),
        "tuple_float": (float(nx), float(ny)), "tuple_np": (np.int32(nx), np.int64(ny)),
    }[form]
    kw = {}
    x0 = y0 = 0
    if case["center"] is not None:
        c = case["center"]
        kw["center"] = tuple(c) if case["center_form"] == "tuple" else list(c)
        x0, y0 = c[0] - nx // 2, c[1] - ny // 2
    if mode != "center":
        kw["mode"] = mode
    if mode == "oversample":
        kw["factor"] = factor
    before = None if not hasattr(model, "parameters") else np.array(model.parameters)
    got = model_to_image(model, size, **kw)
    ys, xs = np.mgrid[0:ny, 0:nx].astype(float)
    want = pixel_value(f, xs + x0, ys + y0, mode, factor)
    tol = scale_of(f, xs + x0, ys + y0)
    smooth = case["model"]["kind"] not in ("sersic", "compound")
    if mode == "integrate" and not smooth:
        # the quadrature of a cusp is not what is judged here
        need(np.shape(got) == (ny, nx), "image shape %s", np.shape(got))
    else:
        close(got, want, 1e-9 if mode != "integrate" else 1e-6, tol, "model image (%s)" % mode)
    if before is not None:
        same(model.parameters, before, "parameters of the model after making an image")
    # the same sky region through another window
    if mode != "integrate":
        dx = int(np.clip(case["shift"][0], -nx, nx))
        dy = int(np.clip(case["shift"][1], -ny, ny))
        kw["center"] = (x0 + nx // 2 + dx, y0 + ny // 2 + dy)
        other = model_to_image(model, (nx, ny), **kw)
        a = np.asarray(got)[max(dy, 0): ny + min(dy, 0), max(dx, 0): nx + min(dx, 0)]
        b = np.asarray(other)[max(-dy, 0): ny + min(-dy, 0), max(-dx, 0): nx + min(-dx, 0)]
        close(a, b, 1e-9, tol, "overlap of two windows")
    rec.nontrivial(nx != ny and case["center"] is not None)
    rec.label(mode, "center" if case["center"] else "no center")


@st.composite
def grid_cases(draw):
    return {
        "size": draw(st.one_of(st.integers(1, 30), st.integers(1, 30), st.integers(1, 30), st.integers(31, 120))),
        "origin": draw(st.one_of(st.none(), st.tuples(center, center), st.tuples(fl(-50, 50), fl(-50, 50)))),
        "factor": draw(st.one_of(st.none(), st.integers(1, 9))),
        "form": draw(st.sampled_from(["tuple", "list", "array"])),
    }


def check_grid(case, rec):
    from petrofit.modeling.models import make_grid

    n, fac = case["size"], case["factor"] or 1
    kw = {}
    ox = oy = 0.0
    if case["origin"] is not None:
        ox, oy = case["origin"]
        kw["origin"] = {"tuple": tuple, "list": list, "array": np.array}[case["form"]](case["origin"])
    if case["factor"] is not None:
        kw["factor"] = fac
    x, y = make_grid(n, **kw)
    sub = (np.arange(fac) + 0.5) / fac - 0.5
    line = (np.arange(n)[:, None] + sub[None, :]).ravel()
    wx, wy = np.broadcast_to(line[None, :] + ox, (n * fac,) * 2), np.broadcast_to(line[:, None] + oy, (n * fac,) * 2)
    close(x, wx, 0, 1e-10, "x grid")
    close(y, wy, 0, 1e-10, "y grid")
    mean = lambda g: np.asarray(g).reshape(n, fac, n, fac).mean(axis=(1, 3))
    close(mean(x), np.broadcast_to(np.arange(n)[None, :] + ox, (n, n)), 0, 1e-9, "mean sub-pixel x of a pixel")
    close(mean(y), np.broadcast_to(np.arange(n)[:, None] + oy, (n, n)), 0, 1e-9, "mean sub-pixel y of a pixel")
    # grids do not share state between calls
    x += 1
    x2, y2 = make_grid(n, **kw)
    close(x2, wx, 0, 1e-10, "x grid of a second call")
    rec.nontrivial(fac > 1 and case["origin"] is not None)
    rec.label("factor 1" if fac == 1 else "odd factor" if fac % 2 else "even factor")


@st.composite
def bad_cases(draw):
    frac = st.integers(0, 30).map(lambda i: i + 0.5)
    good = st.integers(1, 20)
    return {
        "what": draw(st.sampled_from(["size", "size", "center", "factor"])),
        "good": draw(good),
        "bad_center": draw(
            st.one_of(
                st.tuples(good), st.lists(good, min_size=1, max_size=1), st.tuples(good, good, good),
                st.just(()), good, st.just("12"),
            )
        ),
        "bad_factor": draw(st.one_of(st.integers(1, 9).map(lambda i: i + 0.5), st.sampled_from(["2", (2, 2), [3]]))),
        "size": draw(
            st.one_of(
                frac, st.tuples(frac, good), st.tuples(good, frac),
                st.tuples(good), st.tuples(good, good, good), st.just([]),
                st.sampled_from(["12", None, {}]),
            )
        ),
        "center": draw(st.one_of(st.none(), st.just((5, 5)))),
    }


def check_bad(case, rec):
    from astropy.modeling.models import Planar2D
    from petrofit.modeling.fitting import model_center_to_image_origin, model_to_image
    from petrofit.modeling.models import make_grid

    model = Planar2D(1, 2, 3)
    what, size, center = case["what"], case["size"], case["center"]
    if what == "size":
        raises(lambda: model_to_image(model, size, center=center), "size %r" % (size,))
    elif what == "center":
        size = case["good"]
        center = case["bad_center"]
        raises(lambda: model_to_image(model, size, center=center), "center %r" % (center,))
        raises(lambda: model_center_to_image_origin(center, size), "center %r" % (center,))
    else:
        raises(lambda: make_grid(case["good"], factor=case["bad_factor"]), "factor %r" % (case["bad_factor"],))
    same(model.parameters, [1.0, 2.0, 3.0], "model parameters")
    rec.nontrivial(what != "size" or isinstance(size, (list, tuple)))
    rec.label(what)


SUBS = [
    Sub("image", image_cases, check_image, 4000, 60000, "not square and with a centre"),
    Sub("large", lambda: image_cases(200), check_image, 100, 2000, "a large non-square image with a centre"),
    Sub("wide", lambda: image_cases(2500, 3), check_image, 60, 1500, "a long narrow image with a centre"),
    Sub("fine", fine_cases, check_image, 120, 1500, "not square and with a centre"),
    Sub("grid", grid_cases, check_grid, 3000, 30000, "oversampled and with an origin"),
    Sub("bad_size", bad_cases, check_bad, 400, 2000, "a sequence, centre or factor"),
]
