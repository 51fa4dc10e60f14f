"""C10: oversampled model images (no PSF)."""
import numpy as np
from hypothesis import strategies as st

from pbt import psfref
from pbt.core import Sub
from pbt.imgmodels import build, model_specs
from pbt.util import close, need, origins, rnd, same

ASSUMPTIONS = [
    "Window centres half way between two pixels are not generated: which way they round is not documented.",
    "With a window the image origin is a whole number, as documented for centres.",
]

PARAM_NAMES = {
    "sersic": ("x_0", "y_0"),
    "gauss": ("x_mean", "y_mean"),
    "compound": ("x_0_0", "y_0_0"),
}


def no_tie(v):
    return abs(v - np.floor(v) - 0.5) > 1e-3


@st.composite
def whole_cases(draw, top=14):
    spec = draw(model_specs())
    origin = draw(st.one_of(st.none(), st.tuples(st.integers(-40, 60), st.integers(-40, 60)), origins))
    if origin and max(abs(v) for v in origin) > 60:
        spec["x0"], spec["y0"] = spec["x0"] + origin[0], spec["y0"] + origin[1]
    return {
        "model": dict(spec, kind="plane" if spec["kind"] == "callable" else spec["kind"]),
        "factor": draw(st.one_of(st.none(), st.integers(1, 8), st.integers(1, 8 if top > 20 else 20))),
        "size": draw(st.tuples(st.integers(1, top), st.integers(1, top))),
        "origin": origin,
        "how": draw(st.sampled_from(["image", "grid", "pixels", "frac"])),
        "pick": draw(st.lists(st.integers(0, top * top - 1), min_size=1, max_size=12)),
        "psf_pa": draw(st.sampled_from([0.0, 0.0, 33.0])),
        "frac": [draw(st.sampled_from([0.25, 0.5, 0.0])), draw(st.sampled_from([-0.5, 0.75, 0.0]))]
        if draw(st.booleans()) else [draw(rnd(-1, 1, 3)), draw(rnd(-1, 1, 3))],
    }


@st.composite
def fine_cases(draw):
    """A few pixels of a source much smaller than a pixel, finely sampled."""
    case = draw(whole_cases(4))
    x0, y0 = case["origin"] or (0, 0)
    if case["how"] == "frac":
        x0, y0 = x0 + case["frac"][0], y0 + case["frac"][1]
    nx, ny = case["size"]
    spec = dict(
        case["model"],
        kind=draw(st.sampled_from(["gauss", "gauss", "sersic"])),
        re=draw(rnd(0.004, 0.3)), n=draw(rnd(0.5, 1.5)), ellip=draw(rnd(0, 0.4)),
        x0=x0 + draw(rnd(-0.4, nx - 0.6)), y0=y0 + draw(rnd(-0.4, ny - 0.6)),
    )
    return dict(case, model=spec, factor=draw(st.integers(16, 240)))


def evaluate(m, x0, y0, nx, ny, how, pick, origin):
    """(values, rows, columns) of the pixels asked for."""
    from petrofit.modeling.fitting import model_to_image

    jj, ii = np.mgrid[0:ny, 0:nx]
    if how == "image":
        kw = {} if origin is None else {"center": (x0 + nx // 2, y0 + ny // 2)}
        return model_to_image(m, (nx, ny), **kw), jj, ii
    if how == "pixels":
        k = np.array(sorted({p % (nx * ny) for p in pick}))
        jj, ii = jj.ravel()[k], ii.ravel()[k]
    return m(ii + x0, jj + y0), jj, ii


def check_whole(case, rec):
    from petrofit.modeling.models import PSFConvolvedModel2D

    model, f = build(case["model"], 0.00137)
    nx, ny = case["size"]
    x0, y0 = case["origin"] or (0, 0)
    fac = case["factor"] or 1
    kw = {} if case["factor"] is None else {"oversample": case["factor"]}
    m = PSFConvolvedModel2D(model, **kw)
    m.psf_pa = case["psf_pa"]  # without a PSF the angle means nothing
    how = case["how"]
    if how == "frac":
        x0, y0, how = x0 + case["frac"][0], y0 + case["frac"][1], "grid"
    got, jj, ii = evaluate(m, x0, y0, nx, ny, how, case["pick"], case["origin"])
    want = psfref.sampled(f, x0, y0, nx, ny, fac)
    want = psfref.reduced(want, 1)
    close(got, want[jj, ii], 1e-9, 1e-10 * (1 + np.max(np.abs(want))), "oversampled image")
    rec.nontrivial(fac > 1 and nx != ny)
    rec.label(case["how"], "factor > 1" if fac > 1 else "factor 1")


@st.composite
def window_cases(draw, top=16, widest=12, finest=6):
    kind = draw(st.sampled_from(["sersic", "gauss", "compound", "plane", "poly"]))
    nx, ny = draw(st.integers(1, top)), draw(st.integers(1, top))
    ox, oy = draw(st.one_of(st.just((0, 0)), st.tuples(st.integers(-30, 30), st.integers(-30, 30)), origins))

    def coordinate(o, n):
        return draw(
            st.one_of(st.integers(-4, n + 4).map(lambda i: float(i + o)), rnd(-5, n + 5, 2).map(lambda v: v + o))
        )

    spec = draw(model_specs())
    spec["kind"] = kind
    cx, cy = coordinate(ox, nx), coordinate(oy, ny)
    named = [False, False]
    if kind in PARAM_NAMES:
        named = [draw(st.booleans()), draw(st.booleans())]
        # a source inside the image most of the time
        spec["x0"] = cx if named[0] else draw(rnd(0, nx)) + ox
        spec["y0"] = cy if named[1] else draw(rnd(0, ny)) + oy
    return {
        "model": spec,
        "window": [cx, cy, draw(st.integers(1, widest)), draw(st.integers(1, finest))],
        "named": named,
        "size": [nx, ny],
        "origin": [ox, oy],
        "container": draw(st.sampled_from(["tuple", "list"])),
        "how": draw(st.sampled_from(["image", "grid"])),
        "move": draw(st.one_of(st.none(), st.tuples(st.integers(-6, 6), st.integers(-6, 6)))),
        "late": draw(st.booleans()),
    }


def check_window(case, rec):
    from petrofit.modeling.models import PSFConvolvedModel2D

    spec = dict(case["model"])
    kind = spec["kind"]
    off = 0.00137
    cx, cy, size, fac = case["window"]
    named = case["named"]
    # the parameters carry the offset, and so does a window which follows them
    ax = cx + off if named[0] else cx
    ay = cy + off if named[1] else cy
    if not (no_tie(ax) and no_tie(ay)):
        return
    model, f = build(spec, off)
    names = PARAM_NAMES.get(kind)
    win = [names[0] if named[0] else cx, names[1] if named[1] else cy, size, fac]
    win = tuple(win) if case["container"] == "tuple" else win
    if case["late"]:
        m = PSFConvolvedModel2D(model)
        m.oversample = win
    else:
        m = PSFConvolvedModel2D(model, oversample=win)
    nx, ny = case["size"]
    x0, y0 = case["origin"]
    how = case["how"]

    def compare(f, ax, ay, what):
        got, jj, ii = evaluate(m, x0, y0, nx, ny, how, [], case["origin"])
        corner = (np.round(ax) - size // 2, np.round(ay) - size // 2, size)
        want = psfref.sampled(f, x0, y0, nx, ny, fac, window=corner)
        close(got, want, 1e-9, 1e-10 * (1 + np.max(np.abs(want))), what)
        wx, wy = corner[0] - x0, corner[1] - y0
        inside = 0 <= wx and wx + size <= nx and 0 <= wy and wy + size <= ny
        outside = wx >= nx or wy >= ny or wx + size <= 0 or wy + size <= 0
        return "inside" if inside else "outside" if outside else "edge"

    where = compare(f, ax, ay, "image with an oversampling window")
    if case["move"] and names:
        # the window follows the parameters it is named after
        dx, dy = case["move"]
        setattr(m, names[0], spec["x0"] + off + dx)
        setattr(m, names[1], spec["y0"] + off + dy)
        moved = dict(spec, x0=spec["x0"] + dx, y0=spec["y0"] + dy)
        _, g = build(moved, off)
        where = compare(
            g, ax + dx if named[0] else ax, ay + dy if named[1] else ay, "image after moving the model"
        )
    rec.nontrivial(fac > 1 and where != "outside" and (x0 or y0) and nx != ny)
    rec.label(where, "named" if any(named) else "numbers", "factor > 1" if fac > 1 else "factor 1")


SUBS = [
    Sub("whole", whole_cases, check_whole, 3000, 40000, "factor > 1 on an image which is not square"),
    Sub("fine", fine_cases, check_whole, 150, 2500, "factor > 1 on an image which is not square"),
    Sub("large", lambda: whole_cases(100), check_whole, 60, 1500, "factor > 1 on a large image which is not square"),
    Sub("large_window", lambda: window_cases(120, 60, 12), check_window, 100, 2000, "factor > 1, window meets a large non-square image"),
    Sub("window", window_cases, check_window, 4000, 60000, "factor > 1, window meets a non-square image with an origin"),
]
