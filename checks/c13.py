"""C13: fitting models to images."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.util import Frozen, close, need, noise, raises, rnd, same, seeds

ASSUMPTIONS = [
    "Recovery is asked for from starts within 10 % / one pixel of the truth, with the astropy fitters named in the documentation.",
    "Weights are finite and not negative.",
]

FITTERS = ["TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "LinearLSQFitter"]


def fitter_of(name):
    from astropy.modeling import fitting

    return getattr(fitting, name)


@st.composite
def hidden_pixels(draw, ny, nx, most):
    """Some pixels which must not matter."""
    k = draw(st.integers(0, most))
    if k == 0:
        return []
    return sorted({(draw(st.integers(0, ny - 1)), draw(st.integers(0, nx - 1))) for _ in range(k)})


junk = st.sampled_from([0.0, 1e6, -1e4, 7.25, 1e12])


@st.composite
def linear_cases(draw, low=5, top=18):
    nx, ny = draw(st.integers(low, top)), draw(st.integers(low, top))
    kind = draw(st.sampled_from(["planar", "planar", "poly2", "poly1"]))
    return {
        "kind": kind,
        "fitter": draw(st.sampled_from([None] + FITTERS + ["LinearLSQFitter"])),
        "size": [nx, ny],
        "coef": draw(st.lists(rnd(-5, 5), min_size=6, max_size=6)),
        "start": draw(st.lists(rnd(-2, 2), min_size=6, max_size=6)),
        "noise": draw(st.sampled_from([0.0, 0.1, 1.0])),
        "seed": draw(seeds),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
        "level": draw(st.sampled_from([0.0, 0.0, 1.0, 1e3])) if kind != "poly1" else 0.0,
        "nan": draw(hidden_pixels(ny, nx, 6)),
        "masked": draw(hidden_pixels(ny, nx, 6)),
        "zero": draw(hidden_pixels(ny, nx, 6)),
        "band": draw(st.sampled_from([None, None, None, "top", "left"])),
        "junk": draw(junk),
        "junk2": draw(junk),
        "weights": draw(st.sampled_from(["none", "none", "ones", "random", "random", "int"])),
        "factor": draw(st.sampled_from([2.0, 0.125, 10.0])),
        "dtype": draw(st.sampled_from(["float64", "float64", "float32", ">f8", "int"])),
        "fixed": draw(st.sampled_from([None, None, 0, 1])),
        "uncertainties": draw(st.booleans()),
        "memory": draw(st.sampled_from(["C", "F"])),
    }


def linear_model(kind, coef):
    """(model, design(x, y)) with parameters in the order of the model."""
    from astropy.modeling import models

    c = coef
    if kind == "planar":
        return models.Planar2D(*c[:3]), lambda x, y: [x, y, np.ones_like(x)]
    if kind == "poly1":
        return models.Polynomial2D(1, c0_0=c[0], c1_0=c[1], c0_1=c[2]), lambda x, y: [np.ones_like(x), x, y]
    if kind == "poly2":
        m = models.Polynomial2D(2, c0_0=c[0], c1_0=c[1], c2_0=c[2], c0_1=c[3], c0_2=c[4], c1_1=c[5])
        return m, lambda x, y: [np.ones_like(x), x, x**2, y, y**2, x * y]


def check_linear(case, rec):
    from petrofit.modeling.fitting import fit_model

    nx, ny = case["size"]
    yy, xx = np.mgrid[0:ny, 0:nx].astype(float)
    truth, design = linear_model(case["kind"], [v * case["scale"] for v in case["coef"]])
    clean = truth(xx, yy)
    span = np.ptp(clean) + case["scale"]
    clean = clean + case["level"] * span
    image = clean + case["noise"] * span * noise(case["seed"], (ny, nx))
    if case["dtype"] == "int":
        image = np.round(image).astype(int)
    else:
        image = image.astype(case["dtype"])
    hide = np.zeros((ny, nx), bool)
    nan = np.zeros((ny, nx), bool)
    mask = np.zeros((ny, nx), bool)
    zero = np.zeros((ny, nx), bool)
    for j, i in case["nan"]:
        nan[j, i] = case["dtype"] != "int"
    for j, i in case["masked"]:
        mask[j, i] = True
    if case["band"] == "top":
        (nan if case["dtype"] != "int" else mask)[: ny // 3] = True
    elif case["band"] == "left":
        mask[:, : nx // 3] = True
    for j, i in case["zero"]:
        zero[j, i] = case["weights"] != "none"
    hide = nan | mask | zero
    if (~hide).sum() < 12 or len(set(np.where(~hide)[0])) < 4 or len(set(np.where(~hide)[1])) < 4:
        return
    w = None
    if case["weights"] == "ones":
        w = np.ones((ny, nx))
    elif case["weights"] == "random":
        w = 0.2 + np.abs(noise(case["seed"] + 1, (ny, nx)))
    elif case["weights"] == "int":
        w = 1 + np.abs(np.round(3 * noise(case["seed"] + 1, (ny, nx)))).astype(int)
    if w is not None:
        w[zero] = 0

    name = case["fitter"]
    linear = name == "LinearLSQFitter"
    fixed = case["fixed"]

    def run(junk, weights, as_nan=False):
        data = np.array(image, order=case["memory"])
        value = int(junk) if case["dtype"] == "int" else junk
        data[mask | zero] = value
        if nan.any():
            data[nan] = np.nan
        if mask.any():
            if as_nan and case["dtype"] != "int":
                data[mask] = np.nan
            else:
                data = np.ma.array(data, mask=mask)
        start, _ = linear_model(case["kind"], [v * case["scale"] for v in case["start"]])
        if fixed is not None:
            getattr(start, start.param_names[fixed]).fixed = True
        kw = {} if name is None else {"fitter": fitter_of(name)}
        if weights is not None:
            kw["weights"] = weights
        if case["uncertainties"]:
            kw["calc_uncertainties"] = True
        frozen = Frozen(image=data, weights=weights, params=np.array(start.parameters))
        out, used = fit_model(data, start, **kw)
        frozen.check("fit_model")
        same(start.parameters, frozen.named["params"], "parameters of the start model")
        need(out is not start, "the start model itself was returned")
        need(type(out) is type(start), "fitted model is a %s", type(out).__name__)
        if name is not None:
            need(isinstance(used, fitter_of(name)), "the fitter returned is a %s", type(used).__name__)
        if fixed is not None:
            need(
                out.parameters[fixed] == start.parameters[fixed],
                "fixed parameter moved from %r to %r", start.parameters[fixed], out.parameters[fixed],
            )
        return out, start

    with np.errstate(all="ignore"):
        fit, start = run(case["junk"], w)
        # weighted least squares over the pixels which count
        cols = [np.broadcast_to(c, xx.shape)[~hide] for c in design(xx, yy)]
        z = np.asarray(image, float)[~hide]
        ww = np.ones(z.shape) if w is None else np.asarray(w, float)[~hide]
        free = [i for i in range(len(cols)) if i != fixed]
        off = 0.0 if fixed is None else cols[fixed] * start.parameters[fixed]
        sol = np.linalg.lstsq(np.array([cols[i] * ww for i in free]).T, (z - off) * ww, rcond=None)[0]
        want = off + sum(s * cols[i] for s, i in zip(sol, free))
        got = np.asarray(fit(xx, yy))[~hide]
        rms = np.sqrt(np.mean((z - want) ** 2))
        tol = 2e-3 * rms + 1e-6 * (np.ptp(z) + np.max(np.abs(z)) + case["scale"])
        if linear and case["dtype"] != "float32":
            # solved in one step: nothing but rounding
            tol = 1e-9 * (np.ptp(z) + np.max(np.abs(z)) + case["scale"])
        if case["dtype"] == "float32":
            tol *= 10
        close(got, want, 0, tol, "fit with %s against weighted least squares" % name)
        # other values under the mask / zero weights, or NaN instead of a mask
        other, _ = run(case["junk2"], w)
        close(np.asarray(other(xx, yy))[~hide], got, 0, tol, "fit with other values in ignored pixels")
        if mask.any() and case["dtype"] != "int":
            nanfit, _ = run(case["junk"], w, as_nan=True)
            close(np.asarray(nanfit(xx, yy))[~hide], got, 0, tol, "masked against NaN pixels")
        if w is not None:
            scaled, _ = run(case["junk"], w * case["factor"])
            close(np.asarray(scaled(xx, yy))[~hide], got, 0, tol, "common factor of the weights")
    rec.nontrivial(hide.any() and nx != ny)
    rec.label(str(name), "weights" if w is not None else "no weights", "fixed" if fixed is not None else "free")


@st.composite
def recover_cases(draw, low=17, top=26):
    nx, ny = draw(st.integers(low, top)), draw(st.integers(low, top))
    kind = draw(st.sampled_from(["gauss", "gauss", "moffat", "sersic", "gauss+plane", "psf"]))
    return {
        "kind": kind,
        "size": [nx, ny],
        "x": draw(rnd(-2, 2)), "y": draw(rnd(-2, 2)),
        "amp": draw(st.sampled_from([1.0, 100.0, 0.01])),
        "a": draw(rnd(2, 3.2)), "q": draw(rnd(0.5, 0.8)), "theta": draw(rnd(-1.2, 1.2)),
        "start": draw(st.lists(rnd(-1, 1), min_size=6, max_size=6)),
        "fitter": draw(st.sampled_from([None, "TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter"])),
        "nan": draw(hidden_pixels(ny - 4, nx - 4, 8)),
        "masked": draw(hidden_pixels(ny - 4, nx - 4, 8)),
        "zero": draw(hidden_pixels(ny - 4, nx - 4, 8)),
        "junk": draw(junk),
        "weights": draw(st.booleans()),
        "seed": draw(seeds),
        "fix": draw(st.booleans()),
        "bound": draw(st.sampled_from([None, None, "loose", "tight"])),
    }


def check_recover(case, rec):
    from astropy.modeling import models
    from petrofit.modeling.fitting import fit_model
    from petrofit.modeling.models import PSFConvolvedModel2D, get_default_sersic_bounds

    nx, ny = case["size"]
    yy, xx = np.mgrid[0:ny, 0:nx]
    cx, cy = nx // 2 + case["x"], ny // 2 + case["y"]
    amp, a, q, th = case["amp"], case["a"], case["q"], case["theta"]
    s = case["start"]
    f = [1 + 0.08 * v for v in s]
    kind = case["kind"]
    xk, yk, ak = "x_mean", "y_mean", "amplitude"
    if kind == "gauss":
        make = lambda f, d: models.Gaussian2D(amp * f[0], cx + d[0], cy + d[1], a * f[1], a * q * f[2], theta=th + 0.08 * d[2])
    elif kind == "gauss+plane":
        make = lambda f, d: (
            models.Gaussian2D(amp * f[0], cx + d[0], cy + d[1], a * f[1], a * q * f[2], theta=th + 0.08 * d[2])
            + models.Planar2D(0.01 * amp, -0.02 * amp, 0.3 * amp * f[1])
        )
        xk, yk, ak = "x_mean_0", "y_mean_0", "amplitude_0"
    elif kind == "moffat":
        make = lambda f, d: models.Moffat2D(amp * f[0], cx + d[0], cy + d[1], a * f[1], 2.5 * f[2])
        xk, yk = "x_0", "y_0"
    else:
        # smooth at its centre, and bounded as the documentation does it
        make = lambda f, d: models.Sersic2D(
            amp * f[0], a * f[1], 0.6 * f[2], cx + d[0], cy + d[1], ellip=1 - q * f[3], theta=th + 0.08 * d[2],
            bounds=get_default_sersic_bounds(),
        )
        xk, yk = "x_0", "y_0"
    ones, none = [1] * 6, [0, 0, 0]
    truth, start = make(ones, none), make(f, [0.5 * s[3], 0.5 * s[4], s[5]])
    if kind == "psf":
        y, x = np.mgrid[-2:3, -2:3]
        psf = np.exp(-0.5 * ((x - 0.4) ** 2 + y**2 / 1.5))
        psf /= psf.sum()
        wrap = lambda m: PSFConvolvedModel2D(m, psf=psf, oversample=2)
        truth, start = wrap(truth), wrap(start)
        start.psf_pa.fixed = True
    clean = np.asarray(truth(xx, yy), float)
    image = clean.copy()
    mask = np.zeros((ny, nx), bool)
    w = None
    if case["weights"]:
        w = 0.5 + np.random.RandomState(case["seed"]).uniform(0, 2, (ny, nx))
        for j, i in case["zero"]:
            image[j + 2, i + 2] = case["junk"]
            w[j + 2, i + 2] = 0
    for j, i in case["masked"]:
        mask[j + 2, i + 2] = True
        image[j + 2, i + 2] = case["junk"]
    for j, i in case["nan"]:
        image[j + 2, i + 2] = np.nan
    if mask.any():
        image = np.ma.array(image, mask=mask)
    if case["fix"]:
        setattr(start, ak, getattr(truth, ak).value)
        getattr(start, ak).fixed = True
    bounds = None
    if case["bound"] == "loose":
        bounds = (getattr(truth, xk).value - 6, getattr(truth, xk).value + 7)
    elif case["bound"] == "tight" and case["fitter"] in (None, "TRFLSQFitter"):
        # the truth is out of reach
        bounds = (getattr(start, xk).value - 1.0, getattr(truth, xk).value - 0.6)
        if bounds[0] >= bounds[1] - 0.1:
            bounds = (bounds[1] - 1.0, bounds[1])
        setattr(start, xk, (bounds[0] + bounds[1]) / 2)
    if bounds:
        getattr(start, xk).bounds = bounds
    kw = {} if case["fitter"] is None else {"fitter": fitter_of(case["fitter"])}
    frozen = Frozen(image=image, weights=w, params=np.array(start.parameters))
    out, used = fit_model(image, start, weights=w, **kw)
    frozen.check("fit_model")
    same(start.parameters, frozen.named["params"], "parameters of the start model")
    if case["fix"]:
        need(getattr(out, ak).value == getattr(start, ak).value, "fixed amplitude moved")
    if bounds:
        v = getattr(out, xk).value
        need(bounds[0] - 1e-9 <= v <= bounds[1] + 1e-9, "%s=%r outside of its bounds %r", xk, v, bounds)
        need(tuple(getattr(out, xk).bounds) == tuple(bounds), "bounds of the fitted model changed")
    if not (case["bound"] == "tight" and bounds):
        peak = np.max(clean)
        close(np.asarray(out(xx, yy)), clean, 0, 5e-3 * peak, "image of the fitted model (%s)" % kind)
        close(getattr(out, xk).value, getattr(truth, xk).value, 0, 0.02, xk)
        close(getattr(out, yk).value, getattr(truth, yk).value, 0, 0.02, yk)
        close(getattr(out, ak).value, getattr(truth, ak).value, 0.02, 0, ak)
    rec.nontrivial((bool(case["nan"]) or mask.any()) and nx != ny)
    rec.label(kind, str(case["fitter"]), "bounds %s" % case["bound"])


class Solver:
    """The settings with which SciPy's least-squares solvers are called."""

    KEYS = ("method", "xtol", "ftol", "gtol", "max_nfev", "maxfev", "diff_step", "epsfcn")

    def __enter__(self):
        from scipy import optimize

        self.calls = []
        self.old = {k: getattr(optimize, k) for k in ("leastsq", "least_squares")}
        for name, call in self.old.items():
            setattr(optimize, name, self.recorder(name, call))
        return self

    def recorder(self, name, call):
        def run(*args, **kw):
            self.calls.append((name, {k: kw[k] for k in self.KEYS if k in kw}, callable(kw.get("jac", kw.get("Dfun")))))
            return call(*args, **kw)

        return run

    def __exit__(self, *exc):
        from scipy import optimize

        for name, call in self.old.items():
            setattr(optimize, name, call)


@st.composite
def option_cases(draw):
    nx, ny = draw(st.integers(7, 14)), draw(st.integers(7, 14))
    return {
        "size": [nx, ny],
        "kind": draw(st.sampled_from(["gauss", "gauss+plane", "planar", "poly2"])),
        "fitter": draw(st.sampled_from([None] + FITTERS)),
        "maxiter": draw(st.sampled_from([None, 1, 2, 3, 7, 40, 300])),
        "uncertainties": draw(st.sampled_from([None, True, False])),
        "epsilon": draw(st.sampled_from([None, 1e-6, 1e-4])),
        "acc": draw(st.sampled_from([None, 1e-3, 1e-5, 1e-12])),
        "jacobian": draw(st.sampled_from([None, True, False])),
        "coef": draw(st.lists(rnd(-5, 5), min_size=6, max_size=6)),
        "nan": draw(hidden_pixels(ny, nx, 4)),
        "weights": draw(st.booleans()),
        "seed": draw(seeds),
    }


def check_options(case, rec):
    """Options reach the fitter: the same result as the fitter itself on the valid pixels."""
    from astropy.modeling import models
    from astropy.modeling.optimizers import DEFAULT_ACC, DEFAULT_EPS
    from petrofit.modeling.fitting import fit_model

    nx, ny = case["size"]
    yy, xx = np.mgrid[0:ny, 0:nx]
    c = case["coef"]
    name = case["fitter"]
    kind = case["kind"]
    if name == "LinearLSQFitter" and kind.startswith("gauss"):
        kind = "poly2"

    def make():
        if kind in ("planar", "poly2"):
            return linear_model(kind, c)[0]
        m = models.Gaussian2D(3.0, nx / 2, ny / 2, 2.0, 1.5, theta=0.3)
        return m + models.Planar2D(0.01, 0.02, 0.3) if kind == "gauss+plane" else m

    y, x = yy.astype(float), xx.astype(float)
    image = 4 * np.exp(-0.5 * (((x - nx / 2 - 0.3) / 2.2) ** 2 + ((y - ny / 2 + 0.4) / 1.4) ** 2))
    image = image + 0.02 * c[0] * x + 0.2 * noise(case["seed"], (ny, nx))
    for j, i in case["nan"]:
        image[j, i] = np.nan
    w = 0.5 + np.abs(noise(case["seed"] + 1, (ny, nx))) if case["weights"] else None
    kw = {} if name is None else {"fitter": fitter_of(name)}
    for key, arg in (("maxiter", "maxiter"), ("uncertainties", "calc_uncertainties"), ("epsilon", "epsilon"),
                     ("acc", "acc"), ("jacobian", "estimate_jacobian")):
        if case[key] is not None:
            kw[arg] = case[key]
    with Solver() as ours:
        got, used = fit_model(image, make(), weights=w, **kw)
    keep = ~np.isnan(image)
    fitter = fitter_of(name or "TRFLSQFitter")(calc_uncertainties=bool(case["uncertainties"]))
    more = {}
    if name != "LinearLSQFitter":
        more = dict(
            maxiter=case["maxiter"] or 5000,
            epsilon=case["epsilon"] or DEFAULT_EPS,
            acc=case["acc"] or DEFAULT_ACC,
            estimate_jacobian=bool(case["jacobian"]),
        )
    with Solver() as theirs:
        want = fitter(make(), xx[keep], yy[keep], image[keep], weights=None if w is None else w[keep], **more)
    need(ours.calls == theirs.calls, "solver settings %s with %r, expected %s", ours.calls, kw, theirs.calls)
    scale = np.max(np.abs(want(x, y))) + 1
    close(got(x, y), want(x, y), 1e-6, 1e-6 * scale, "image of the model fitted with %r" % kw)
    cov, ref = got.cov_matrix, want.cov_matrix
    need((cov is None) == (ref is None), "covariance matrix with calc_uncertainties=%r is %r", case["uncertainties"], cov)
    if ref is not None:
        a, b = np.asarray(cov.cov_matrix), np.asarray(ref.cov_matrix)
        close(a, b, 1e-3, 1e-6 * np.max(np.abs(b)), "covariance matrix")
        need(got.stds is not None, "no standard deviations although they were asked for")
    need(isinstance(used, type(fitter)), "the fitter returned is a %s", type(used).__name__)
    if name != "LinearLSQFitter" and "nfev" in fitter.fit_info:
        need(used.fit_info["nfev"] <= 2 * fitter.fit_info["nfev"] + 5, "%r function evaluations, the fitter itself took %r",
             used.fit_info["nfev"], fitter.fit_info["nfev"])
    rec.nontrivial(len(kw) >= 2)
    rec.label(str(name), "covariance" if ref is not None else "no covariance")


@st.composite
def shape_cases(draw):
    n = st.integers(2, 9)
    return {"image": [draw(n), draw(n)], "weights": [draw(n), draw(n)], "fitter": draw(st.sampled_from(FITTERS))}


def check_shape(case, rec):
    from astropy.modeling.models import Planar2D
    from petrofit.modeling.fitting import fit_model

    if case["image"] == case["weights"]:
        return
    image, w = np.ones(case["image"]), np.ones(case["weights"])
    raises(
        lambda: fit_model(image, Planar2D(), weights=w, fitter=fitter_of(case["fitter"])),
        "weights of shape %r for an image of shape %r" % (w.shape, image.shape),
    )
    rec.nontrivial(sorted(case["image"]) == sorted(case["weights"]))


def large_linear():
    return linear_cases(40, 130)


def large_recover():
    return recover_cases(40, 90)


SUBS = [
    Sub("large_linear", large_linear, check_linear, 40, 600, "non-square image with hidden pixels"),
    Sub("large_recover", large_recover, check_recover, 8, 150, "hidden pixels and a non-square image"),
    Sub("linear", linear_cases, check_linear, 3600, 60000, "ignored pixels in an image which is not square"),
    Sub("recover", recover_cases, check_recover, 2400, 30000, "NaN or masked pixels in an image which is not square"),
    Sub("options", option_cases, check_options, 1600, 20000, "at least two options are given"),
    Sub("weights_shape", shape_cases, check_shape, 200, 1000, "transposed shapes"),
]
