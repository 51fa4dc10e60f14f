"""C25: plotting only observes."""
import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt import sersic as S
from pbt.core import Sub
from pbt.util import Frozen, angles, close, fl, need, noise, rnd, same, seeds

ASSUMPTIONS = [
    "matplotlib's Agg backend; figures are looked at through their artists, and every few cases are rendered.",
    "Which artist class draws a line is not judged, only that the line is there with the right coordinates.",
]

RESULTS = (
    "r_petrosian r_petrosian_err r_total_flux r_total_flux_err r_half_light r_half_light_err "
    "total_flux total_flux_err half_flux half_flux_err c2080 c5090 r_epsilon eta epsilon epsilon_fraction "
    "total_flux_fraction"
).split()
ARRAYS = ["r_list", "area_list", "flux_list", "flux_err", "area_err", "petrosian_list", "petrosian_err"]


def snapshot(p):
    out = {k: float(getattr(p, k)) for k in RESULTS}
    for k in ARRAYS:
        v = getattr(p, k)
        out[k] = None if v is None else np.array(v, float)
    return out


def unchanged(p, before, what):
    after = snapshot(p)
    for k, v in before.items():
        if v is None:
            need(after[k] is None, "%s changed %s", what, k)
        else:
            same(after[k], v, "%s after %s" % (k, what))


def lines(ax):
    return [(np.ma.filled(np.ma.masked_invalid(np.asarray(l.get_xdata(), float)), np.nan), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def has_line(ax, x, y):
    for a, b in lines(ax):
        if a.shape == np.shape(x) and np.array_equal(a, x, equal_nan=True) and np.array_equal(b, y, equal_nan=True):
            return True
    return False


def has_vertical(ax, x):
    return any(len(a) == 2 and abs(a[0] - x) <= 1e-9 * abs(x) and a[0] == a[1] for a, _ in lines(ax))


def has_horizontal(ax, y):
    return any(len(b) == 2 and abs(b[0] - y) <= 1e-9 * abs(y) and b[0] == b[1] for _, b in lines(ax))


# -- Petrosian.plot, plot_cog, imshow ---------------------------------------------


@st.composite
def profile_cases(draw):
    kind = draw(st.sampled_from(["sersic", "sersic", "random", "random"]))
    c = {"kind": kind}
    if kind == "sersic":
        c.update(n=draw(rnd(0.5, 4)), re=draw(rnd(2, 20)), reach=draw(rnd(1, 16)), steps=draw(st.integers(4, 30)))
        c["order"] = draw(st.sampled_from(["cubic", "linear"]))
        k = c["steps"]
    else:
        c["r"] = draw(petro.radii(lo=4))
        k = len(c["r"])
        c["flux"] = draw(petro.growth_curves(k))
        c["order"] = draw(st.sampled_from(["cubic", "linear", "nearest", None]))
    c["flux_err"] = draw(st.sampled_from([None, 0.0, 0.01, 0.3, 2.0]))
    c["area_err"] = draw(st.sampled_from([None, None, 0.0, 0.02]))
    c["eta"] = draw(st.sampled_from([0.2, 0.5, 0.05, 0.9]))
    c["eps"] = draw(st.sampled_from([2.0, 1.0, 0.4, 8.0]))
    c["total"] = draw(st.sampled_from([0.99, 0.6, 0.29, 0.57, 0.95, 0.9]))
    opt = lambda *v: draw(st.sampled_from(v))
    c["opts"] = {
        k: v for k, v in {
            "plot_r": opt(None, True, False), "title": opt(None, "T", ""), "radius_unit": opt("skip", "kpc", "", "none"),
            "color": opt(None, "k", "tab:red"), "err_alpha": opt(None, 0, 0.5, "none"), "err_capsize": opt(None, 0, 5),
            "show_legend": opt(None, True, False), "legend_fontsize": opt(None, 8), "ax_fontsize": opt(None, 9), "tick_fontsize": opt(None, 7),
        }.items() if v is not None and v != "skip"
    }
    c["flux_unit"] = opt(None, "Jy", "")
    c["ax"] = opt("gca", "given", "other", "loose")
    c["which"] = opt("plot", "plot_cog", "imshow")
    c["position"] = [draw(rnd(-5, 50)), draw(rnd(-5, 50))]
    c["elong"] = draw(st.one_of(st.none(), rnd(1, 5)))
    c["theta"] = draw(st.one_of(st.none(), angles))
    c["color"] = opt(None, "green")
    c["lw"] = opt(None, 2)
    c["render"] = draw(st.integers(0, 5)) == 0
    return c


def make_petrosian(c):
    from petrofit.petrosian import Petrosian

    if c["kind"] == "sersic":
        r = np.linspace(c["re"] * c["reach"] / c["steps"], c["re"] * c["reach"], c["steps"])
        flux = S.enclosed(r, 3.0, c["re"], c["n"])
    else:
        r, flux = np.array(c["r"]), np.array(c["flux"])
    area = np.pi * r**2
    kw = dict(eta=c["eta"], epsilon=c["eps"], total_flux_fraction=c["total"], interp_kind=c["order"], interp_num=800)
    if c["flux_err"] is not None:
        kw["flux_err"] = c["flux_err"] * np.abs(flux)
    if c["area_err"] is not None:
        kw["area_err"] = c["area_err"] * area
    return Petrosian(r, area, flux, **kw)


def minor(ax):
    return [type(ax.xaxis.get_minor_locator()).__name__, ax.get_xlim(), ax.get_ylim(), len(ax.lines), len(ax.collections), ax.get_title()]


def segments(ax):
    from matplotlib.collections import LineCollection

    return [np.asarray(v, float) for c in ax.collections if isinstance(c, LineCollection) for v in c.get_segments() if len(v) == 2]


def has_segment(ax, a, b):
    want = np.array([a, b], float)
    tol = 1e-9 * (1 + np.abs(want).max(axis=0))
    return any(np.all(np.abs(v - want) <= tol) for v in segments(ax))


def check_errors(ax, r, y, e, alpha):
    """Error bars and the error band span the values less and plus their errors."""
    from matplotlib.collections import PolyCollection

    ok = np.isfinite(y) & np.isfinite(e)
    for a, b, d in zip(r[ok], y[ok], e[ok]):
        need(has_segment(ax, (a, b - d), (a, b + d)), "no error bar from %r to %r at %r", b - d, b + d, a)
    bands = [c for c in ax.collections if isinstance(c, PolyCollection)]
    need(len(bands) == (alpha is not None and alpha > 0), "%d error bands with err_alpha=%r", len(bands), alpha)
    for band in bands:
        paths = [np.asarray(q.vertices, float) for q in band.get_paths()]
        if not paths:
            continue
        v = np.concatenate(paths)
        tol = 1e-9 * (1 + np.abs(v).max(axis=0))
        edges = np.concatenate([np.stack([r, y - e], 1)[ok], np.stack([r, y + e], 1)[ok]])
        for point in v:
            need(np.any(np.all(np.abs(edges - point) <= tol, axis=1)), "the error band runs through (%r, %r)", *point)
        full = ok.copy()
        full[1:] &= ok[:-1]
        full[:-1] &= ok[1:]
        for k in np.flatnonzero(full):
            for d in (-e[k], e[k]):
                need(np.any(np.all(np.abs(v - [r[k], y[k] + d]) <= tol, axis=1)), "the error band misses (%r, %r)", r[k], y[k] + d)


def check_profile(case, rec):
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    p = make_petrosian(case)
    before = snapshot(p)
    plt.close("all")
    which = case["which"]
    rec.label(which)
    nan_rt = before["r_total_flux"] != before["r_total_flux"]
    if nan_rt:
        rec.label("undefined radius")
    if which == "imshow":
        fig, ax = plt.subplots()
        kw = {k: v for k, v in (("elong", case["elong"]), ("theta", case["theta"]), ("color", case["color"]), ("lw", case["lw"])) if v is not None}
        pos = tuple(case["position"])
        p.imshow(pos, **kw)
        unchanged(p, before, "imshow")
        q, t = case["elong"] or 1.0, case["theta"] or 0.0
        radii = [before["r_half_light"], before["r_total_flux"], float(p.fraction_flux_to_r(0.2)), float(p.fraction_flux_to_r(0.8))]
        radii = [r for r in radii if r == r and r > 0]
        need(len(ax.patches) == len(radii), "%d apertures drawn, expected %d", len(ax.patches), len(radii))
        left = list(radii)
        for patch in ax.patches:
            v = patch.get_patch_transform().transform(patch.get_path().vertices)
            dx, dy = v[:, 0] - pos[0], v[:, 1] - pos[1]
            u = dx * np.cos(t) + dy * np.sin(t)
            w = (-dx * np.sin(t) + dy * np.cos(t)) * q
            a = np.abs(u).max()
            close(np.abs(w).max(), a, 1e-6, what="axes of the aperture drawn")
            hit = [r for r in left if abs(r - a) <= 1e-6 * a]
            need(hit, "an aperture of radius %r was drawn, expected %s", a, left)
            left.remove(hit[0])
        # the centre is marked
        marks = [np.asarray(c.get_offsets(), float) for c in ax.collections]
        need(any(m.shape == (1, 2) and np.allclose(m[0], pos) for m in marks), "the position is not marked")
        rec.nontrivial(len(radii) > 0)
    else:
        opts = dict(case["opts"])
        for k in ("radius_unit", "err_alpha"):
            if opts.get(k) == "none":
                opts[k] = None
        if which == "plot_cog" and case["flux_unit"] is not None:
            opts["flux_unit"] = case["flux_unit"]
        how = case["ax"]
        other = None
        if how == "gca":
            fig, ax = plt.subplots()
        elif how == "given":
            fig, ax = plt.subplots()
            opts["ax"] = ax
        elif how == "other":
            fig, (ax, other) = plt.subplots(1, 2)
            plt.sca(other)
            opts["ax"] = ax
        else:
            fig = Figure()
            ax = fig.subplots()
            opts["ax"] = ax
        state = None if other is None else minor(other)
        got = getattr(p, which)(**opts)
        unchanged(p, before, which)
        need(got is ax, "%s returned %r instead of its axes", which, got)
        if other is not None:
            need(minor(other) == state, "%s changed other axes than those given", which)
            need(plt.gca() is other, "%s changed the current axes", which)
        if how == "loose":
            need(plt.get_fignums() == [], "%s on given axes opened a figure", which)
        y = before["petrosian_list"] if which == "plot" else before["flux_list"]
        need(has_line(ax, before["r_list"], y), "no line holds the data of %s", which)
        e = before["petrosian_err"] if which == "plot" else p.flux_err
        if e is not None:
            check_errors(ax, np.asarray(before["r_list"], float), np.asarray(y, float), np.asarray(e, float), opts.get("err_alpha", 0.2))
        plot_r = opts.get("plot_r", True)
        if which == "plot" and plot_r and before["r_petrosian_err"] == before["r_petrosian_err"]:
            a, b, h = before["r_petrosian"], before["r_petrosian_err"], before["eta"]
            need(has_segment(ax, (a - b, h), (a + b, h)), "the error %r of r_petrosian=%r is not drawn", b, a)
        if which == "plot":
            marks = [before["r_petrosian"]]
            if plot_r:
                need(has_horizontal(ax, before["eta"]), "eta is not marked")
        else:
            marks = [before["r_half_light"], before["r_total_flux"]]
            for name in ("half_flux", "total_flux"):
                if plot_r and before[name] == before[name]:
                    need(has_horizontal(ax, before[name]), "%s is not marked", name)
        for m in marks:
            if m == m:
                need(has_vertical(ax, m) == plot_r, "radius %r %s marked (plot_r=%s)", m, "is not" if plot_r else "is", plot_r)
        if not plot_r or all(m != m for m in marks):
            need(not any(len(a) == 2 and a[0] == a[1] for a, _ in lines(ax)), "an undefined or unwanted radius is marked")
        need(ax.get_title() == opts.get("title", "Petrosian Profile" if which == "plot" else "Curve of Growth"), "title %r", ax.get_title())
        need((ax.get_legend() is not None) == opts.get("show_legend", True), "legend")
        # labels: what is marked, and in which unit
        texts = [str(l.get_label()) for l in ax.lines]
        if plot_r:
            keys = {"r_petrosian": r"\eta"} if which == "plot" else {"r_half_light": "50", "r_total_flux": "%g" % (100 * case["total"])}
            for name, key in keys.items():
                v = before[name]
                if v == v:
                    hit = [t for t in texts if key in t and "%0.4f" % v in t]
                    need(hit, "no label names %s=%0.4f (%s): %s", name, v, key, texts)
        unit = opts.get("radius_unit", "pix")
        label = ax.get_xlabel()
        need("radius" in label.lower(), "label of the radius axis is %r", label)
        need(not unit or "[%s]" % unit in label, "label of the radius axis is %r with the unit %r", label, unit)
        if which == "plot_cog":
            need("[%s]" % case["flux_unit"] in ax.get_ylabel() if case["flux_unit"] else "[" not in ax.get_ylabel(), "label of the flux axis is %r", ax.get_ylabel())
        if case["render"]:
            rec.label("rendered")
            if how == "loose":
                from matplotlib.backends.backend_agg import FigureCanvasAgg

                FigureCanvasAgg(fig).draw()
            else:
                fig.canvas.draw()
        rec.nontrivial(len(case["opts"]) > 0)
        rec.label("errors" if p.has_petrosian_err else "no errors", how)
    plt.close("all")


# -- PetrosianCorrection.plot_correction ------------------------------------------


@st.composite
def correction_cases(draw):
    k = draw(st.integers(2, 8))
    pos = lambda lo, hi: draw(st.lists(rnd(lo, hi), min_size=k, max_size=k, unique=True))
    return {
        "p02": pos(5, 60), "r50": pos(2, 30), "c": pos(1, 5), "n": pos(0.5, 6),
        "profile": draw(profile_cases()),
        "cmap": draw(st.sampled_from([None, "viridis"])), "key": draw(st.sampled_from([None, "n", "p02"])),
        "label": draw(st.sampled_from([None, "L"])), "title": draw(st.sampled_from([None, "S"])),
        "axs": draw(st.booleans()), "enforce": draw(st.booleans()),
    }


def check_correction(case, rec):
    from astropy.table import Table
    from matplotlib import pyplot as plt

    from petrofit.petrosian import PetrosianCorrection

    t = Table()
    t["n"] = case["n"]
    t["p02"], t["u_r_50"], t["u_c2080"] = case["p02"], case["r50"], case["c"]
    for k in ("p03", "p04", "p05", "c_r_50", "c_r_80", "c_r_99"):
        t[k] = np.linspace(1, 9, len(t))
    pc = PetrosianCorrection(t, enforce_range=case["enforce"])
    p = make_petrosian(case["profile"])
    before = snapshot(p)
    frozen = Frozen(grid=t)
    kw = {k: v for k, v in (("cmap", case["cmap"]), ("cmap_key", case["key"]), ("colorbar_label", case["label"]), ("suptitle", case["title"])) if v is not None}
    axs = None
    if case["axs"]:
        fig, axs = plt.subplots(1, 3)
        kw["axs"] = axs
    out = pc.plot_correction(p, **kw)
    need(len(out) == 2, "plot_correction returned %d values", len(out))
    fig2, got = out
    need(len(got) == 3, "%d axes", len(got))
    if axs is not None:
        need(all(a is b for a, b in zip(got, axs)) and fig2 is fig, "plot_correction did not use the given axes")
    unchanged(p, before, "plot_correction")
    frozen.check("plot_correction")
    x, y, z = (np.array(case[k]) for k in ("p02", "r50", "c"))
    for ax, a, b in zip(got, (x, x, y), (y, z, z)):
        offs = [np.asarray(c.get_offsets(), float) for c in ax.collections]
        need(any(o.shape == (len(a), 2) and np.allclose(o, np.stack([a, b], 1)) for o in offs), "the grid rows are not drawn")
    q = Petrosian02(p)
    at = [q, before["r_half_light"], before["c2080"]]
    rec.label("undefined" if not np.all(np.isfinite(at)) else "defined")
    if np.all(np.isfinite(at)):
        d = sum(((c - v) / c.std()) ** 2 for c, v in zip((x, y, z), at))
        near = np.flatnonzero(d <= d.min() * (1 + 1e-5) + 1e-9)
        for ax, (i, j) in zip(got, ((0, 1), (0, 2), (1, 2))):
            cols = (x, y, z)
            ok = any(
                np.allclose(a, [at[i], cols[i][k]]) and np.allclose(b, [at[j], cols[j][k]])
                for a, b in lines(ax) if len(a) == 2 for k in near
            )
            need(ok, "no line joins the object to its nearest row")
    rec.nontrivial()
    plt.close("all")


def Petrosian02(p):
    from petrofit.petrosian import Petrosian

    return float(Petrosian(p.r_list, p.area_list, p.flux_list, eta=0.2).r_petrosian)


# -- plot_fit ------------------------------------------------------------------------


@st.composite
def fit_cases(draw):
    from pbt.imgmodels import model_specs

    nx, ny = draw(st.integers(2, 14)), draw(st.integers(2, 14))
    return {
        "size": [nx, ny], "model": draw(model_specs()), "seed": draw(seeds),
        "center": draw(st.one_of(st.none(), st.tuples(st.integers(-9, 20), st.integers(-9, 20)))),
        "image": draw(st.sampled_from(["array", "array", "ccd", "cutout", "int", "nan"])),
        "vmin": draw(st.sampled_from([None, 0, -3.0])), "vmax": draw(st.sampled_from([None, 5.0])),
        "cbar": draw(st.sampled_from([None, True, False])),
        "mode": draw(st.sampled_from([None, "center", "linear_interp"])),
        "psf": draw(st.booleans()),
        "render": draw(st.integers(0, 7)) == 0,
    }


def check_fit(case, rec):
    from astropy.nddata import CCDData, Cutout2D
    from matplotlib import pyplot as plt

    from pbt import imgmodels
    from petrofit.modeling.fitting import model_to_image, plot_fit
    from petrofit.modeling.models import PSFConvolvedModel2D

    nx, ny = case["size"]
    spec = case["model"]
    if spec["kind"] == "callable":
        spec = dict(spec, kind="plane")
    model, f = imgmodels.build(spec)
    mode = case["mode"]
    if case["psf"]:
        psf = np.ones((3, 3)) / 9
        model = PSFConvolvedModel2D(model, psf=psf, oversample=2)
        mode = None
    data = noise(case["seed"], (ny, nx)) * 3 + 2
    kind = case["image"]
    if kind == "int":
        data = np.round(data).astype(int)
    elif kind == "nan":
        data[0, 0] = np.nan
    image = data.copy()
    if kind == "ccd":
        image = CCDData(data.copy(), unit="adu")
    elif kind == "cutout":
        big = np.full((ny + 4, nx + 6), 99.0)
        big[2 : 2 + ny, 3 : 3 + nx] = data
        image = Cutout2D(big, (3 + (nx - 1) / 2, 2 + (ny - 1) / 2), (ny, nx))
    kw = {k: case[k] for k in ("vmin", "vmax", "cbar") if case[k] is not None}
    center = None if case["center"] is None else tuple(case["center"])
    if center is not None:
        kw["center"] = center
    if mode is not None:
        kw["mode"] = mode
    params = np.array(model.parameters)
    out = plot_fit(model, image, **kw)
    need(len(out) == 4, "plot_fit returned %d values", len(out))
    axs, cbar, got_model, got_res = out
    same(np.asarray(image.data if kind in ("ccd", "cutout") else image), data, "image after plot_fit")
    same(model.parameters, params, "parameters after plot_fit")
    want = model_to_image(model, (nx, ny), center=center, **({} if mode is None else {"mode": mode}))
    same(got_model, want, "model image of plot_fit")
    same(got_res, data - want, "residual of plot_fit")
    if not case["psf"] and mode in (None, "center"):
        x0, y0 = (0, 0) if center is None else (center[0] - nx // 2, center[1] - ny // 2)
        yy, xx = np.mgrid[:ny, :nx]
        with np.errstate(all="ignore"):
            ref = f(xx + x0 * 1.0, yy + y0 * 1.0)
        close(got_model, ref, 1e-9, 1e-9 * (1 + np.abs(ref).max()), "model image against the formula")
    need(len(axs) == 3, "%d axes", len(axs))
    for ax, arr, name in zip(axs, (data, want, data - want), ("Data", "Model", "Residual")):
        shown = [np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan) for im in ax.images]
        need(any(s.shape == arr.shape and np.array_equal(s, np.asarray(arr, float), equal_nan=True) for s in shown), "panel %r does not show the %s", ax.get_title(), name)
    need((cbar is not None) == (case["cbar"] is not False), "color bar %r", cbar)
    lims = {tuple(im.get_clim()) for ax in axs for im in ax.images}
    need(len(lims) == 1, "panels have different colour limits %s", lims)
    lim = lims.pop()
    for k, i in (("vmin", 0), ("vmax", 1)):
        if case[k] is not None:
            need(lim[i] == case[k], "%s %r, asked for %r", k, lim[i], case[k])
    rec.nontrivial(nx != ny)
    rec.label(kind, "psf" if case["psf"] else spec["kind"], "center" if center else "no center")
    if case["render"]:
        axs[0].figure.canvas.draw()
    plt.close("all")


# -- measure_fwhm ----------------------------------------------------------------------


@st.composite
def fwhm_cases(draw):
    nx, ny = draw(st.integers(11, 30)), draw(st.integers(11, 30))
    return {
        "size": [nx, ny], "sigma": [draw(rnd(1, 3)), draw(rnd(1, 3))], "off": [draw(rnd(-1.4, 1.4)), draw(rnd(-1.4, 1.4))],
        "amp": draw(st.sampled_from([1.0, 50.0, 0.02])), "noise": draw(st.sampled_from([0.0, 0.01])), "seed": draw(seeds),
        "print": draw(st.booleans()),
    }


def check_fwhm(case, rec):
    import contextlib
    import io
    import re

    from matplotlib import pyplot as plt
    from petrofit.modeling.fitting import measure_fwhm

    nx, ny = case["size"]
    y, x = np.mgrid[:ny, :nx].astype(float)
    x0, y0 = nx // 2 + case["off"][0], ny // 2 + case["off"][1]
    img = np.exp(-0.5 * (((x - x0) / case["sigma"][0]) ** 2 + ((y - y0) / case["sigma"][1]) ** 2))
    img = case["amp"] * (img + case["noise"] * noise(case["seed"], (ny, nx)))
    plt.close("all")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        want = np.asarray(measure_fwhm(img, plot=False, printout=False))
    need(out.getvalue() == "", "measure_fwhm printed %r with printout=False", out.getvalue())
    need(plt.get_fignums() == [], "measure_fwhm drew with plot=False")
    frozen = Frozen(image=img)
    with contextlib.redirect_stdout(out):
        got = measure_fwhm(img, plot=True, printout=case["print"])
    frozen.check("measure_fwhm")
    same(np.asarray(got), want, "FWHM with plot and printout")
    text = out.getvalue()
    if case["print"]:
        numbers = [float(v) for v in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", text)]
        for v, name in ((want[0], "FWHM in x"), (want[1], "FWHM in y"), (img.max(), "image maximum")):
            need(any(abs(n - v) <= 1e-2 * abs(v) for n in numbers), "%s %r is not among the printed values: %s", name, v, text)
    else:
        need(text == "", "measure_fwhm printed %r with printout=False", text)
    axes = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]
    need(any(np.array_equal(np.asarray(im.get_array(), float), img) for ax in axes for im in ax.images), "measure_fwhm does not show the image")
    # the row and the column of pixels through the centre
    near = lambda c: [i for i in (int(np.floor(c)), int(np.ceil(c))) if abs(i - c) <= 0.55]
    rows = [ax for ax in axes for j in near(y0) if has_line(ax, np.arange(nx), img[j])]
    cols = [ax for ax in axes for i in near(x0) if has_line(ax, np.arange(ny), img[:, i])]
    need(rows, "no line holds the row of pixels through the centre (%s)", y0)
    need(cols, "no line holds the column of pixels through the centre (%s)", x0)
    peak = case["amp"]
    for ax, c, w, sig, k in ((rows[0], x0, want[0], case["sigma"][0], nx), (cols[-1], y0, want[1], case["sigma"][1], ny)):
        level = [b[0] for a, b in lines(ax) if len(b) == 2 and b[0] == b[1]]
        need(any(abs(v - peak / 2) <= 0.05 * peak for v in level), "the half maximum %r is not marked: %s", peak / 2, level)
        at = sorted(a[0] for a, b in lines(ax) if len(a) == 2 and a[0] == a[1])
        for v in (c - w / 2, c, c + w / 2):
            need(any(abs(t - v) <= 0.15 for t in at), "position %r is not marked: %s", v, at)
        fit = peak * np.exp(-0.5 * ((np.arange(k) - c) / sig) ** 2)
        need(
            any(len(b) == k and np.allclose(b, fit, rtol=0, atol=0.06 * peak) and not np.array_equal(b, img) for a, b in lines(ax)),
            "the fitted profile is not drawn",
        )
    rec.nontrivial(nx != ny)
    rec.label("printed" if case["print"] else "silent", "noise" if case["noise"] else "clean")
    plt.close("all")


# -- segmentation, catalogues, photometry, targets and apertures -------------------------


@st.composite
def scene_cases(draw):
    nx, ny = draw(st.integers(30, 44)), draw(st.integers(30, 44))
    src = st.fixed_dictionaries({
        "x": rnd(6, nx - 7), "y": rnd(6, ny - 7), "re": rnd(1.5, 4), "amp": rnd(5, 30), "ellip": rnd(0, 0.6), "theta": rnd(0, 3),
    })
    return {
        "size": [nx, ny], "sources": draw(st.lists(src, min_size=1, max_size=3)), "seed": draw(seeds),
        "deblend": draw(st.booleans()), "wrap": draw(st.sampled_from(["array", "ccd", "cutout"])),
        "vmin": draw(st.sampled_from([None, 0, -1.0])), "vmax": draw(st.sampled_from([None, 3, 10.0])),
        "bg_sub": draw(st.booleans()), "mask_background": draw(st.booleans()), "cutout": draw(st.sampled_from([None, 20, 31])),
        "error": draw(st.booleans()), "sigma_type": draw(st.sampled_from(["clip", "bound"])),
        "alpha": draw(st.sampled_from([None, 0.2])), "title": draw(st.sampled_from([None, "x"])),
        "figsize": draw(st.sampled_from([None, [6, 3]])),
        "size_t": draw(st.one_of(st.none(), st.integers(1, 40))), "at": [draw(rnd(-3, nx)), draw(rnd(-3, ny))],
        "int": draw(st.booleans()),
        "gaps": draw(st.booleans()),
        "far": draw(st.one_of(st.none(), rnd(8, 90))),
    }


def make_scene(c):
    nx, ny = c["size"]
    y, x = np.mgrid[:ny, :nx]
    img = noise(c["seed"], (ny, nx)) * 0.1
    for s in c["sources"]:
        dx, dy = x - s["x"], y - s["y"]
        u = dx * np.cos(s["theta"]) + dy * np.sin(s["theta"])
        v = (-dx * np.sin(s["theta"]) + dy * np.cos(s["theta"])) / (1 - s["ellip"])
        img = img + s["amp"] * np.exp(-np.hypot(u, v) / s["re"])
    return img


def check_scene(case, rec):
    from astropy.nddata import CCDData, Cutout2D
    from matplotlib import pyplot as plt

    import petrofit.segmentation as seg
    from petrofit.photometry import plot_apertures, radial_elliptical_annulus, radial_elliptical_aperture, radial_photometry
    from petrofit.utils import plot_target

    data = make_scene(case)
    ny, nx = data.shape
    image = data.copy()
    if case["wrap"] == "ccd":
        image = CCDData(data.copy(), unit="adu")
    elif case["wrap"] == "cutout":
        image = Cutout2D(data.copy(), ((nx - 1) / 2, (ny - 1) / 2), (ny, nx))
    lim = {k: case[k] for k in ("vmin", "vmax") if case[k] is not None}
    kw = dict(threshold=1.0, npixels=5, deblend=case["deblend"])
    fs = {} if case["figsize"] is None else {"figsize": case["figsize"]}
    plain = seg.make_catalog(image, plot=False, **kw)
    need(plt.get_fignums() == [], "make_catalog opened a figure with plot=False")
    drawn = seg.make_catalog(image, plot=True, **kw, **lim, **fs)
    default = seg.make_catalog(image, **kw)
    same(np.asarray(image.data if case["wrap"] != "array" else image), data, "image after make_catalog")
    for other, name in ((drawn, "plot=True"), (default, "default options")):
        same(other[1].data, plain[1].data, "segments with " + name)
        need((other[2] is None) == (plain[2] is None), "deblended segments with " + name)
        if plain[2] is not None:
            same(other[2].data, plain[2].data, "deblended segments with " + name)
        for col in ("label", "area", "xcentroid", "ycentroid", "elongation", "maxval_xindex"):
            same(np.asarray(getattr(other[0], col), float), np.asarray(getattr(plain[0], col), float), "%s with %s" % (col, name))
    plt.close("all")
    cat, segm, deb = drawn
    final = deb if case["deblend"] else segm
    if case["gaps"]:
        # labels need not be consecutive
        from photutils.segmentation import SegmentationImage, SourceCatalog

        final = SegmentationImage(np.where(final.data > 0, 3 * final.data + 2, 0))
        cat = SourceCatalog(data, final)
    lab = np.array(final.data)

    # plot_segments, plot_segment_residual
    fig, ax = plt.subplots()
    pkw = {k: case[k] for k in ("alpha", "title") if case[k] is not None}
    seg.plot_segments(final, image=data, **lim, **pkw)
    same(final.data, lab, "segments after plot_segments")
    shown = [np.asarray(im.get_array(), float) for im in ax.images]
    need(any(np.array_equal(s, data) for s in shown), "plot_segments does not show the image")
    need(any(np.array_equal(s, lab) for s in shown), "plot_segments does not show the segments")
    if case["title"]:
        need(ax.get_title() == case["title"], "title %r", ax.get_title())
    fig, ax = plt.subplots()
    seg.plot_segments(final)
    need(any(np.array_equal(np.asarray(im.get_array(), float), lab) for im in ax.images), "plot_segments does not show the segments")
    fig, ax = plt.subplots()
    img = np.round(data * 10).astype(int) if case["int"] else data
    frozen = Frozen(image=img)
    seg.plot_segment_residual(final, img, **lim)
    frozen.check("plot_segment_residual")
    same(final.data, lab, "segments after plot_segment_residual")
    want = np.where(lab != 0, 0, img)
    need(any(np.array_equal(np.asarray(im.get_array(), float), want) for im in ax.images), "plot_segment_residual does not show the image without the segments")
    plt.close("all")

    # source photometry
    source = cat[0]
    r = [1.0, 2.5, 4.0, 6.0] + [case["far"]] * (case["far"] is not None and case["cutout"] is None)
    err = np.abs(noise(case["seed"] + 1, data.shape)) if case["error"] else None
    pk = dict(error=err, cutout_size=case["cutout"], bg_sub=case["bg_sub"], mask_background=case["mask_background"], sigma=3.0, sigma_type=case["sigma_type"])
    a = seg.source_photometry(source, image, final, r, plot=False, **pk)
    need(plt.get_fignums() == [], "source_photometry opened a figure with plot=False")
    b = seg.source_photometry(source, image, final, r, plot=True, **pk, **lim, **fs)
    for x, y, name in zip(a, b, ("flux", "area", "error")):
        same(y, x, "%s with plot=True" % name)
    same(np.asarray(image.data if case["wrap"] != "array" else image), data, "image after source_photometry")
    same(final.data, lab, "segments after source_photometry")
    flux_shown = any(has_line(ax, np.array(r), b[0]) for n in plt.get_fignums() for ax in plt.figure(n).axes)
    need(flux_shown, "no line holds the curve of growth of source_photometry")
    if not case["bg_sub"]:
        # the row and the column of the masked image through the brightest pixel
        sx, sy = (int(v) for v in seg.get_source_position(source))
        n = case["cutout"] or int(np.ceil(max(r) * 3))
        n += n % 2
        use = (lab == int(source.label)) | ((lab == 0) & (not case["mask_background"]))
        wide = np.pad(np.where(use, data, np.nan), n, constant_values=np.nan)
        row = wide[sy + n, sx + n // 2 : sx + n // 2 + n]
        column = wide[sy + n // 2 : sy + n // 2 + n, sx + n]
        for what, arr in (("row", row), ("column", column)):
            need(
                any(has_line(ax, np.arange(n), arr) for k in plt.get_fignums() for ax in plt.figure(k).axes),
                "no line holds the %s of pixels through the source", what,
            )
    plt.close("all")

    # radial photometry
    r = r[:4] + [case["far"]] * (case["far"] is not None)
    fig, ax = plt.subplots()
    x, y = nx / 2, ny / 2
    mask = data < 5
    frozen = Frozen(image=data, mask=mask)
    a = radial_photometry(data, (x, y), r, mask=mask, elong=1.5, theta=0.3)
    need(len(ax.patches) == 0 and len(ax.images) == 0, "radial_photometry draws with plot=False")
    b = radial_photometry(data, (x, y), r, mask=mask, elong=1.5, theta=0.3, plot=True, **lim)
    frozen.check("radial_photometry")
    for u, v, name in zip(a, b, ("flux", "area", "error")):
        same(v, u, "%s with plot=True" % name)
    need(len(ax.patches) == len(r), "%d apertures drawn, expected %d", len(ax.patches), len(r))
    need(any(np.array_equal(np.asarray(im.get_array(), float), data) for im in ax.images), "radial_photometry does not show the image")
    plt.close("all")

    # targets and apertures
    fig, ax = plt.subplots()
    tx, ty = case["at"]
    tk = {} if case["size_t"] is None else {"size": case["size_t"]}
    frozen = Frozen(image=data)
    plot_target(data, (tx, ty), **tk, **lim)
    frozen.check("plot_target")
    half = (case["size_t"] or max(nx, ny)) / 2
    close(sorted(ax.get_xlim()), [tx - half, tx + half], 1e-9, 1e-9, "x limits of plot_target")
    close(sorted(ax.get_ylim()), [ty - half, ty + half], 1e-9, 1e-9, "y limits of plot_target")
    need(any(a.shape == (1,) and a[0] == tx and b[0] == ty for a, b in lines(ax)), "plot_target does not mark the target")
    need(any(np.array_equal(np.asarray(im.get_array(), float), data) for im in ax.images), "plot_target does not show the image")
    for img in (None, data):
        fig, ax = plt.subplots()
        aps = [radial_elliptical_aperture((tx, ty), v, 1.4, 0.2) for v in r] + [radial_elliptical_annulus((tx, ty), 2, 3)]
        plot_apertures(img, aps, **lim)
        need(len(ax.patches) >= len(aps), "%d of %d apertures drawn", len(ax.patches), len(aps))
        need(len(ax.images) == (img is not None), "plot_apertures shows %d images", len(ax.images))
        same([float(v.a) for v in aps[:-1]], r, "apertures after plot_apertures")
    fig, ax = plt.subplots()
    plot_apertures(data)
    plot_apertures()
    need(len(ax.patches) == 0, "plot_apertures draws apertures of an earlier call")
    frozen.check("plot_apertures")
    plt.close("all")
    rec.nontrivial(final.nlabels > 1 or case["bg_sub"])
    rec.label("%d sources" % final.nlabels, case["wrap"], "bg_sub" if case["bg_sub"] else "no bg_sub")


# -- printed parameters --------------------------------------------------------------


@st.composite
def print_cases(draw):
    from pbt.imgmodels import model_specs

    spec = draw(model_specs())
    spec["kind"] = draw(st.sampled_from(["plane", "poly", "sersic", "gauss", "compound"]))
    return {"model": spec, "psf": draw(st.booleans()), "change": draw(st.lists(st.tuples(st.integers(0, 20), rnd(-300, 300)), max_size=3))}


def check_print(case, rec):
    import contextlib
    import io

    from petrofit.modeling.fitting import print_model_params
    from petrofit.modeling.models import PSFConvolvedModel2D
    from pbt.imgmodels import build

    model = build(case["model"])[0]
    if case["psf"]:
        model = PSFConvolvedModel2D(model, psf=np.ones((3, 3)) / 9)
    for i, v in case["change"]:
        setattr(model, model.param_names[i % len(model.param_names)], v)
    before = {k: float(np.asarray(getattr(model, k).value).reshape(-1)[0]) for k in model.param_names}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_model_params(model)
    rows = [line.split() for line in out.getvalue().splitlines() if line.strip()]
    need([row[-1] for row in rows] == list(before), "parameters printed: %s, of the model: %s", [row[-1] for row in rows], list(before))
    for row in rows:
        need(abs(float(row[0]) - before[row[-1]]) <= 5.1e-5, "%s is %r, printed %s", row[-1], before[row[-1]], row[0])
    after = {k: float(np.asarray(getattr(model, k).value).reshape(-1)[0]) for k in model.param_names}
    need(after == before, "printing changed the parameters")
    rec.nontrivial(bool(case["change"]))
    rec.label("psf" if case["psf"] else case["model"]["kind"])


SUBS = [
    Sub("print", print_cases, check_print, 200, 3000, "changed parameters"),
    Sub("petrosian", profile_cases, check_profile, 700, 9000, "an option other than the defaults, or an aperture drawn"),
    Sub("correction", correction_cases, check_correction, 150, 2000, "all cases"),
    Sub("fit", fit_cases, check_fit, 250, 3000, "non-square image"),
    Sub("fwhm", fwhm_cases, check_fwhm, 100, 1500, "non-square image"),
    Sub("scene", scene_cases, check_scene, 120, 1600, "several sources or background subtraction"),
]
