"""C19: generated correction grids."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import petro, psfref
from pbt import sersic as S
from pbt.core import Sub
from pbt.util import close, need, rnd, same, seeds

ASSUMPTIONS = [
    "photutils' exact circular apertures are trusted for the reference curve of growth.",
    "Measured radii are compared to within one sample of the default interpolation (5000 samples) and rounding.",
    "PSF arrays are normalised to 1.",
]

COLUMNS = (
    "n r_eff sersic_r_20 sersic_r_80 sersic_r_99 sersic_L_inf p02 p03 p04 p05 p0502 p0302 "
    "u_epsilon u_epsilon_50 u_epsilon_80 u_r_50 u_r_99 u_r_20 u_r_80 u_c2080 u_c5090 "
    "c_epsilon c_epsilon_50 c_epsilon_80 c_r_50 c_r_99 c_r_20 c_r_80 c_c2080 c_c5090"
).split()

small_re = st.one_of(rnd(2, 6, 1), st.integers(2, 8), rnd(2, 10, 3))
indices = st.one_of(rnd(1, 3, 2), st.sampled_from([2.0, 2.3, 2.7, 3.0, 3.5, 4.0]), st.sampled_from([1, 2, 4, 1.5, 2.5]), rnd(1.0, 2.2, 6))


@st.composite
def galaxies(draw):
    """(n, r_eff) which keep the simulated image small."""
    low = draw(st.integers(0, 5)) == 0
    if low:
        return [draw(rnd(0.5, 0.99, 2)), draw(st.one_of(st.integers(7, 14), rnd(7, 12, 1)))]
    n = draw(indices)
    return [n, draw(small_re)]


@st.composite
def optics(draw):
    kind = draw(st.sampled_from(["plain", "plain", "default", "int", "window", "window", "psf", "psf_int", "psf_over", "psf_window"]))
    c = {"kind": kind, "seed": draw(seeds), "shape": draw(st.sampled_from([[3, 3], [5, 5], [3, 5], [7, 7]]))}
    c["factor"] = draw(st.integers(2, 6))
    c["size"] = draw(st.integers(4, 24))
    c["p"] = draw(st.sampled_from([1, 2, 2, 3]))
    return c


def settings(c):
    """(keyword arguments, factor, p, window size, psf)"""
    kind = c["kind"]
    kw, fac, p, win, psf = {"oversample": None}, 1, 1, None, None
    if kind == "default":
        # the documented default: the central 10 pixels, 50-fold
        kw, fac, win = {}, 50, 10
    if kind.startswith("psf"):
        psf = np.random.RandomState(c["seed"]).random_sample(c["shape"]) ** 3
        psf[psf.shape[0] // 2, psf.shape[1] // 2] += 1.0
        psf = psf / psf.sum()
        kw["psf"] = psf
    if kind in ("int", "psf_int"):
        fac = c["factor"]
        kw["oversample"] = fac
    elif kind in ("window", "psf_window"):
        fac, win = c["factor"], c["size"]
        kw["oversample"] = ("x_0", "y_0", win, fac)
    elif kind == "psf_over":
        p = c["p"]
        fac = p * (1 + c["factor"] % 2)
        kw.update(oversample=fac, psf_oversample=p)
    return kw, fac, p, win, psf


def radii(re, n):
    r99 = S.radius(0.99, re, n)
    max_r = r99 * 3 if n < 2 else r99 * 1.3
    if re < 7 and n < 1:
        max_r = r99 * 50
    if max_r >= 200:
        r = list(range(1, 201, 2)) + list(range(300, int(max_r) + 100, 100))
    else:
        r = list(range(1, int(max_r) + 2, 2))
    return np.array(r, float)


def curve(n, re, c):
    """Radii, areas and fluxes of the simulated galaxy."""
    from photutils.aperture import CircularAperture

    kw, fac, p, win, psf = settings(c)
    amp = 100 / np.exp(S.b_n(n))
    r = radii(re, n)
    size = int(2 * r.max())
    x0 = size // 2
    f = lambda x, y: S.intensity(np.hypot(x - x0, y - x0), amp, re, n)
    if win is None:
        img = psfref.sampled(f, 0, 0, size, size, fac, p)
    else:
        img = psfref.sampled(f, 0, 0, size, size, p, p)
        lo, hi = max(0, x0 - win // 2), min(size, x0 - win // 2 + win)
        img[lo * p : hi * p, lo * p : hi * p] = psfref.sampled(f, lo, lo, hi - lo, hi - lo, fac, p)
    if psf is not None:
        img = psfref.convolved(img, psf)
    img = psfref.reduced(img, p)
    flux, area = [], []
    for x in r:
        ap = CircularAperture((x0, x0), x)
        flux.append(float(ap.do_photometry(img)[0][0]))
        area.append(float(ap.do_photometry(np.ones_like(img))[0][0]))
    return r, np.array(area), np.array(flux), amp


def mid(opts):
    return float(np.asarray(opts).reshape(-1)[0])


def expected(n, re, c):
    """{column: (value, absolute tolerance)}"""
    r, area, flux, amp = curve(n, re, c)
    step = 1.001 * (r.max() / 4999) + 1e-9
    L = S.total(amp, re, n)
    f99 = 0.99 * L
    prof = np.append(np.nan, np.diff(flux) / np.diff(area) / (flux[1:] / area[1:]))
    out = {"n": (n, 0.0), "r_eff": (re, 0.0), "sersic_L_inf": (L, 1e-9 * L)}
    for k, q in (("20", 0.2), ("80", 0.8), ("99", 1.0)):
        v = S.radius(0.99 * q, re, n)
        out["sersic_r_" + k] = (v, 1e-7 * v)
    pr = {}
    for k in ("02", "03", "04", "05"):
        pr[k] = mid(petro.petro_radius(r, prof, int(k[1]) / 10, "cubic", 5000))
        out["p" + k] = (pr[k], step)
    log_tol = lambda a, b: 5 / np.log(10) * step * 1.01 * (1 / a + 1 / b)
    out["p0502"] = (5 * np.log10(pr["02"] / pr["05"]), log_tol(pr["02"], pr["05"]))
    out["p0302"] = (5 * np.log10(pr["02"] / pr["03"]), log_tol(pr["02"], pr["03"]))
    rp = pr["02"]
    # true 99% radius, by linear interpolation of the curve of growth
    keep = np.append(True, np.diff(flux) > 0)
    line = lambda v: float(np.interp(v, flux[keep], r[keep]))
    true99, true80 = line(f99), line(0.8 * f99)
    ratio = lambda a, b, ta=step: (a / b, (ta + a / b * step) / b * 1.01)
    out["u_epsilon"] = (2.0, 0.0)
    out["c_epsilon"] = ratio(true99, rp, 1e-6 * true99)
    out["c_epsilon_80"] = ratio(true80, rp, 1e-6 * true80)
    grow = petro.growth(r, flux, "cubic")
    for pre, eps, wob in (("u_", 2.0, 2 * step), ("c_", true99 / rp, 2e-6 * true99 + step * true99 / rp)):
        rr, tt = {}, {}
        slope_at = max(1e-12, float(grow(min(rp * eps + wob, r.max())) - grow(max(rp * eps - wob, 1.0))))
        for k, q in (("20", 0.2), ("50", 0.5), ("80", 0.8), ("90", 0.9), ("99", 0.99)):
            opts = petro.fraction_radius(q, r, flux, rp, eps, 0.99, "cubic", 5000)
            rr[k] = mid(opts)
            # how far the radius moves when r_petrosian moves by one sample
            lo = mid(petro.first_reach(*petro.samples(r, flux, "cubic", 5000), q / 0.99 * float(grow(rp * eps)) - slope_at, False, 0))
            hi = mid(petro.first_reach(*petro.samples(r, flux, "cubic", 5000), q / 0.99 * float(grow(rp * eps)) + slope_at, False, 0))
            moves = [abs(v - rr[k]) for v in (lo, hi) if v == v]
            tt[k] = 2 * step + max(moves, default=np.inf) if len(moves) == 2 else 2 * step + (max(moves, default=0) * 3 + wob * 3)
        for k in ("20", "50", "80", "99"):
            out["%sr_%s" % (pre, k)] = (rr[k], tt[k])
        lg = lambda a, b: (5 * np.log10(rr[b] / rr[a]), 2.2 * (tt[a] / rr[a] + tt[b] / rr[b]))
        out[pre + "c2080"] = lg("20", "80")
        out[pre + "c5090"] = lg("50", "90")
        out[pre + "epsilon_50"] = ratio(rr["50"], rp, tt["50"])
        if pre == "u_":
            out[pre + "epsilon_80"] = ratio(rr["80"], rp, tt["80"])
    return out, (r, flux, L)


def generate(ns, res, c, name=None, **kw):
    from petrofit import generate_petrosian_sersic_correction

    base = settings(c)[0]
    base.update(kw)
    before = None if "psf" not in base else base["psf"].copy()
    out = generate_petrosian_sersic_correction(name, r_eff_list=res, n_list=ns, **base)
    if before is not None:
        same(base["psf"], before, "PSF after generating")
    return out


def usable(r, flux, L):
    """The flux levels of the columns lie on the simulated curve of growth."""
    f99 = 0.99 * L
    return flux[0] < 0.79 * f99 and flux.max() > f99 * 1.0005


@st.composite
def row_cases(draw):
    return {"gal": draw(galaxies()), "optics": draw(optics())}


def check_row(case, rec):
    n, re = case["gal"]
    r, area, flux, _ = curve(round(n, 6), float(re), case["optics"])
    if not usable(r, flux, S.total(100 / np.exp(S.b_n(n)), re, n)):
        rec.label("undersampled")
        return
    grid = generate([n], [re], case["optics"])
    need(list(grid.colnames) == COLUMNS, "columns %s", grid.colnames)
    need(len(grid) == 1, "%d rows", len(grid))
    n = round(n, 6)
    want, (r, flux, L) = expected(n, float(re), case["optics"])
    rec.label(case["optics"]["kind"], "n<1" if n < 1 else "n<2" if n < 2 else "n>=2")
    for col in COLUMNS:
        value, tol = want.get(col, (None, None))
        if value is None:
            continue
        got = float(grid[col][0])
        if value != value:
            need(got != got, "column %s is %r, expected NaN (n=%s, r_eff=%s)", col, got, n, re)
        else:
            need(
                abs(got - value) <= tol + 1e-9 * abs(value),
                "column %s is %r, expected %r +- %.2g (n=%s, r_eff=%s)", col, got, value, tol, n, re,
            )
    row = grid[0]
    # relations which hold within the row, without any sampling tolerance
    p02 = row["p02"]
    close(row["u_epsilon_50"] * p02, row["u_r_50"], 1e-9, what="u_epsilon_50")
    close(row["u_epsilon_80"] * p02, row["u_r_80"], 1e-9, what="u_epsilon_80")
    close(row["c_epsilon_50"] * p02, row["c_r_50"], 1e-9, what="c_epsilon_50")
    close(row["u_c2080"], 5 * np.log10(row["u_r_80"] / row["u_r_20"]), 1e-9, 1e-9, "u_c2080")
    close(row["c_c2080"], 5 * np.log10(row["c_r_80"] / row["c_r_20"]), 1e-9, 1e-9, "c_c2080")
    close(row["p0502"], 5 * np.log10(p02 / row["p05"]), 1e-9, 1e-9, "p0502")
    close(row["p0302"], 5 * np.log10(p02 / row["p03"]), 1e-9, 1e-9, "p0302")
    rec.nontrivial(case["optics"]["kind"] != "plain")
    if not case["optics"]["kind"].startswith("psf"):
        # analytically: the radius encloses 99% of the flux, up to the pixel
        # sampling of the image and the interpolation between two radii
        rad = float(row["c_epsilon"] * p02)
        exact = S.enclosed(r, 100 / np.exp(S.b_n(n)), re, n)
        k = int(np.clip(np.searchsorted(r, rad), 1, len(r) - 1))
        fine = np.linspace(r[k - 1], r[k], 50)
        bend = S.enclosed(fine, 100 / np.exp(S.b_n(n)), re, n) - np.interp(fine, r, exact)
        tol = np.abs(bend).max() + np.abs(flux - exact)[max(0, k - 2) : k + 2].max()
        if tol < 0.01 * L:
            rec.label("true 99% radius")
            got = float(S.enclosed(rad, 100 / np.exp(S.b_n(n)), re, n))
            need(abs(got - 0.99 * L) <= 1.01 * tol + 1e-9 * L, "c_epsilon * p02 = %r encloses %r of the flux", rad, got / L)


@st.composite
def grid_cases(draw):
    gs = [draw(galaxies()) for _ in range(draw(st.integers(1, 3)))]
    ns = [g[0] for g in gs]
    res = [g[1] for g in gs]
    if min(ns) < 1:
        res = [max(v, 7) for v in res]
        ns = [min(v, 2.0) for v in ns]
    k = draw(st.integers(1, 3))
    return {
        "ns": ns[:k],
        "res": res,
        "as": draw(st.sampled_from(["list", "array", "tuple"])),
        "optics": draw(optics()),
        "pick": draw(st.integers(0, 20)),
        "cpu": draw(st.sampled_from([None, None, 1, 1, 1, 2])),
        "file": draw(st.sampled_from(["csv", "ecsv", "csv-explicit", "none", "none", "exists", "overwrite", "nodir"])),
    }


def check_grid(case, rec):
    from astropy.table import Table

    from petrofit import PetrosianCorrection

    wrap = {"list": list, "array": np.array, "tuple": tuple}[case["as"]]
    ns, res = wrap(case["ns"]), wrap(case["res"])
    kw = {"n_cpu": case["cpu"]}
    tmp = tempfile.mkdtemp(prefix="c19-")
    try:
        how = case["file"]
        name = os.path.join(tmp, "grid." + ("ecsv" if how == "ecsv" else "csv"))
        if how == "csv-explicit":
            name = os.path.join(tmp, "grid.dat")
            kw["out_format"] = "ascii.csv"
        if how in ("exists", "overwrite"):
            with open(name, "w") as f:
                f.write("old\n1\n")
            if how == "overwrite":
                kw["overwrite"] = True
            elif case["pick"] % 2:
                kw["overwrite"] = False
        if how == "nodir":
            name = os.path.join(tmp, "missing", "grid.csv")
        if how == "none":
            name = None
        for n in case["ns"]:
            for re in case["res"]:
                r, area, flux, amp = curve(round(n, 6), float(re), case["optics"])
                if not usable(r, flux, S.total(amp, re, n)):
                    rec.label("undersampled")
                    return
        grid = generate(ns, res, case["optics"], name, **kw)
        need(isinstance(grid, Table), "returned %s", type(grid))
        want = [(round(float(n), 6), float(re)) for n in case["ns"] for re in case["res"]]
        got = [(float(n), float(re)) for n, re in zip(grid["n"], grid["r_eff"])]
        need(got == want, "rows are %s, expected %s", got, want)
        need(list(grid.colnames) == COLUMNS, "columns %s", grid.colnames)
        rec.nontrivial(len(want) > 1)
        rec.label(how, "cpu=%s" % case["cpu"], "%d rows" % len(want))
        k = case["pick"] % len(want)
        alone = generate([want[k][0]], [want[k][1]], case["optics"])
        for col in COLUMNS:
            close(float(grid[col][k]), float(alone[col][0]), 1e-10, what="%s of row %d against the row alone" % (col, k))
        # equal pairs have equal rows
        for i, w in enumerate(want):
            j = want.index(w)
            if j != i:
                for col in COLUMNS:
                    same(grid[col][i], grid[col][j], "%s of a repeated pair" % col)
        if how in ("csv", "ecsv", "overwrite"):
            back = PetrosianCorrection.read(name).grid
        elif how == "csv-explicit":
            back = PetrosianCorrection.read(name, file_format="ascii.csv").grid
        else:
            back = None
        if back is not None:
            need(list(back.colnames) == COLUMNS, "columns of the file %s", back.colnames)
            for col in COLUMNS:
                close(np.array(back[col], float), np.array(grid[col], float), 1e-14, what="%s in the file" % col)
        if how == "exists":
            need(open(name).read() == "old\n1\n", "a file was overwritten without overwrite=True")
        left = sorted(os.listdir(tmp))
        need(left == ([] if name is None or how == "nodir" else [os.path.basename(name)]), "files %s", left)
    finally:
        shutil.rmtree(tmp)


@st.composite
def many_cases(draw):
    k = draw(st.integers(20, 30))
    return {
        "n0": draw(rnd(1, 1.2, 3)), "dn": draw(st.sampled_from([0.01, 0.02])), "k": k,
        "r0": draw(rnd(2, 3, 2)), "dr": draw(st.sampled_from([0.05, 0.1])), "m": 500 // k + draw(st.integers(1, 3)),
        "cpu": draw(st.sampled_from([2, 2, 3, 1])), "pick": draw(st.lists(st.integers(0, 10**6), min_size=2, max_size=2)),
    }


def check_many(case, rec):
    """Hundreds of pairs: every one has its row, in order."""
    ns = [round(case["n0"] + i * case["dn"], 6) for i in range(case["k"])]
    res = [round(case["r0"] + i * case["dr"], 6) for i in range(case["m"])]
    optics = {"kind": "plain"}
    grid = generate(ns, res, optics, n_cpu=case["cpu"])
    want = [(n, re) for n in ns for re in res]
    got = [(float(n), float(re)) for n, re in zip(grid["n"], grid["r_eff"])]
    need(got == want, "%d rows, expected %d; the first differing is %s", len(got), len(want),
         [(i, a, b) for i, (a, b) in enumerate(zip(got, want)) if a != b][:1])
    for k in (0, len(want) - 1, *(p % len(want) for p in case["pick"])):
        alone = generate([want[k][0]], [want[k][1]], optics)
        for col in COLUMNS:
            close(float(grid[col][k]), float(alone[col][0]), 1e-10, what="%s of row %d against the row alone" % (col, k))
    rec.nontrivial(case["cpu"] > 1)
    rec.label("cpu=%s" % case["cpu"], "> 500 rows" if len(want) > 500 else "500 rows")


SUBS = [
    Sub("many", many_cases, check_many, 1, 24, "several processes"),
    Sub("row", row_cases, check_row, 250, 4000, "an oversampling or PSF setting"),
    Sub("grid", grid_cases, check_grid, 120, 2000, "more than one row"),
]
