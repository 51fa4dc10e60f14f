"""C01: the Petrosian profile is the ratio of annulus to mean brightness."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.util import close, containers, fl, need, raises, rnd, wrap, Frozen, same, seeds

ASSUMPTIONS = [
    "Apertures of equal area are given equal flux (what nested apertures measure).",
]


@st.composite
def curves(draw, ints=None):
    n = draw(st.integers(3, 14))
    ints = draw(st.booleans()) if ints is None else ints
    step = st.integers(1, 40) if ints else fl(0.05, 60)
    dflux = st.integers(-30, 90) if ints else fl(-40, 90)
    area = [draw(st.integers(1, 20) if ints else fl(0.1, 20))]
    flux = [draw(st.integers(1, 90) if ints else fl(0.5, 90))]
    repeats = draw(st.sampled_from(["none", "tail", "mixed"]))
    flat = draw(st.integers(0, 2)) == 0
    last_new = draw(st.integers(1, n - 1)) if repeats == "tail" else n
    for i in range(1, n):
        again = (repeats == "tail" and i > last_new) or (
            repeats == "mixed" and draw(st.integers(0, 2)) == 0
        )
        if again:
            area.append(area[-1])
            flux.append(flux[-1])
        else:
            area.append(area[-1] + draw(step))
            # (a third of the curves has a flat part)
            f = flux[-1] if flat and draw(st.integers(0, 2)) == 0 else flux[-1] + draw(dflux)
            if abs(f) < 1e-3:
                f = f + 1
            flux.append(f)
    return {"area": area, "flux": flux, "ints": ints}


def errs(n, ints):
    e = st.integers(0, 9) if ints else fl(0, 9)
    return st.one_of(st.none(), st.lists(e, min_size=n, max_size=n))


@st.composite
def long_cases(draw):
    """As measured: up to hundreds of apertures, the last ones beyond the image."""
    c = draw(cases())
    n = draw(st.one_of(st.integers(15, 120), st.integers(120, 900)))
    rng = np.random.RandomState(draw(seeds) % 2**31)
    step = rng.uniform(0.05, 60, n)
    step[rng.rand(n) < draw(st.sampled_from([0.0, 0.1, 0.6]))] = 0
    if draw(st.booleans()):
        step[draw(st.integers(2, n - 1)):] = 0
    step[0] = rng.uniform(0.1, 20)
    gain = np.where(step > 0, rng.uniform(-4, 90, n), 0.0)
    gain[0] = rng.uniform(0.5, 90)
    if c["ints"]:
        step, gain = np.ceil(step), np.round(gain)
        gain = np.where(step > 0, gain, 0)
    flux = np.cumsum(gain)
    flux = np.where(np.abs(flux) < 1e-3, 1.0, flux)
    # equal areas hold equal flux
    area = np.cumsum(step)
    first = {}
    flux = np.array([first.setdefault(a, f) for a, f in zip(area.tolist(), flux.tolist())])
    kind = int if c["ints"] else float
    c["area"], c["flux"] = [kind(v) for v in area], [kind(v) for v in flux]
    for k in ("area_err", "flux_err"):
        if c[k] is not None:
            c[k] = [kind(v) for v in (rng.randint(0, 9, n) if c["ints"] else rng.uniform(0, 9, n))]
    return c


UNITS = [1.0, 1.0, 1.0, 1e-3, 1e3, 1e-10, 1e10, 1e-20, 1e20]


@st.composite
def cases(draw):
    c = draw(curves())
    n = len(c["area"])
    c["flux_err"] = draw(errs(n, c["ints"]))
    c["area_err"] = draw(errs(n, c["ints"]))
    if not c["ints"]:
        # any units: square degrees, square metres, erg/s, nJy ...
        au = draw(st.sampled_from(UNITS))
        fu = draw(st.sampled_from(UNITS))
        for k, u in (("area", au), ("area_err", au), ("flux", fu), ("flux_err", fu)):
            if c[k] is not None:
                c[k] = [v * u for v in c[k]]
    kinds = ["array", "list", "tuple", "column", "big_endian", "strided"]
    if c["ints"]:
        kinds = kinds + ["int", "int", "intlist", "f4"]
    for k in ("area", "flux", "flux_err", "area_err"):
        c["as_" + k] = draw(st.sampled_from(kinds))
    return c


def reference(area, flux, area_err=None, flux_err=None):
    n = len(area)
    out = [float("nan")] * n
    err = [float("nan")] * n
    fe = [0.0] * n if flux_err is None else flux_err
    ae = [0.0] * n if area_err is None else area_err
    for i in range(n):
        k = area.index(area[i])
        if k == 0:
            continue
        da, df = area[k] - area[k - 1], flux[k] - flux[k - 1]
        inner = flux[k] / area[k]
        out[i] = (df / da) / inner
        # one term for each of the four measured quantities
        terms = [
            np.hypot(fe[k], fe[k - 1]) / da / inner,
            np.hypot(ae[k], ae[k - 1]) / da * out[i],
            fe[k] / flux[k] * out[i],
            ae[k] / area[k] * out[i],
        ]
        err[i] = float(np.hypot(np.hypot(terms[0], terms[1]), np.hypot(terms[2], terms[3])))
    return np.array(out), np.array(err)


def build(case):
    args = {}
    for k in ("area", "flux", "flux_err", "area_err"):
        v = case[k]
        args[k] = None if v is None else wrap(v, case["as_" + k])
    return args


def check_profile(case, rec):
    from petrofit.petrosian import Petrosian, calculate_petrosian

    a = build(case)
    area = [float(v) for v in case["area"]]
    flux = [float(v) for v in case["flux"]]
    want, want_err = reference(area, flux, case["area_err"], case["flux_err"])
    frozen = Frozen(**{k: v for k, v in a.items() if v is not None})
    got, got_err = calculate_petrosian(
        a["area"], a["flux"], area_err=a["area_err"], flux_err=a["flux_err"]
    )
    frozen.check("calculate_petrosian")
    loose = any(
        case["as_" + k] == "f4" for k in ("area", "flux", "flux_err", "area_err")
    )
    rtol = 2e-5 if loose else 1e-9
    # differences of nearly equal numbers lose digits in any implementation
    atol = 1e-12 * max(1.0, np.nanmax(np.abs(want)))
    close(got, want, rtol, atol, "Petrosian profile")
    distinct = len(set(area))
    rec.nontrivial(distinct >= 3)
    rec.label("repeated_area" if distinct < len(area) else "distinct")
    has_err = case["area_err"] is not None or case["flux_err"] is not None
    if has_err:
        rec.label("errors")
        need(got_err is not None, "no error profile although errors were given")
        got_err = np.asarray(got_err, dtype=float)
        need(got_err.shape == want_err.shape, "error profile has the wrong shape")
        ok = np.isfinite(want_err)
        close(got_err[ok], want_err[ok], max(rtol, 1e-7), 1e-12, "Petrosian error")
        if np.any(want == 0):
            rec.label("flat with errors")
        need(np.isnan(got_err[0]), "first error value is not NaN")
    else:
        need(got_err is None, "an error profile appeared without input errors")

    p = Petrosian(
        np.arange(1, len(area) + 1),
        a["area"],
        a["flux"],
        area_err=a["area_err"],
        flux_err=a["flux_err"],
    )
    same(p.petrosian_list, got, "Petrosian.petrosian_list")
    if has_err:
        same(p.petrosian_err, got_err, "Petrosian.petrosian_err")
    need(p.has_petrosian_err == has_err, "has_petrosian_err is wrong")


@st.composite
def bad_cases(draw):
    c = draw(curves())
    c["bad"] = draw(
        st.sampled_from(
            ["decreasing", "short", "length", "err_length", "area_err_length", "r_length", "two_dim", "err_shape"]
        )
    )
    c["where"] = draw(st.integers(1, len(c["area"]) - 1))
    c["by"] = draw(st.integers(1, 9))
    c["size"] = draw(st.integers(0, 2))
    c["cut"] = draw(st.sampled_from(["flux", "area"]))
    c["unit"] = draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-14, 1e8]))
    return c


def check_rejects(case, rec):
    from petrofit.petrosian import Petrosian, calculate_petrosian

    area, flux = [float(v) for v in case["area"]], [float(v) for v in case["flux"]]
    n = len(area)
    kw = {}
    i = case["where"]
    if case["bad"] == "decreasing":
        for j in range(i, n):
            area[j] = area[j] - (area[i] - area[i - 1]) - 0.01 * case["by"]
        # whatever the unit of the areas
        area = [a * case["unit"] for a in area]
    elif case["bad"] == "short":
        area, flux = area[: case["size"]], flux[: case["size"]]
    elif case["bad"] == "length":
        if case["cut"] == "flux":
            flux = flux[:i] if i >= 3 else flux + [flux[-1]] * case["by"]
        else:
            area = area[:i] if i >= 3 else area + [area[-1]] * case["by"]
    elif case["bad"] == "err_length":
        kw["flux_err"] = np.ones(n - 1) if i % 2 else np.ones(n + case["by"])
    elif case["bad"] == "area_err_length":
        kw["area_err"] = np.ones(n - 1) if i % 2 else np.ones(n + case["by"])
    rec.nontrivial(True)
    rec.label(case["bad"])
    r = np.arange(1.0, len(area) + 1)
    if case["bad"] in ("r_length", "two_dim", "err_shape"):
        # only the object sees the radii and keeps the errors
        area, flux = np.array(area), np.array(flux)
        if case["bad"] == "r_length":
            r = r[: max(3, n - 1)] if i % 2 and n > 3 else np.arange(1.0, n + 1 + case["by"])
        elif case["bad"] == "two_dim":
            r, area, flux = (np.stack([v] * 3, i % 2) for v in (r, area, flux))
        else:
            key = "flux_err" if case["cut"] == "flux" else "area_err"
            kw[key] = [np.ones((n, 1)), np.float64(0.5), np.ones((1, n))][i % 3]
        raises(lambda: Petrosian(r, area, flux, **kw), "Petrosian with bad input (%s)" % case["bad"])
        return
    raises(
        lambda: calculate_petrosian(np.array(area), np.array(flux), **kw),
        "calculate_petrosian with bad input (%s)" % case["bad"],
    )
    raises(
        lambda: Petrosian(r, np.array(area), np.array(flux), **kw),
        "Petrosian with bad input (%s)" % case["bad"],
    )


SUBS = [
    Sub(
        "profile",
        cases,
        check_profile,
        4000,
        60000,
        "non-trivial: at least three distinct areas",
    ),
    Sub("long", long_cases, check_profile, 200, 4000, "non-trivial: at least three distinct areas"),
    Sub("rejects", bad_cases, check_rejects, 800, 8000, "every case breaks one rule"),
]
