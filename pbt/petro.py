"""Reference model of the Petrosian measurements, written independently.

Positions on the sampled curves are returned as *sets* of acceptable radii, so
that rounding in the last digit (ties, values equal to the target) never decides.
"""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import interp1d

from .core import Violation
from .util import fl, seeds

KINDS = [
    "cubic",
    "linear",
    "quadratic",
    "nearest",
    "nearest-up",
    "zero",
    "slinear",
    "previous",
    "next",
    None,
    1,
    2,
    3,
]
NAN = float("nan")


def min_points(kind):
    if kind in ("cubic", 3, None):
        return 4
    return 3


def samples(x, y, kind, num):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if kind is None:
        return x, y
    grid = np.linspace(x.min(), x.max(), max(num, len(x)))
    return grid, interp1d(x, y, kind=kind)(grid)


def first_reach(x, y, value, falling, slack):
    """Acceptable radii for 'the curve first falls (grows) to value'."""
    found = []
    for v in (value - slack, value, value + slack):
        hit = np.flatnonzero(y <= v if falling else y >= v)
        if len(hit) == 0:
            found.append([NAN])
            continue
        upto = np.abs(y[: hit[0] + 1] - value)
        found.append(x[np.flatnonzero(upto <= np.nanmin(upto) + 2 * slack)])
    return np.unique(np.concatenate(found))


def accept(got, options, what):
    got = float(got)
    if options is None:
        return
    opts = np.atleast_1d(np.asarray(options, dtype=float))
    if got != got:
        ok = np.any(np.isnan(opts))
    else:
        fin = opts[~np.isnan(opts)]
        tol = 1e-9 * max(1e-300, np.max(np.abs(fin), initial=0.0))
        ok = np.any(np.abs(fin - got) <= tol)
    if not ok:
        raise Violation("%s: got %r, expected %s" % (what, got, opts[:6].tolist()))


def half_differences(up, low):
    if len(up) * len(low) > 10**6:
        return None  # plateaus: too ambiguous to compare
    return np.abs(up[:, None] - low[None, :]).reshape(-1) / 2


def petro_radius(r, profile, eta, kind, num):
    r, profile = np.array(r, float), np.array(profile, float)
    r[0], profile[0] = 0.0, 1.0
    x, y = samples(r, profile, kind, num)
    slack = 1e-11 * max(1.0, float(np.nanmax(np.abs(y))) if np.any(y == y) else 1.0)
    if kind is None:
        slack = 0.0  # the given values themselves: no rounding
    return first_reach(x, y, eta, True, slack)


def petro_radius_err(r, profile, err, eta, kind, num):
    err = np.array(err, float)
    err[0] = 0
    up = petro_radius(r, np.array(profile, float) + err, eta, kind, num)
    low = petro_radius(r, np.array(profile, float) - err, eta, kind, num)
    return half_differences(up, low)


def growth(r, flux, kind):
    return interp1d(r, flux, kind="cubic" if kind is None else kind, bounds_error=False)


def fraction_radius(fraction, r, flux, r_p, eps, eps_frac, kind, num):
    r, flux = np.asarray(r, float), np.asarray(flux, float)
    r_eps = r_p * eps
    if not (r.min() <= r_eps <= r.max()):
        return np.array([NAN])
    target = float(growth(r, flux, kind)(r_eps)) * fraction / eps_frac
    x, y = samples(r, flux, kind, num)
    slack = 1e-11 * max(abs(target), float(np.max(np.abs(y))))
    return first_reach(x, y, target, False, slack)


def fraction_radius_err(fraction, r, flux, err, r_p, r_p_err, eps, eps_frac, kind, num):
    """None = ambiguous (not compared)."""
    r, flux, err = np.asarray(r, float), np.asarray(flux, float), np.asarray(err, float)
    r_p_err = 0.0 if r_p_err is None or r_p_err != r_p_err else r_p_err
    r_eps = r_p * eps
    target = float(growth(r, flux, kind)(r_eps)) * fraction / eps_frac
    for e in (r_eps - r_p_err, r_eps + r_p_err):
        for edge in (r.min(), r.max()):
            if r_p_err and abs(e - edge) <= 1e-9 * r.max():
                return None
    low = growth(r, flux - err, kind)(r_eps - r_p_err)
    upp = growth(r, flux + err, kind)(r_eps + r_p_err)
    half = float(upp - low) / 2
    if half != half:
        return np.array([NAN])
    x, y = samples(r, flux - err, kind, num)
    slack = 1e-10 * max(abs(target) + abs(half), float(np.max(np.abs(flux) + err)))
    r_up = first_reach(x, y, target + half, False, slack)
    x, y = samples(r, flux + err, kind, num)
    r_low = first_reach(x, y, target - half, False, slack)
    return half_differences(r_up, r_low)


# -- strategies ---------------------------------------------------------------

nums = st.one_of(
    st.sampled_from([5000, 1000, 100, 2, 3]), st.integers(2, 400), st.integers(400, 5000)
)


@st.composite
def radii(draw, lo=3, hi=16):
    """Strictly increasing radii; the first one is positive."""
    n = draw(st.integers(lo, hi))
    if draw(st.booleans()):
        r0 = draw(st.integers(1, 5))
        return list(np.cumsum([r0] + draw(st.lists(st.integers(1, 8), min_size=n - 1, max_size=n - 1))).astype(float))
    r0 = draw(fl(0.2, 5))
    steps = draw(st.lists(fl(0.2, 9), min_size=n - 1, max_size=n - 1))
    return [float(v) for v in np.cumsum([r0] + steps)]


@st.composite
def long_radii(draw, lo=17, hi=400):
    """Many apertures, evenly, logarithmically or irregularly spaced."""
    n = draw(st.integers(lo, hi))
    how = draw(st.sampled_from(["even", "log", "any"]))
    if how == "even":
        return [float(v) for v in draw(st.sampled_from([1.0, 0.5, 3.0])) * np.arange(1, n + 1)]
    if how == "log":
        return [float(v) for v in np.geomspace(draw(fl(0.2, 2)), draw(fl(50, 2000)), n)]
    rng = np.random.RandomState(draw(seeds) % 2**31)
    return [float(v) for v in np.cumsum(rng.uniform(0.2, 5, n))]


long_nums = st.one_of(st.sampled_from([5000, 5000, 2, 100]), st.integers(17, 5000), st.integers(5001, 60000))


@st.composite
def growth_curves(draw, n, noisy=None):
    """Curves of growth: mostly rising and saturating, some with dips."""
    shape = draw(st.sampled_from(["saturating", "steps", "flat_tail", "dips"]))
    if noisy is False and shape == "dips":
        shape = "saturating"
    f0 = draw(fl(0.5, 50))
    if shape == "saturating":
        q = draw(fl(0.3, 0.95))
        first = draw(fl(1, 60))
        flux = f0 + np.concatenate([[0], np.cumsum(first * q ** np.arange(n - 1))])
    elif shape == "dips":
        flux = np.cumsum([f0] + draw(st.lists(fl(-6, 30), min_size=n - 1, max_size=n - 1)))
        flux = np.maximum(flux, 0.1 + 0.01 * np.arange(n))
    else:
        steps = draw(st.lists(fl(0.01, 30), min_size=n - 1, max_size=n - 1))
        if shape == "flat_tail":
            k = draw(st.integers(1, n - 1))
            steps = [s if i < k else 0.0 for i, s in enumerate(steps)]
        flux = np.cumsum([f0] + steps)
    return [float(v) for v in flux]
