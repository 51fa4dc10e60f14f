"""C08: generalised Sersic and Nuker models; default bounds."""
import numpy as np
from hypothesis import strategies as st

from pbt import sersic
from pbt.core import Sub
from pbt.util import Frozen, angles, close, fl, logfl, need, same

ASSUMPTIONS = ["Positions within 1e-6 r_eff of the centre are not compared (steep cusps)."]


@st.composite
def gen_cases(draw):
    return {
        "amp": draw(logfl(1e-3, 1e3)),
        "re": draw(logfl(0.5, 60)),
        "n": draw(fl(0.3, 8)),
        "x0": draw(fl(-50, 50)),
        "y0": draw(fl(-50, 50)),
        "ellip": draw(st.one_of(st.just(0.0), fl(0, 0.9))),
        "theta": draw(angles),
        "c0": draw(st.one_of(st.just(0.0), st.just(0), fl(-1, 2), fl(-1, 2), fl(2, 7), fl(-1.5, -1))),
        "pts": draw(st.lists(st.tuples(st.one_of(fl(0.05, 6), logfl(1e-3, 20)), fl(-np.pi, np.pi)), min_size=1, max_size=6)),
        "form": draw(st.sampled_from(["1d", "2d", "scalar"])),
    }


def check_gen(case, rec):
    from astropy.modeling.models import Sersic2D
    from petrofit.modeling.models import GenSersic2D

    amp, re, n = case["amp"], case["re"], case["n"]
    x0, y0, ell, th, c0 = (case[k] for k in ("x0", "y0", "ellip", "theta", "c0"))
    args = dict(amplitude=amp, r_eff=re, n=n, x_0=x0, y_0=y0, ellip=ell, theta=th)
    m = GenSersic2D(c_0=c0, **args)
    s = np.array([p[0] for p in case["pts"]])
    phi = np.array([p[1] for p in case["pts"]])
    if c0 < -1:
        # away from the axes, where rounding of the other coordinate decides
        phi = np.pi / 4 + 0.15 * phi
    # points of the generalised ellipse with semi-major axis s r_eff
    e = 2.0 / (c0 + 2.0)
    xm = s * re * np.sign(np.cos(phi)) * np.abs(np.cos(phi)) ** e
    ym = s * re * (1 - ell) * np.sign(np.sin(phi)) * np.abs(np.sin(phi)) ** e
    x = x0 + xm * np.cos(th) - ym * np.sin(th)
    y = y0 + xm * np.sin(th) + ym * np.cos(th)
    if case["form"] == "2d":
        x, y = x.reshape(-1, 1), y.reshape(-1, 1)
    elif case["form"] == "scalar":
        x, y, s = float(x[0]), float(y[0]), s[:1]
    frozen = Frozen(x=x, y=y)
    got = m(x, y)
    frozen.check("GenSersic2D")
    want = sersic.intensity(s * re, amp, re, n)
    # conditioning: d ln I / d ln r = b/n (r/re)^(1/n); positions are rounded
    cond = sersic.b_n(n) / n * s ** (1 / n) * (1 + (abs(x0) + abs(y0)) / (s * re * (1 - ell)))
    err = np.abs(np.ravel(got) / want - 1)
    bad = err > 1e-12 * cond * 2 / e / min(1.0, e) ** 2 + 1e-9
    need(np.ravel(got).shape == want.shape, "GenSersic2D output shape")
    need(not np.any(bad), "intensity %r on the isophote, Sersic law gives %r", np.ravel(got)[bad][:1], want[bad][:1])
    if c0 == 0:
        ref = Sersic2D(**args)
        close(got, ref(x, y), 1e-9, 0, "GenSersic2D with c_0=0 against Sersic2D")
        close(GenSersic2D(**args)(x, y), ref(x, y), 1e-9, 0, "GenSersic2D with default c_0 against Sersic2D")
    # point symmetry about the centre
    close(np.ravel(m(2 * x0 - x, 2 * y0 - y)), np.ravel(got), 1e-6, 0, "point symmetry")
    rec.nontrivial(c0 != 0 and ell > 0)
    rec.label("boxy" if c0 > 0 else "disky" if c0 < 0 else "elliptical")


@st.composite
def nuker_cases(draw):
    return {
        "amp": draw(logfl(1e-3, 1e3)),
        "rb": draw(logfl(0.3, 50)),
        "x0": draw(fl(-20, 20)),
        "y0": draw(fl(-20, 20)),
        "alpha": draw(st.one_of(fl(0.3, 8), logfl(0.03, 20))),
        "beta": draw(fl(0.5, 6)),
        "gamma": draw(fl(0, 2)),
        "pts": draw(st.lists(st.tuples(st.one_of(logfl(0.03, 40), logfl(1e-5, 1e3), logfl(1e2, 1e5)), fl(-np.pi, np.pi)), min_size=1, max_size=6)),
        "center": draw(st.booleans()),
        "form": draw(st.sampled_from(["1d", "2d"])),
        "defaults": draw(st.booleans()),
    }


def check_nuker(case, rec):
    from petrofit.modeling.models import Nuker2D

    kw = dict(amplitude=case["amp"], r_break=case["rb"], x_0=case["x0"], y_0=case["y0"])
    a, b, g = case["alpha"], case["beta"], case["gamma"]
    if case["defaults"]:
        a, b, g = 2, 4, 0
    else:
        kw.update(alpha=a, betta=b, gamma=g)
    m = Nuker2D(**kw)
    u = np.array([p[0] for p in case["pts"]] + [1.0])
    phi = np.array([p[1] for p in case["pts"]] + [0.3])
    x = case["x0"] + u * case["rb"] * np.cos(phi)
    y = case["y0"] + u * case["rb"] * np.sin(phi)
    want = case["amp"] * 2 ** ((b - g) / a) * u ** (-g) * (1 + u**a) ** ((g - b) / a)
    if case["center"]:
        x, y = np.append(x, case["x0"]), np.append(y, case["y0"])
        want = np.append(want, np.nan)
    if case["form"] == "2d":
        x, y, want = x[None, :], y[None, :], want[None, :]
    frozen = Frozen(x=x, y=y)
    got = m(x, y)
    frozen.check("Nuker2D")
    cond = (abs(case["x0"]) + abs(case["y0"]) + 1) / (u.min() * case["rb"])
    close(got, want, 1e-9 + 1e-13 * cond, 0, "Nuker profile")
    close(np.ravel(got)[len(u) - 1], case["amp"], 1e-9 + 1e-13 * cond, 0, "Nuker value at the break radius")
    rec.nontrivial(not case["defaults"] and g > 0)


DEFAULTS = {
    "amplitude": (0.0, None), "r_eff": (1e-3, None), "n": (0.1, 10),
    "ellip": (0, 0.99), "theta": (-2 * np.pi, 2 * np.pi),
}
names = st.sampled_from(["amplitude", "r_eff", "n", "ellip", "theta", "c_0", "x_0", "y_0"])


@st.composite
def bounds_cases(draw):
    override = st.dictionaries(names, st.tuples(fl(-9, 0), fl(0, 9)), max_size=4)
    return {
        "ops": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["sersic", "gen"]),
                    st.sampled_from(["plain", "override", "override", "mutate", "clear"]),
                    override,
                ),
                min_size=1, max_size=6,
            )
        )
    }


def check_bounds(case, rec):
    from petrofit.modeling.models import (
        get_default_gen_sersic_bounds, get_default_sersic_bounds,
    )

    for which, op, override in case["ops"]:
        fn = get_default_sersic_bounds if which == "sersic" else get_default_gen_sersic_bounds
        want = dict(DEFAULTS)
        if which == "gen":
            want["c_0"] = (0, 2.0)
        override = {k: tuple(v) for k, v in override.items()}
        if op == "override":
            given = dict(override)
            got = fn(given)
            need(given == override, "the override dictionary was modified")
            want.update(override)
        else:
            got = fn()
        need(dict(got) == want, "%s bounds are %r, expected %r", which, got, want)
        # what a caller does with its result must not show up later
        if op == "mutate":
            got.update(override)
        elif op == "clear":
            got.clear()
    rec.nontrivial(len(case["ops"]) >= 2)


@st.composite
def core_cases(draw):
    re = draw(logfl(1, 60))
    return {
        "amp": draw(logfl(1e-3, 1e3)), "re": re, "rb": draw(logfl(0.02, 0.6)) * re,
        "n": draw(fl(0.5, 6)), "x0": draw(fl(-20, 20)), "y0": draw(fl(-20, 20)),
        "alpha": draw(st.one_of(fl(0.8, 12), logfl(0.2, 30))), "gamma": draw(fl(0, 1)),
        "ellip": draw(st.one_of(st.just(0.0), fl(0, 0.9))), "theta": draw(angles),
        "pts": draw(st.lists(st.tuples(st.one_of(logfl(0.02, 5), logfl(1e-4, 12)), fl(-np.pi, np.pi)), min_size=1, max_size=6)),
        "center": draw(st.booleans()),
        "form": draw(st.sampled_from(["1d", "2d"])),
    }


def check_core(case, rec):
    """Graham et al. 2003: I_b at the break radius, Sersic outside, a power
    law inside."""
    from petrofit.modeling.models import CoreSersic2D

    re, rb, n, a, g = (case[k] for k in ("re", "rb", "n", "alpha", "gamma"))
    x0, y0, ell, th = (case[k] for k in ("x0", "y0", "ellip", "theta"))
    m = CoreSersic2D(
        amplitude=case["amp"], r_eff=re, r_break=rb, n=n, x_0=x0, y_0=y0,
        alpha=a, gamma=g, ellip=ell, theta=th,
    )
    r = np.array([p[0] * re for p in case["pts"]] + [rb])
    phi = np.array([p[1] for p in case["pts"]] + [0.7])
    xm, ym = r * np.cos(phi), r * (1 - ell) * np.sin(phi)
    x = x0 + xm * np.cos(th) - ym * np.sin(th)
    y = y0 + xm * np.sin(th) + ym * np.cos(th)
    b = sersic.b_n(n)
    outer = lambda r: np.logaddexp(a * np.log(r), a * np.log(rb)) / a - np.log(re)
    law = lambda r: g / a * np.log1p((rb / r) ** a) - b * np.exp(outer(r) / n)
    want = case["amp"] * np.exp(law(r) - law(rb))
    if case["center"]:
        x, y = np.append(x, x0), np.append(y, y0)
        want = np.append(want, np.nan)
    if case["form"] == "2d":
        x, y, want = x[:, None], y[:, None], want[:, None]
    frozen = Frozen(x=x, y=y)
    got = m(x, y)
    frozen.check("CoreSersic2D")
    top = r.max() / re
    cond = (abs(x0) + abs(y0) + 1) / (r.min() * (1 - ell)) * (1 + b / n * top ** (1 / n))
    close(got, want, 1e-8 + 1e-13 * cond, 0, "core-Sersic profile")
    close(np.ravel(got)[len(r) - 1], case["amp"], 1e-8 + 1e-13 * cond, 0, "core-Sersic value at the break radius")
    rec.nontrivial(ell > 0 and g > 0)


SUBS = [
    Sub("gen_sersic", gen_cases, check_gen, 4000, 60000, "boxiness and ellipticity are not zero"),
    Sub("nuker", nuker_cases, check_nuker, 2400, 30000, "slopes are not the defaults and gamma > 0"),
    Sub("core_sersic", core_cases, check_core, 2400, 30000, "an elliptical galaxy with a core slope"),
    Sub("bounds", bounds_cases, check_bounds, 1600, 16000, "at least two calls"),
]
