"""C07: analytic Sersic relations are mutually consistent."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate

from pbt import sersic
from pbt.core import Sub
from pbt.util import Frozen, close, fl, logfl, need, scalar

ASSUMPTIONS = [
    "Numerical quadrature (scipy) is accurate to 1e-7 for these integrands.",
    "Fluxes within 5e-10 of the total flux are not inverted: there rounding alone decides between a huge radius, infinity and NaN.",
]

ns = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 4.0, 10.0, 1, 4]), fl(0.2, 10))


@st.composite
def cases(draw):
    return {
        "n": draw(ns),
        "re": draw(logfl(0.1, 300)),
        "amp": draw(logfl(1e-8, 1e8)),
        "ellip": draw(st.one_of(st.none(), st.just(0.0), fl(0, 0.95))),
        "x": draw(st.lists(st.one_of(logfl(0.02, 30), logfl(0.02, 30), logfl(1e-8, 300)), min_size=1, max_size=5)),
        "frac": draw(st.lists(st.one_of(fl(0.001, 0.999), logfl(1e-9, 1.0)), min_size=1, max_size=5)),
        "rest": draw(st.lists(logfl(1e-9, 0.01), max_size=2)),
        "scalar": draw(st.booleans()),
        "form": draw(st.sampled_from(["array", "2d", "list_like"])),
    }


def quad(r, amp, re, n):
    """Flux of a circular aperture by quadrature in log radius."""
    f = lambda s: 2 * np.pi * np.exp(2 * s) * float(
        amp * np.exp(-sersic.b_n(n) * (np.exp(s / n) - 1.0))
    )
    top = np.log(r / re)
    # nothing outside of x = 80 (in b (r/re)^(1/n)) matters
    top = min(top, n * np.log(120 / sersic.b_n(n)))
    lo = top - 25
    out = 0.0
    edges = np.linspace(lo, top, 6)
    for a, b in zip(edges[:-1], edges[1:]):
        out += integrate.quad(f, a, b, epsabs=0, epsrel=1e-10, limit=200)[0]
    return out * re**2


def check_enclosed(case, rec):
    from petrofit.modeling.models import (
        sersic_enclosed, sersic_enclosed_inv, sersic_enclosed_model,
        petrosian_profile, petrosian_model,
    )

    n, re, amp = case["n"], case["re"], case["amp"]
    ell = case["ellip"]
    kw = {} if ell is None else {"ellip": ell}
    q = 1.0 if ell is None else 1 - ell
    r = np.array(case["x"]) * re
    want = np.array([q * quad(v, amp, re, n) for v in r])
    arg = r.reshape(1, -1) if case["form"] == "2d" else r
    frozen = Frozen(arg=arg)
    got = np.asarray(sersic_enclosed(arg, amp, re, n, **kw))
    close(got.reshape(-1), want, 1e-6, 0, "enclosed flux against quadrature")
    one = sersic_enclosed(float(r[0]), amp, re, n, **kw)
    close(scalar(one), want[0], 1e-6, 0, "enclosed flux of a scalar radius")
    L = sersic.total(amp, re, n, q)
    close(scalar(sersic_enclosed(np.inf, amp, re, n, **kw)), L, 1e-8, 0, "total flux")
    close(scalar(sersic_enclosed(re, amp, re, n, **kw)), L / 2, 1e-8, 0, "flux within r_eff")
    close(scalar(sersic_enclosed(0.0, amp, re, n, **kw)), 0.0, 0, 1e-12 * L, "flux within zero radius")
    # inverse
    frac = np.array(case["frac"] + [1 - v for v in case["rest"]])
    frac = frac[frac < 1 - 5e-10]
    f = frac * L
    inv = np.asarray(sersic_enclosed_inv(f, amp, re, n, **kw))
    radius = sersic.radius(frac, re, n)
    # far out, where hardly any flux is added, the radius is known as well as rounding of the flux allows
    slope = 2 * np.pi * q * radius**2 * sersic.intensity(radius, amp, re, n) / L
    for got_r, want_r, rtol in zip(inv, radius, 1e-6 + 1e-13 / slope):
        close(got_r, want_r, rtol, 0, "radius of enclosed flux")
    close(sersic_enclosed(inv, amp, re, n, **kw), f, 1e-8, 0, "flux enclosed in the inverse radius")
    close(scalar(sersic_enclosed_inv(float(L / 2), amp, re, n, **kw)), re, 1e-6, 0, "radius of half the flux")
    # Petrosian profile
    mean = want / q / (np.pi * r**2)
    eta = sersic.intensity(r, amp, re, n) / mean
    close(petrosian_profile(r, re, n), eta, 1e-6, 1e-12, "ideal Petrosian profile")
    close(scalar(petrosian_profile(float(r[0]), re, n)), eta[0], 1e-6, 1e-12, "ideal Petrosian value")
    frozen.check("the analytic functions")
    # the models
    mod = sersic_enclosed_model(amplitude=amp, r_eff=re, n=n, **kw)
    close(mod(r), np.asarray(sersic_enclosed(r, amp, re, n, **kw)), 1e-10, 0, "sersic_enclosed_model")
    close(petrosian_model(r_eff=re, n=n)(r), petrosian_profile(r, re, n), 1e-10, 1e-14, "petrosian_model")
    rec.nontrivial(ell not in (None, 0.0))
    rec.label("elliptical" if ell else "round")


@st.composite
def conv_cases(draw):
    m = draw(st.integers(1, 4))
    return {
        "n": draw(st.lists(ns, min_size=m, max_size=m)),
        "I": draw(st.lists(logfl(1e-8, 1e8), min_size=m, max_size=m)),
        "re": draw(logfl(0.1, 100)),
        "scalar": draw(st.booleans()),
    }


def check_conv(case, rec):
    from petrofit.modeling.models import I0_to_Ie, Ie_to_I0
    from astropy.modeling.models import Sersic1D

    if case["scalar"]:
        n, I = case["n"][0], case["I"][0]
    else:
        n, I = np.array(case["n"], float), np.array(case["I"])
    I0 = Ie_to_I0(I, n)
    want = sersic.intensity(0.0, np.array(I), 1.0, np.array(n, float))
    close(I0, want, 1e-9, 0, "central intensity")
    close(I0_to_Ie(I0, n), I, 1e-12, 0, "effective intensity of the central one")
    close(Ie_to_I0(I0_to_Ie(I, n), n), I, 1e-12, 0, "central intensity of the effective one")
    first = Sersic1D(amplitude=float(np.ravel(I)[0]), r_eff=case["re"], n=float(np.ravel(n)[0]))
    close(np.ravel(I0)[0], float(first(0.0)), 1e-9, 0, "model value at radius zero")
    rec.nontrivial(True)


SUBS = [
    Sub("enclosed", cases, check_enclosed, 2400, 30000, "elliptical profile"),
    Sub("conversion", conv_cases, check_conv, 1600, 16000, "every case converts both ways"),
]
