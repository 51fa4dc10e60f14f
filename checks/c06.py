"""C06: ideal Sersic profiles are recovered."""
import numpy as np
from hypothesis import strategies as st

from pbt import sersic
from pbt.core import Sub
from pbt.util import close, fl, logfl, need

ASSUMPTIONS = [
    "Radii are sampled quadratically (fine in the centre) with 80 to 200 points.",
    "A Petrosian radius measured with annuli may lie up to one annulus outside the analytic one.",
]


@st.composite
def cases(draw):
    return {
        "n": draw(st.one_of(st.sampled_from([0.5, 1.0, 2.0, 4.0]), fl(0.5, 6), fl(0.25, 8))),
        "re": draw(fl(2, 60)),
        "amp": draw(logfl(1e-6, 1e6)),
        "elong": draw(st.one_of(st.just(1.0), fl(1, 5))),
        "m": draw(st.integers(80, 200)),
        "reach": draw(fl(1.05, 1.6)),
        "eta": draw(st.one_of(st.sampled_from([0.2, 0.3, 0.4, 0.5]), fl(0.12, 0.6))),
        "num": draw(st.sampled_from([5000, 12000])),
        "kind": draw(st.sampled_from(["cubic", "cubic", 3, "quadratic"])),
        "total": draw(st.one_of(st.just(0.99), fl(0.6, 0.99))),
        "frac": draw(fl(0.15, 0.95)),
        "err": draw(st.booleans()),
        "ef": draw(st.one_of(st.just(0.99), st.just(0.99), st.sampled_from([0.5, 0.8, 0.9]), fl(0.3, 0.99))),
        "anew": draw(st.booleans()),
    }


def check(case, rec):
    from petrofit.petrosian import Petrosian

    n, re, amp, q = case["n"], case["re"], case["amp"], 1 / case["elong"]
    r99 = sersic.radius(0.99, re, n)
    r_p_true = sersic.petrosian_radius(case["eta"], re, n)
    r_max = max(r99, r_p_true * 1.1) * case["reach"]
    r = r_max * (np.arange(1, case["m"] + 1) / case["m"]) ** 2
    flux = sersic.enclosed(r, amp, re, n, q)
    area = np.pi * r**2 * q
    make = lambda **kw: Petrosian(
        r, area, flux, flux_err=np.sqrt(flux) * 1e-3 * np.sqrt(amp) if case["err"] else None,
        eta=case["eta"], interp_num=case["num"], interp_kind=case["kind"],
        total_flux_fraction=case["total"], **kw
    )
    p = make()
    step = r_max / (case["num"] - 1)
    r_p = float(p.r_petrosian)
    # the annulus value at r[k] is at most I(r[k-1]) / mean(r[k])
    high = sersic.intensity(r[:-1], amp, re, n) / (flux[1:] / area[1:])
    fallen = np.flatnonzero(high <= case["eta"])
    if len(fallen):
        upper = r[fallen[0] + 1]
        need(
            r_p_true - 1.5 * step - 2e-3 * r_p_true <= r_p <= upper + 1.5 * step,
            "Petrosian radius %r, analytic %r (at most %r)", r_p, r_p_true, upper,
        )
        rec.label("tight" if upper < 1.15 * r_p_true else "loose")
    # the epsilon which reaches the radius of epsilon_fraction of the flux
    ef = case["ef"]
    eps = float(sersic.radius(ef, re, n) / r_p)
    if case["anew"]:
        p = make(epsilon=eps, epsilon_fraction=ef)
    else:
        p.epsilon, p.epsilon_fraction = eps, ef
    L = sersic.total(amp, re, n, q)

    def near(value, fraction, what):
        true = sersic.radius(fraction, re, n)
        value = float(value)
        need(
            abs(value - true) <= 1.5 * step + 3e-3 * true,
            "%s: %r, analytic %r (step %r)", what, value, true, step,
        )

    near(p.r_half_light, 0.5, "half-light radius")
    near(p.r_50, 0.5, "r_50")
    need(abs(p.r_half_light - re) <= 1.5 * step + 3e-3 * re, "half-light radius is not r_eff")
    near(p.r_total_flux, case["total"], "total-flux radius")
    near(p.fraction_flux_to_r(case["frac"]), case["frac"], "radius of a flux fraction")
    close(p.total_flux, case["total"] * L, 5e-3, 0, "total flux")
    close(p.half_flux, 0.5 * L, 2e-2, 0, "half flux")
    for name, f1, f2 in (("c2080", 0.2, 0.8), ("c5090", 0.5, 0.9), ("concentration", case["frac"], 0.7)):
        t1, t2 = sersic.radius(f1, re, n), sersic.radius(f2, re, n)
        tol = 5 / np.log(10) * ((1.5 * step / t1 + 3e-3) + (1.5 * step / t2 + 3e-3)) * 1.2
        value = p.concentration_index(f1, f2)[2] if name == "concentration" else getattr(p, name)
        need(
            abs(value - 5 * np.log10(t2 / t1)) <= tol,
            "%s is %r, analytic %r (tolerance %r)", name, value, 5 * np.log10(t2 / t1), tol,
        )
    rec.nontrivial(True)
    rec.label("n<1" if n < 1 else "n<3" if n < 3 else "n>=3", "elliptical" if q < 1 else "round")


def check_profile(case, rec):
    """The measured profile lies between the analytic bounds of each annulus."""
    from petrofit.petrosian import Petrosian

    n, re, amp, q = case["n"], case["re"], case["amp"], 1 / case["elong"]
    r = sersic.radius(0.99, re, n) * case["reach"] * (np.arange(1, case["m"] + 1) / case["m"]) ** 2
    p = Petrosian(r, np.pi * r**2 * q, sersic.enclosed(r, amp, re, n, q))
    mean = sersic.enclosed(r, amp, re, n) / (np.pi * r**2)
    low = sersic.intensity(r[1:], amp, re, n) / mean[1:]
    high = sersic.intensity(r[:-1], amp, re, n) / mean[1:]
    got = p.petrosian_list[1:]
    ok = (got >= low * (1 - 1e-6) - 1e-9) & (got <= high * (1 + 1e-6) + 1e-9)
    need(np.all(ok), "profile value %r outside its annulus bounds", got[~ok][:1])
    rec.nontrivial(True)


SUBS = [
    Sub("recovery", cases, check, 1600, 24000, "every case recovers one Sersic profile"),
    Sub("bounds", cases, check_profile, 800, 12000, "every case bounds one profile"),
]
