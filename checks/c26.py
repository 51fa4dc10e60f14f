"""C26: the PetroApprox helpers against exact relations of Sersic profiles."""
import numpy as np
from hypothesis import strategies as st

from pbt import sersic as S
from pbt.core import Sub
from pbt.util import Frozen, close, fl, logfl, need, rnd

ASSUMPTIONS = [
    "Quoted accuracies are those of the published fits: 0.5 % for the C2080 correction and for epsilon from n, 4 % for n from C2080, 3 % for epsilon from P0502.",
    "Uncorrected C2080 is that of the default settings (eta 0.2, epsilon 2, epsilon_fraction 0.99); P0502 is 5 log10(r_petrosian at 0.2 / r_petrosian at 0.5).",
]
LO, HI = 0.5, 5.5
TOL = {"u2080_to_c2080": 0.005, "c2080_to_n": 0.04, "n_to_epsilon": 0.005, "p0502_to_epsilon": 0.03}
NAMES = sorted(TOL)


def exact(n):
    """(argument, result) of each relation for a Sersic index."""
    rp = S.petrosian_radius(0.2, 1.0, n)
    eps = float(S.radius(0.99, 1.0, n) / rp)
    within = float(S.enclosed(2 * rp, 1.0, 1.0, n) / S.total(1.0, 1.0, n))
    ratio = lambda total: 5 * np.log10(S.radius(0.8 * total, 1.0, n) / S.radius(0.2 * total, 1.0, n))
    c = float(ratio(1.0))
    u = float(ratio(within / 0.99))
    p = float(5 * np.log10(rp / S.petrosian_radius(0.5, 1.0, n)))
    return {
        "u2080_to_c2080": (u, c),
        "c2080_to_n": (c, n),
        "n_to_epsilon": (n, eps),
        "p0502_to_epsilon": (p, eps),
    }


def helper(name):
    from petrofit.modeling.models import PetroApprox

    return getattr(PetroApprox, name)


@st.composite
def cases(draw):
    return {
        "n": draw(st.lists(st.one_of(fl(LO, HI), rnd(LO, HI), st.sampled_from([LO, 1.0, 4.0, HI])), min_size=1, max_size=8)),
        "form": draw(st.sampled_from(["array", "2d", "big_endian", "strided", "float", "numpy", "f4", "int", "masked"])),
    }


def check(case, rec):
    ns = case["n"]
    table = [exact(n) for n in ns]
    rec.nontrivial(any(n not in (LO, 1.0, 4.0, HI) for n in ns))
    rec.label(case["form"])
    for name in NAMES:
        f = helper(name)
        x = np.array([t[name][0] for t in table])
        want = np.array([t[name][1] for t in table])
        one = np.array([float(f(float(v))) for v in x])
        close(one, want, TOL[name], what="%s for n=%s" % (name, ns[:4]))
        form = case["form"]
        if form in ("array", "2d", "big_endian", "strided", "masked"):
            arg = x.copy()
            if form == "2d":
                arg = np.array([x, x[::-1]])
                one = np.array([one, one[::-1]])
            elif form == "big_endian":
                arg = x.astype(">f8")
            elif form == "strided":
                arg = np.repeat(x, 2)[::2]
            elif form == "masked":
                arg = np.ma.array(x)
            frozen = Frozen(x=arg)
            close(f(arg), one, 1e-9, what="%s of an array (%s)" % (name, form))
            frozen.check(name)
        elif form == "numpy":
            close([float(f(np.float64(v))) for v in x], one, 1e-9, what="%s of numpy scalars" % name)
        elif form == "f4":
            arg = x.astype(np.float32)
            close(f(arg), [float(f(float(v))) for v in arg], 1e-2, what="%s of single precision" % name)
        elif form == "int":
            k = np.round(x).astype(int)
            want_k = [float(f(float(v))) for v in k]
            close(f(k), want_k, 1e-9, what="%s of integers" % name)
            close([float(f(int(v))) for v in k], want_k, 1e-9, what="%s of int" % name)


# -- rising -------------------------------------------------------------------


@st.composite
def rising_cases(draw):
    a = draw(fl(LO, HI))
    return {"a": a, "gap": draw(st.one_of(fl(0.02, 5), fl(0.02, 0.2), logfl(1e-4, 0.02))), "name": draw(st.sampled_from(NAMES))}


def check_rising(case, rec):
    lo, hi = sorted([case["a"], min(HI, case["a"] + case["gap"])])
    if hi - lo < 5e-5:
        lo = hi - 0.02
    f = helper(case["name"])
    t_lo, t_hi = exact(lo)[case["name"]], exact(hi)[case["name"]]
    y_lo, y_hi = float(f(t_lo[0])), float(f(t_hi[0]))
    need(y_hi > y_lo, "%s falls from %r at %r to %r at %r", case["name"], y_lo, t_lo[0], y_hi, t_hi[0])
    # steadily: its slope is that of the exact relation, within a factor
    slope = (y_hi - y_lo) / (t_hi[1] - t_lo[1])
    need(0.4 < slope < 2.5, "%s rises by %r where the exact relation rises by %r (n from %r to %r)", case["name"], y_hi - y_lo, t_hi[1] - t_lo[1], lo, hi)
    rec.nontrivial(hi - lo < 1)
    rec.label(case["name"])


# -- the documented chain -----------------------------------------------------


@st.composite
def chain_cases(draw):
    return {
        "n": draw(rnd(LO, 5)), "re": draw(rnd(2, 40)), "amp": draw(rnd(0.01, 100)),
        "elong": draw(rnd(1, 4)), "steps": draw(st.integers(150, 400)),
    }


def check_chain(case, rec):
    """Estimating epsilon from measured concentrations, as in the manual."""
    import copy

    from petrofit.petrosian import Petrosian

    n, re = case["n"], case["re"]
    truth = exact(n)
    rp = S.petrosian_radius(0.2, re, n)
    far = 1.2 * max(2 * rp, S.radius(0.99, re, n))
    near = 0.3 * S.radius(0.1, re, n)
    r = np.geomspace(near, far, case["steps"])
    flux = S.enclosed(r, case["amp"], re, n, 1 / case["elong"])
    p = Petrosian(r, np.pi * r**2 / case["elong"], flux, interp_num=20000)
    u = float(p.c2080)
    # interpolation of a coarse curve shifts the measured radii slightly
    close(u, truth["u2080_to_c2080"][0], 0.03, what="measured U2080")
    c = float(helper("u2080_to_c2080")(u))
    n_est = float(helper("c2080_to_n")(c))
    eps = float(helper("n_to_epsilon")(n_est))
    close(c, truth["u2080_to_c2080"][1], 0.07, what="C2080 of the chain")
    close(n_est, n, 0.15, what="Sersic index of the chain")
    close(eps, truth["n_to_epsilon"][1], 0.4, what="epsilon of the chain")
    # the corrected object is closer to the truth than the uncorrected one
    q = copy.copy(p)
    q.epsilon = eps
    if 1.05 < eps * rp < far and float(q.r_total_flux) == float(q.r_total_flux):
        close(float(q.total_flux), S.total(case["amp"], re, n, 1 / case["elong"]) * 0.99, 0.05, what="total flux with the estimated epsilon")
        rec.label("corrected")
    p5 = Petrosian(r, np.pi * r**2 / case["elong"], flux, eta=0.5, interp_num=20000)
    p05 = 5 * np.log10(float(p.r_petrosian) / float(p5.r_petrosian))
    if float(p5.r_petrosian) > r[3]:
        close(float(helper("p0502_to_epsilon")(p05)), truth["p0502_to_epsilon"][1], 0.25, what="epsilon from P0502")
    rec.nontrivial(n not in (1.0, 4.0))


SUBS = [
    Sub("relations", cases, check, 2400, 100000, "a Sersic index other than 0.5, 1, 4 and 5.5"),
    Sub("rising", rising_cases, check_rising, 4000, 100000, "indices less than 1 apart"),
    Sub("chain", chain_cases, check_chain, 1600, 30000, "a Sersic index other than 1 and 4"),
]
