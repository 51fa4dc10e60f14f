"""C02: the Petrosian radius is where the profile first falls to eta."""
import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt.core import Sub
from pbt.util import Frozen, close, containers, fl, need, same, seeds, wrap

ASSUMPTIONS = [
    "scipy.interpolate.interp1d is trusted to interpolate.",
    "An interpolated value within 1e-11 of eta may count as reached or not.",
]


@st.composite
def profiles(draw, n):
    shape = draw(st.sampled_from(["falling", "oscillating", "high", "plateau", "any"]))
    if shape == "falling":
        v = np.cumprod([1.0] + draw(st.lists(fl(0.3, 1.0), min_size=n - 1, max_size=n - 1)))
    elif shape == "oscillating":
        base = np.linspace(1, 0, n)
        v = base + np.array(draw(st.lists(fl(-0.4, 0.4), min_size=n, max_size=n)))
    elif shape == "high":
        v = np.array(draw(st.lists(fl(0.5, 1.4), min_size=n, max_size=n)))
    elif shape == "plateau":
        v = np.array(draw(st.lists(st.sampled_from([1.0, 0.8, 0.5, 0.3, 0.2, 0.1, 0.0, -0.1]), min_size=n, max_size=n)))
    else:
        v = np.array(draw(st.lists(fl(-0.5, 1.6), min_size=n, max_size=n)))
    return [float(x) for x in v]


etas = st.one_of(st.sampled_from([0.2, 0.3, 0.4, 0.5, 0.1]), fl(0.01, 0.99))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(petro.KINDS))
    r = draw(petro.radii(lo=petro.min_points(kind)))
    prof = draw(profiles(len(r)))
    n = len(r)
    if kind in (None, "previous", "next", "nearest") and draw(st.integers(0, 4)) == 0:
        # two apertures of equal area leave an undefined value
        for i in draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=3)):
            prof[i] = float("nan")
    err = None
    if draw(st.booleans()):
        err = draw(
            st.one_of(
                st.lists(fl(0, 0.3), min_size=n, max_size=n),
                fl(0, 0.2).map(lambda e: [e] * n),
            )
        )
    kinds = ["array", "list", "column", "big_endian", "strided"]
    return {
        "r": r,
        "profile": prof,
        "err": err,
        # sometimes exactly a value of the profile
        "eta": draw(st.one_of(etas, etas, st.sampled_from([v for v in prof[1:] if v == v] or [0.2]))),
        "kind": kind,
        "num": draw(petro.nums),
        "defaults": draw(st.integers(0, 5)) == 0,
        "first": draw(st.sampled_from(["nan", "0", "-5", "1", "inf"])),
        "as_r": draw(st.sampled_from(kinds + (["int", "intlist"] if all(float(x).is_integer() for x in r) else []))),
        "as_p": draw(st.sampled_from(kinds)),
    }


@st.composite
def long_cases(draw):
    c = draw(cases())
    c["r"] = draw(petro.long_radii())
    n = len(c["r"])
    rng = np.random.RandomState(draw(seeds) % 2**31)
    t = np.arange(n) / n
    base = np.exp(-t / draw(fl(0.05, 1.5))) if draw(st.booleans()) else 1 - draw(fl(0.1, 1.2)) * t
    c["profile"] = [float(v) for v in base + draw(st.sampled_from([0.0, 1e-3, 0.1])) * rng.uniform(-1, 1, n)]
    if c["err"] is not None:
        c["err"] = [float(v) for v in rng.uniform(0, 0.2, n)]
    c["num"] = draw(petro.long_nums)
    if c["as_r"] in ("int", "intlist"):
        c["as_r"] = "array"
    return c


def check_radius(case, rec):
    from petrofit.petrosian import calculate_petrosian_r

    kind, num, eta = case["kind"], case["num"], case["eta"]
    kw = dict(eta=eta, interp_kind=kind, interp_num=num)
    if case["defaults"] and len(case["r"]) >= 4:
        kind, num, eta, kw = "cubic", 5000, 0.2, {}
        rec.label("defaults")
    prof = list(case["profile"])
    prof[0] = float(case["first"])
    r = wrap(case["r"], case["as_r"])
    p = wrap(prof, case["as_p"])
    e = None if case["err"] is None else np.array([np.nan] + case["err"][1:])
    frozen = Frozen(r=r, p=p, **({} if e is None else {"e": e}))
    got, got_err = calculate_petrosian_r(r, p, petrosian_err=e, **kw)
    frozen.check("calculate_petrosian_r")
    want = petro.petro_radius(case["r"], prof, eta, kind, num)
    petro.accept(got, want, "Petrosian radius")
    got = float(got)
    rec.label(str(kind), "found" if got == got else "never")
    if np.isnan(case["profile"][1:]).any():
        rec.label("undefined values")
    rec.nontrivial(True)
    got2, none_err = calculate_petrosian_r(r, p, **kw)
    same(got2, got, "radius without errors")
    need(np.isnan(none_err), "radius error without profile errors: %r", none_err)
    if e is not None:
        if got != got:
            need(np.isnan(got_err), "error %r of an undefined radius", got_err)
        else:
            rec.label("error")
            petro.accept(
                got_err,
                petro.petro_radius_err(case["r"], prof, case["err"], eta, kind, num),
                "Petrosian radius error",
            )
    # any value in place of the unknown first one gives the same answer
    other = np.array(prof)
    other[0] = 0.123
    got3, _ = calculate_petrosian_r(np.array(case["r"]), other, **kw)
    petro.accept(got3, want, "radius with another first profile value")


@st.composite
def crossing_cases(draw):
    r = draw(petro.radii(lo=4, hi=20))
    n = len(r)
    q = draw(st.lists(fl(0.4, 0.98), min_size=n - 1, max_size=n - 1))
    return {
        "r": r,
        "profile": [1.0] + [float(v) for v in np.cumprod(q)],
        "eta": draw(etas),
        "kind": draw(st.sampled_from(["linear", "slinear", 1])),
        "num": draw(st.integers(20, 6000)),
    }


def check_crossing(case, rec):
    """Independent of the sampling: the exact crossing of a falling polyline."""
    from petrofit.petrosian import calculate_petrosian_r

    r, p, eta = list(case["r"]), list(case["profile"]), case["eta"]
    got, _ = calculate_petrosian_r(
        np.array(r), np.array(p), eta=eta, interp_kind=case["kind"], interp_num=case["num"]
    )
    r[0], p[0] = 0.0, 1.0
    step = r[-1] / (max(case["num"], len(r)) - 1)
    if p[-1] > eta + 1e-9:
        need(np.isnan(got), "radius %r although the profile stays above eta", got)
        return
    if p[-1] > eta - 1e-9:
        return
    k = next(i for i in range(len(p)) if p[i] <= eta)
    true = r[k - 1] + (r[k] - r[k - 1]) * (p[k - 1] - eta) / (p[k - 1] - p[k])
    rec.nontrivial(True)
    need(
        abs(got - true) <= step * (1 + 1e-6),
        "radius %r, but the profile crosses eta=%r at %r (sampling step %r)",
        float(got), eta, true, step,
    )


@st.composite
def object_cases(draw):
    kind = draw(st.sampled_from(petro.KINDS))
    r = draw(petro.radii(lo=4))
    n = len(r)
    flux = draw(petro.growth_curves(n))
    return {
        "r": r,
        "flux": flux,
        "flux_err": draw(st.one_of(st.none(), st.lists(fl(0.001, 2), min_size=n, max_size=n))),
        "eta": draw(etas),
        "epsilon": draw(fl(0.2, 4)),
        "kind": kind,
        "num": draw(petro.nums),
        "elong": draw(fl(1, 4)),
    }


def check_object(case, rec):
    from petrofit.petrosian import Petrosian
    from checks.c01 import reference

    r = np.array(case["r"])
    area = np.pi * r**2 / case["elong"]
    flux = np.array(case["flux"])
    ferr = None if case["flux_err"] is None else np.array(case["flux_err"])
    p = Petrosian(
        r, area, flux, flux_err=ferr, eta=case["eta"], epsilon=case["epsilon"],
        interp_kind=case["kind"], interp_num=case["num"],
    )
    prof, perr = reference(list(area), list(flux), None, None if ferr is None else list(ferr))
    want = petro.petro_radius(r, prof, case["eta"], case["kind"], case["num"])
    petro.accept(p.r_petrosian, want, "Petrosian.r_petrosian")
    rp = float(p.r_petrosian)
    rec.nontrivial(rp == rp)
    rec.label("found" if rp == rp else "never")
    close(p.r_epsilon, rp * case["epsilon"], 1e-12, 0, "r_epsilon")
    inside = bool(r.min() <= rp * case["epsilon"] <= r.max())
    need(bool(p.r_epsilon_in_range) == inside, "r_epsilon_in_range is not %r", inside)
    err = float(p.r_petrosian_err)
    if ferr is None or rp != rp:
        need(err != err, "r_petrosian_err %r without errors or radius", err)
    elif np.all(np.isfinite(perr[1:])):
        rec.label("error")
        petro.accept(
            err,
            petro.petro_radius_err(r, prof, perr, case["eta"], case["kind"], case["num"]),
            "Petrosian.r_petrosian_err",
        )


SUBS = [
    Sub("radius", cases, check_radius, 4000, 60000, "every case: one radius decided against the reference"),
    Sub("long", long_cases, check_radius, 240, 5000, "every case: one radius decided against the reference"),
    Sub("crossing", crossing_cases, check_crossing, 1600, 20000, "the profile crosses eta inside the data"),
    Sub("object", object_cases, check_object, 1600, 20000, "the radius exists"),
]
