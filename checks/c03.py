"""C03: flux-fraction radii invert the curve of growth."""
import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt.core import Sub
from pbt.util import Frozen, close, fl, need, same, seeds, wrap

ASSUMPTIONS = [
    "scipy.interpolate.interp1d is trusted to interpolate.",
    "Error bounds within rounding of the ends of the radius list are not compared.",
]

fractions = st.one_of(
    st.sampled_from([0.2, 0.5, 0.8, 0.9, 0.99, 1.0]), fl(0.01, 1.2)
)
eps_fractions = st.one_of(st.sampled_from([0.99, 0.5, 0.8, 1.0]), fl(0.2, 1.0))


@st.composite
def base(draw, long=False):
    kind = draw(st.sampled_from(petro.KINDS))
    if long:
        r = draw(petro.long_radii())
        n = len(r)
        rng = np.random.RandomState(draw(seeds) % 2**31)
        x = np.array(r) / (r[-1] * draw(fl(0.03, 0.6)))
        flux = draw(fl(1, 100)) * (1 - np.exp(-x) * (1 + x)) + draw(st.sampled_from([0.0, 1e-3])) * rng.rand(n)
        err = draw(st.sampled_from([None, 0.0, 0.01, 0.3]))
        if err is not None:
            err = [float(v) for v in err * rng.rand(n)]
        return {"r": r, "flux": [float(v) for v in flux], "err": err, "kind": kind, "num": draw(petro.long_nums)}
    r = draw(petro.radii(lo=4))
    n = len(r)
    flux = draw(petro.growth_curves(n))
    err = draw(
        st.one_of(
            st.none(),
            st.lists(fl(0, 2), min_size=n, max_size=n),
            fl(0, 3).map(lambda e: [e] * n),
        )
    )
    return {"r": r, "flux": flux, "err": err, "kind": kind, "num": draw(petro.nums)}


@st.composite
def cases(draw, long=False):
    c = draw(base(long))
    eps = draw(st.one_of(st.sampled_from([2.0, 1.0, 0.5]), fl(0.1, 5)))
    r = c["r"]
    where = draw(st.sampled_from(["inside", "inside", "inside", "first", "last", "below", "above", "nan"]))
    if where == "inside":
        r_eps = draw(fl(r[0], r[-1]))
    elif where == "first":
        r_eps, eps = r[0], 1.0
    elif where == "last":
        r_eps, eps = r[-1], 1.0
    elif where == "below":
        r_eps = r[0] * draw(fl(0.01, 0.99))
    elif where == "above":
        r_eps = r[-1] * draw(fl(1.01, 20))
    else:
        r_eps = float("nan")
    c.update(
        where=where,
        r_p=r_eps / eps,
        eps=eps,
        frac=draw(fractions),
        frac2=draw(fractions),
        eps_frac=draw(eps_fractions),
        r_p_err=draw(st.one_of(st.none(), st.just(0.0), fl(0, 4), st.just(float("nan")))),
        defaults=draw(st.integers(0, 5)) == 0,
        as_r=draw(st.sampled_from(["array", "list", "column", "big_endian", "strided"])),
        as_f=draw(st.sampled_from(["array", "list", "column", "big_endian", "strided"])),
    )
    return c


def check_fraction(case, rec):
    from petrofit.petrosian import calculate_concentration_index, fraction_to_r

    r, flux = case["r"], case["flux"]
    kind, num, eps, eps_frac = case["kind"], case["num"], case["eps"], case["eps_frac"]
    kw = dict(epsilon=eps, epsilon_fraction=eps_frac, interp_kind=kind, interp_num=num)
    r_p = case["r_p"]
    if case["defaults"]:
        r_p, kind, num, eps, eps_frac, kw = r_p * eps / 2.0, "cubic", 5000, 2.0, 0.99, {}
        rec.label("defaults")
    ra, fa = wrap(r, case["as_r"]), wrap(flux, case["as_f"])
    err = None if case["err"] is None else np.array(case["err"])
    frozen = Frozen(ra=ra, fa=fa, **({} if err is None else {"err": err}))
    edge = any(
        abs(r_p * eps - e) <= 1e-9 * r[-1] and r_p * eps != e for e in (r[0], r[-1])
    )
    got = {}
    for frac in (case["frac"], case["frac2"]):
        out = fraction_to_r(frac, ra, fa, r_p, **kw)
        need(len(out) == 2, "fraction_to_r returned %d values", len(out))
        frozen.check("fraction_to_r")
        val, nan_err = float(out[0]), float(out[1])
        need(nan_err != nan_err, "radius error %r without flux errors", nan_err)
        want = petro.fraction_radius(frac, r, flux, r_p, eps, eps_frac, kind, num)
        petro.accept(val, np.append(want, np.nan) if edge else want, "radius of flux fraction %r" % frac)
        got[frac] = val
        if err is not None:
            val2, e2 = fraction_to_r(
                frac, ra, fa, r_p, flux_err=err, r_petrosian_err=case["r_p_err"], **kw
            )
            frozen.check("fraction_to_r")
            same(val2, val, "radius with flux errors")
            if val != val:
                need(np.isnan(e2), "error %r of an undefined radius", e2)
            else:
                opts = petro.fraction_radius_err(
                    frac, r, flux, err, r_p, case["r_p_err"], eps, eps_frac, kind, num
                )
                if opts is not None:
                    rec.label("error", "error_nan" if opts[0] != opts[0] else "error_value")
                    petro.accept(e2, opts, "error of the radius of fraction %r" % frac)
    v1, v2 = got[case["frac"]], got[case["frac2"]]
    rec.label(case["where"], str(kind), "found" if v1 == v1 else "nan")
    rec.nontrivial(v1 == v1)
    ci = calculate_concentration_index(
        case["frac"], case["frac2"], ra, fa, r_p, flux_err=err,
        r_petrosian_err=case["r_p_err"], **kw
    )
    need(len(ci) == 3, "concentration index returned %d values", len(ci))
    if v1 != v1 or v2 != v2:
        need(np.all(np.isnan(np.array(ci, float))), "concentration %r of undefined radii", ci)
    else:
        same(float(ci[0]), v1, "first radius of the concentration index")
        same(float(ci[1]), v2, "second radius of the concentration index")
        close(ci[2], 5 * np.log10(v2 / v1), 1e-10, 1e-10, "concentration index")


@st.composite
def object_cases(draw):
    c = draw(base())
    c.update(
        eta=draw(st.one_of(st.sampled_from([0.2, 0.5]), fl(0.05, 0.9))),
        eps=draw(st.one_of(st.just(2.0), fl(0.3, 3))),
        eps_frac=draw(eps_fractions),
        total=draw(st.one_of(st.just(0.99), fl(0.3, 1.0))),
        frac=draw(fractions),
        frac2=draw(fractions),
        defaults=draw(st.integers(0, 5)) == 0,
    )
    if c["defaults"]:
        # the documented default settings, not given
        c.update(eta=0.2, eps=2.0, eps_frac=0.99, total=0.99, kind="cubic", num=5000)
    return c


def check_object(case, rec):
    from petrofit.petrosian import Petrosian

    r, flux = np.array(case["r"]), np.array(case["flux"])
    err = None if case["err"] is None else np.array(case["err"])
    kind, num = case["kind"], case["num"]
    kw = dict(
        eta=case["eta"], epsilon=case["eps"], epsilon_fraction=case["eps_frac"],
        total_flux_fraction=case["total"], interp_kind=kind, interp_num=num,
    )
    if case.get("defaults"):
        kw = {}
        rec.label("defaults")
    p = Petrosian(r, np.pi * r**2, flux, **kw)
    rp = float(p.r_petrosian)
    r_eps = rp * case["eps"]
    if any(abs(r_eps - e) <= 1e-9 * r[-1] and r_eps != e for e in (r[0], r[-1])):
        return
    frac = case["frac"]

    def ref(f):
        return petro.fraction_radius(
            f, r, flux, rp, case["eps"], case["eps_frac"], kind, num
        )

    results = {
        "r_total_flux": (p.r_total_flux, case["total"]),
        "r_half_light": (p.r_half_light, 0.5),
        "r_50": (p.r_50, 0.5),
        "fraction_flux_to_r": (p.fraction_flux_to_r(frac), frac),
        "fraction_flux_to_r()": (p.fraction_flux_to_r(), 0.5),
    }
    for name, (value, f) in results.items():
        petro.accept(value, ref(f), "Petrosian.%s" % name)
    rec.nontrivial(p.r_half_light == p.r_half_light)
    rec.label("found" if p.r_half_light == p.r_half_light else "nan")
    grow = petro.growth(r, flux, kind)
    for name, rad in (("total_flux", p.r_total_flux), ("half_flux", p.r_half_light)):
        close(
            getattr(p, name),
            float(grow(rad)) if rad == rad else np.nan,
            1e-9, 1e-9 * np.max(np.abs(flux)), "Petrosian.%s" % name,
        )
    for name, f1, f2, value in (
        ("c2080", 0.2, 0.8, p.c2080),
        ("c5090", 0.5, 0.9, p.c5090),
        ("concentration_index", case["frac"], case["frac2"], p.concentration_index(case["frac"], case["frac2"])[-1]),
        ("concentration_index()", 0.2, 0.8, p.concentration_index()[-1]),
    ):
        a, b = ref(f1), ref(f2)
        if len(a) * len(b) > 10**6:
            continue
        opts = (5 * np.log10(b[None, :] / a[:, None])).reshape(-1)
        petro.accept(value, opts, "Petrosian.%s" % name)
    for name in ("r_total_flux_err", "r_half_light_err", "r_50_err", "total_flux_err", "half_flux_err"):
        need(np.isnan(getattr(p, name)), "%s is not NaN without errors", name)
    if err is not None:
        q = Petrosian(r, np.pi * r**2, flux, flux_err=err, **kw)
        for name in ("r_petrosian", "r_total_flux", "r_half_light", "total_flux", "half_flux", "c2080", "c5090"):
            same(getattr(q, name), getattr(p, name), name + " with flux errors")
        rpe = float(q.r_petrosian_err)
        for name, f in (
            ("r_total_flux_err", case["total"]), ("r_half_light_err", 0.5), ("r_50_err", 0.5),
        ):
            value = float(getattr(q, name))
            mid = ref(f)
            if len(np.unique(mid)) > 1:
                continue
            if mid[0] != mid[0]:
                need(value != value, "%s %r of an undefined radius", name, value)
                continue
            opts = petro.fraction_radius_err(
                f, r, flux, err, rp, rpe, case["eps"], case["eps_frac"], kind, num
            )
            if opts is not None:
                rec.label("error")
                petro.accept(value, opts, "Petrosian.%s" % name)
                if name == "r_half_light_err":
                    same(q.fraction_flux_to_r_err(0.5), value, "fraction_flux_to_r_err")
        for name, rad, rad_err in (
            ("total_flux_err", q.r_total_flux, q.r_total_flux_err), ("half_flux_err", q.r_half_light, q.r_half_light_err),
        ):
            value = float(getattr(q, name))
            if rad != rad:
                need(value != value, "%s %r of an undefined radius", name, value)
            elif rad_err == rad_err:
                # the photometric error at that radius and more for the error of the radius
                d = np.abs(r - rad)
                low = np.min(err[d <= d.min() * (1 + 1e-9) + 1e-12 * r[-1]])
                need(value >= low * (1 - 1e-9) - 1e-150, "%s %r is less than the photometric error %r", name, value, low)
                if rad_err == 0:
                    high = np.max(err[d <= d.min() * (1 + 1e-9) + 1e-12 * r[-1]])
                    need(value <= high * (1 + 1e-9) + 1e-150, "%s %r with an exact radius and errors of %r", name, value, high)
                rec.label("flux error")


SUBS = [
    Sub("fraction", cases, check_fraction, 3200, 50000, "the radius exists"),
    Sub("long", lambda: cases(long=True), check_fraction, 240, 5000, "the radius exists"),
    Sub("object", object_cases, check_object, 1600, 24000, "the half-light radius exists"),
]
