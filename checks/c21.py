"""C21: geometry of elliptical apertures and annuli."""
import numpy as np
from hypothesis import strategies as st

from pbt import overlap
from pbt.core import Sub
from pbt.util import Frozen, angles, close, fl, logfl, need, noise, rnd, same, seeds

ASSUMPTIONS = [
    "photutils' aperture classes are trusted to hold the numbers they were given; their exact overlap is compared with an independent one, and apertures tangent to pixel edges which photutils misjudges are left out.",
]

numbers = lambda lo, hi: st.one_of(rnd(lo, hi), logfl(lo, hi), st.integers(max(1, int(np.ceil(lo))), int(hi)))


@st.composite
def cases(draw):
    many = draw(st.integers(0, 4)) == 0
    one = st.one_of(rnd(-5, 30), st.integers(-3, 30), rnd(-9000, 9000))
    pos = st.tuples(one, one)
    return {
        "pos": draw(st.lists(pos, min_size=2, max_size=3)) if many else draw(pos),
        "many": many,
        "form": draw(st.sampled_from(["tuple", "list", "array"])),
        "r": draw(st.one_of(numbers(0.05, 40), numbers(1e-3, 9e3))),
        "dr": draw(st.one_of(numbers(0.05, 20), numbers(1e-3, 5e3))),
        "elong": draw(st.one_of(st.none(), st.sampled_from([1, 1.0, 2, 3.5]), logfl(1, 50), logfl(0.1, 1))),
        "theta": draw(st.one_of(st.none(), angles)),
        "np": draw(st.booleans()),
    }


def position(case):
    p = case["pos"]
    if case["many"]:
        p = [tuple(q) for q in p]
    else:
        p = tuple(p)
    return {"tuple": tuple, "list": list, "array": np.array}[case["form"]](p)


def check(case, rec):
    from photutils.aperture import EllipticalAnnulus, EllipticalAperture

    from petrofit.photometry import radial_elliptical_annulus, radial_elliptical_aperture

    pos = position(case)
    num = (lambda v: np.asarray(v)[()]) if case["np"] else (lambda v: v)
    r, dr = num(case["r"]), num(case["dr"])
    kw = {}
    e, t = 1.0, 0.0
    if case["elong"] is not None:
        e = case["elong"]
        kw["elong"] = num(e)
    if case["theta"] is not None:
        t = case["theta"]
        kw["theta"] = num(t)
    frozen = Frozen(pos=pos)
    ap = radial_elliptical_aperture(pos, r, **kw)
    an = radial_elliptical_annulus(pos, r, dr, **kw)
    by_place = radial_elliptical_aperture(pos, r, float(e), float(t))
    by_place2 = radial_elliptical_annulus(pos, r, dr, float(e), float(t))
    frozen.check("making apertures")
    need(isinstance(ap, EllipticalAperture), "aperture is %r", ap)
    need(isinstance(an, EllipticalAnnulus), "annulus is %r", an)
    want = np.array(case["pos"], float)
    for a in (ap, an, by_place, by_place2):
        same(np.asarray(a.positions, float), want, "positions")
        ang = a.theta.to_value("rad") if hasattr(a.theta, "to_value") else float(a.theta)
        close(ang, t, 1e-12, 1e-12, "angle")
    r, dr, e = float(r), float(dr), float(e)
    for a in (ap, by_place):
        close(a.a, r, 1e-12, what="semi-major axis")
        close(a.b, r / e, 1e-12, what="semi-minor axis")
        close(a.area, np.pi * r**2 / e, 1e-12, what="area")
    for a in (an, by_place2):
        close(a.a_in, r, 1e-12, what="inner semi-major axis")
        close(a.b_in, r / e, 1e-12, what="inner semi-minor axis")
        close(a.a_out, r + dr, 1e-12, what="outer semi-major axis")
        close(a.b_out, (r + dr) / e, 1e-12, what="outer semi-minor axis")
        close(a.area, np.pi * ((r + dr) ** 2 - r**2) / e, 1e-9, 1e-14 * (r + dr) ** 2 / e, what="annulus area")
    rec.nontrivial(e != 1)
    rec.label("many" if case["many"] else "one", "round" if e == 1 else "elliptical")


@st.composite
def sum_cases(draw):
    nx, ny = draw(st.integers(2, 16)), draw(st.integers(2, 16))
    return {
        "size": [nx, ny],
        "pos": [draw(rnd(0, nx - 1)), draw(rnd(0, ny - 1))],
        "r": draw(rnd(0.3, 9)),
        "dr": draw(rnd(0.1, 6)),
        "elong": draw(st.one_of(st.just(1.0), rnd(1, 6), rnd(0.3, 1))),
        "theta": draw(angles),
        "seed": draw(seeds),
    }


def check_sums(case, rec):
    from petrofit.photometry import radial_elliptical_annulus, radial_elliptical_aperture

    nx, ny = case["size"]
    from photutils.aperture import EllipticalAperture

    img = noise(case["seed"], (ny, nx)) + 1
    # off round numbers, where apertures would touch pixel edges exactly
    x, y = case["pos"][0] + 0.00123457, case["pos"][1] + 0.00123457
    r, dr, e, t = case["r"], case["dr"], case["elong"], case["theta"]
    weights = {}
    for rad in (r, r + dr):
        weights[rad] = overlap.exact((ny, nx), x, y, rad, rad / e, t)
        lib = EllipticalAperture((x, y), rad, rad / e, theta=t).to_mask("exact").to_image((ny, nx))
        if lib is None or np.max(np.abs(lib - weights[rad])) > 1e-7:
            rec.label("misjudged by photutils")
            return
    flux = lambda a: float(a.do_photometry(img)[0][0])
    inner = flux(radial_elliptical_aperture((x, y), r, elong=e, theta=t))
    outer = flux(radial_elliptical_aperture((x, y), r + dr, elong=e, theta=t))
    ring = flux(radial_elliptical_annulus((x, y), r, dr, elong=e, theta=t))
    size = np.abs(img).sum()
    close(inner + ring, outer, 1e-9, 1e-9 * size, "aperture + annulus")
    for rad, got in ((r, inner), (r + dr, outer)):
        want = float((weights[rad] * img).sum())
        close(got, want, 1e-7, 1e-7 * size, "flux of radius %r" % rad)
    rec.nontrivial(e != 1)
    rec.label("round" if e == 1 else "elliptical")


SUBS = [
    Sub("geometry", cases, check, 3000, 40000, "elongation other than 1"),
    Sub("sums", sum_cases, check_sums, 3000, 40000, "elongation other than 1"),
]
