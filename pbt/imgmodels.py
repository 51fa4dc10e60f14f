"""2D models together with an independent formula for their values."""
import numpy as np
from hypothesis import strategies as st

from .util import angles, rnd


@st.composite
def model_specs(draw):
    kind = draw(st.sampled_from(["plane", "poly", "sersic", "gauss", "compound", "callable"]))
    return {
        "kind": kind,
        "a": draw(rnd(-3, 3)), "b": draw(rnd(-3, 3)), "c": draw(rnd(-5, 5)), "d": draw(rnd(-1, 1)),
        "x0": draw(rnd(-5, 25)), "y0": draw(rnd(-5, 25)),
        "re": draw(rnd(1, 12)), "n": draw(rnd(0.5, 4)), "ellip": draw(rnd(0, 0.8)),
        "theta": draw(angles),
    }


def build(s, offset=0.0):
    """(model, plain function) of a specification."""
    from astropy.modeling import models

    s = dict(s, x0=s["x0"] + offset, y0=s["y0"] + offset)

    def ell(x, y):
        ct, sn = np.cos(s["theta"]), np.sin(s["theta"])
        u = (x - s["x0"]) * ct + (y - s["y0"]) * sn
        v = -(x - s["x0"]) * sn + (y - s["y0"]) * ct
        return u, v

    def sersic(x, y):
        from pbt import sersic as S

        u, v = ell(x, y)
        return S.intensity(np.hypot(u, v / (1 - s["ellip"])), 7.0, s["re"], s["n"])

    def gauss(x, y):
        u, v = ell(x, y)
        sy = s["re"] * (1 - s["ellip"])
        return 5.0 * np.exp(-0.5 * ((u / s["re"]) ** 2 + (v / sy) ** 2))

    def plane(x, y):
        return s["a"] * x + s["b"] * y + s["c"]

    def poly(x, y):
        return s["c"] + s["a"] * x + s["b"] * y + s["d"] * x * y + 0.01 * x**2 - 0.02 * y**2

    k = s["kind"]
    sersic_m = lambda: models.Sersic2D(
        amplitude=7.0, r_eff=s["re"], n=s["n"], x_0=s["x0"], y_0=s["y0"],
        ellip=s["ellip"], theta=s["theta"],
    )
    plane_m = lambda: models.Planar2D(slope_x=s["a"], slope_y=s["b"], intercept=s["c"])
    if k == "plane":
        return plane_m(), plane
    if k == "poly":
        return (
            models.Polynomial2D(2, c0_0=s["c"], c1_0=s["a"], c0_1=s["b"], c1_1=s["d"], c2_0=0.01, c0_2=-0.02),
            poly,
        )
    if k == "sersic":
        return sersic_m(), sersic
    if k == "gauss":
        m = models.Gaussian2D(
            amplitude=5.0, x_mean=s["x0"], y_mean=s["y0"], x_stddev=s["re"],
            y_stddev=s["re"] * (1 - s["ellip"]), theta=s["theta"],
        )
        return m, gauss
    if k == "compound":
        return sersic_m() + plane_m(), lambda x, y: sersic(x, y) + plane(x, y)
    return (lambda x, y: poly(x, y)), poly
