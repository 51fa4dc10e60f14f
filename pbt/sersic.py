"""Sersic profile quantities written independently of petrofit."""
import numpy as np
from scipy import optimize, special


def b_n(n):
    return special.gammaincinv(2.0 * n, 0.5)


def intensity(r, amp, re, n):
    return amp * np.exp(-b_n(n) * ((np.asarray(r, float) / re) ** (1.0 / n) - 1.0))


def total(amp, re, n, q=1.0):
    b = b_n(n)
    # 2 pi n r_e^2 I_e e^b b^(-2n) Gamma(2n), in logarithms
    return q * amp * re**2 * np.exp(
        np.log(2 * np.pi * n) + b - 2 * n * np.log(b) + special.gammaln(2.0 * n)
    )


def enclosed(r, amp, re, n, q=1.0):
    x = b_n(n) * (np.asarray(r, float) / re) ** (1.0 / n)
    return total(amp, re, n, q) * special.gammainc(2.0 * n, x)


def radius(fraction, re, n):
    return re * (special.gammaincinv(2.0 * n, fraction) / b_n(n)) ** n


def eta(r, re, n):
    """Local over mean interior surface brightness."""
    r = np.asarray(r, float)
    return intensity(r, 1.0, re, n) * np.pi * r**2 / enclosed(r, 1.0, re, n)


def petrosian_radius(value, re, n):
    f = lambda t: eta(np.exp(t) * re, re, n) - value
    return re * np.exp(optimize.brentq(f, np.log(1e-8), np.log(1e4)))
