"""Small helpers shared by the checks: comparisons and strategies."""
import numpy as np
from hypothesis import strategies as st

from .core import Violation


# -- oracles ----------------------------------------------------------------


def need(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


def _fmt(a):
    a = np.asarray(a)
    return np.array2string(a, threshold=12, precision=10)


def close(got, want, rtol=1e-9, atol=0.0, what="value"):
    """Same shape, NaN in the same places, and close everywhere else."""
    g = np.asarray(np.ma.filled(got, np.nan) if np.ma.isMA(got) else got, dtype=float)
    w = np.asarray(want, dtype=float)
    need(
        g.shape == w.shape, "%s: shape %s, expected %s", what, str(g.shape), str(w.shape)
    )
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        first = tuple(bad[0])
        raise Violation(
            "%s: %d of %d values differ, first at %s: got %r, expected %r"
            % (what, len(bad), max(1, w.size), first, float(g[first]), float(w[first]))
        )


def scalar(x, what="value"):
    """A single number out of whatever scalar type the API returned."""
    a = np.asarray(x, dtype=float)
    need(a.size == 1, "%s: expected a single number, got shape %s", what, str(a.shape))
    return float(a.reshape(-1)[0])


def same(got, want, what="value"):
    """Bit-for-bit equality (NaN equal to NaN)."""
    g, w = np.asarray(got), np.asarray(want)
    need(g.shape == w.shape, "%s: shape %s, expected %s", what, str(g.shape), str(w.shape))
    if g.dtype.kind in "fc" or w.dtype.kind in "fc":
        ok = np.array_equal(np.asarray(g, float), np.asarray(w, float), equal_nan=True)
    else:
        ok = np.array_equal(g, w)
    need(ok, "%s: got %s, expected %s", what, _fmt(g), _fmt(w))


def raises(fn, what, kinds=Exception):
    """``fn`` has to refuse its input with an exception."""
    try:
        out = fn()
    except kinds:
        return
    raise Violation("%s was accepted (returned %.300r)" % (what, out))


class Frozen:
    """Remembers inputs and tells whether a call changed them."""

    def __init__(self, **named):
        self.named = named
        self.before = {k: self.snap(v) for k, v in named.items()}

    @staticmethod
    def snap(v):
        if isinstance(v, (list, tuple)):
            return ("seq", type(v).__name__, [Frozen.snap(i) for i in v])
        if isinstance(v, dict):
            return ("dict", {k: Frozen.snap(i) for k, i in v.items()})
        if np.ma.isMA(v):
            return ("ma", v.dtype.str, v.filled(0).tobytes(), np.ma.getmaskarray(v).tobytes())
        if hasattr(v, "colnames"):
            return ("table", [(c, Frozen.snap(np.asarray(v[c]))) for c in v.colnames])
        if hasattr(v, "data") and hasattr(v.data, "tobytes") and not isinstance(v, np.ndarray):
            return ("nd", Frozen.snap(np.asarray(v.data)))
        if isinstance(v, np.ndarray):
            a = np.asarray(v)
            return ("arr", a.dtype.str, a.shape, a.tobytes())
        return ("val", repr(v))

    def check(self, what="call"):
        for k, v in self.named.items():
            need(self.snap(v) == self.before[k], "%s changed its input %r", what, k)


# -- strategies ---------------------------------------------------------------


def fl(lo, hi):
    return st.floats(
        float(lo), float(hi), allow_nan=False, allow_infinity=False, allow_subnormal=False
    )


def logfl(lo, hi):
    """Floats spread evenly over decades (drawn as the exponent)."""
    return fl(np.log10(lo), np.log10(hi)).map(lambda e: float(10.0**e))


def rnd(lo, hi, digits=2):
    """Floats with few decimals: they shrink to readable numbers."""
    k = 10**digits
    return st.integers(int(np.ceil(lo * k)), int(np.floor(hi * k))).map(lambda i: i / k)


seeds = st.integers(0, 2**31 - 1)
angles = st.one_of(
    st.sampled_from([0.0, np.pi / 2, -np.pi / 2, np.pi, np.pi / 4, 2 * np.pi]),
    fl(-2 * np.pi, 2 * np.pi),
)


def noise(seed, shape):
    return np.random.RandomState(seed).standard_normal(shape)


CONTAINERS = ["array", "list", "tuple", "column", "big_endian", "strided", "int", "f4"]


def containers(kinds=CONTAINERS):
    return st.sampled_from(list(kinds))


def wrap(values, kind):
    """The same numbers in another container (int / f4 need exact values)."""
    a = np.array(values, dtype=float)
    if kind == "array":
        return a
    if kind == "list":
        return [float(v) for v in a]
    if kind == "tuple":
        return tuple(float(v) for v in a)
    if kind == "column":
        from astropy.table import Column

        return Column(a, name="col")
    if kind == "big_endian":
        return a.astype(">f8")
    if kind == "strided":
        buf = np.zeros(2 * len(a))
        buf[::2] = a
        return buf[::2]
    if kind == "int":
        return a.astype(int)
    if kind == "intlist":
        return [int(v) for v in a]
    if kind == "f4":
        return a.astype(np.float32)
    raise ValueError(kind)


# images which start anywhere, mostly near zero, at times far away
origins = st.one_of(
    st.tuples(st.integers(-60, 60), st.integers(-60, 60)), st.tuples(st.integers(-20000, 20000), st.integers(-20000, 20000))
)
