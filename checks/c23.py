"""C23: array utilities against brute-force definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt.core import Sub
from pbt.util import Frozen, close, fl, logfl, need, rnd, same, seeds, wrap

ASSUMPTIONS = [
    "Strings to sort hold no digits other than 0-9.",
    "scipy.interpolate.interp1d is trusted to interpolate (linear, nearest, previous and next kinds are also checked by hand).",
    "The central pixel of a cutout is index size // 2; cutouts and images have compatible number types.",
    "Logarithmic radius lists have at least two values.",
]


# -- closest_value_index ---------------------------------------------------------


@st.composite
def index_cases(draw, top=14):
    n = draw(st.integers(0, top))
    item = draw(st.sampled_from([st.integers(-4, 4).map(float), fl(-3, 3), rnd(-1, 1, 1)]))
    arr = draw(st.lists(item, min_size=n, max_size=n))
    order = draw(st.sampled_from(["any", "any", "up", "down"]))
    if order != "any":
        arr = sorted(arr, reverse=order == "down")
    value = draw(st.one_of(item, st.sampled_from(arr) if arr else item, fl(-5, 5)))
    if arr and draw(st.integers(0, 3)) == 0:
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n)):
            arr[i] = math.nan
        if value != value:
            value = 0.5
    return {
        "array": arr, "value": value, "growing": draw(st.sampled_from([None, False, True, True])),
        "form": draw(st.sampled_from(["array", "column", "big_endian", "strided", "f4", "int"])),
    }


def check_index(case, rec):
    from petrofit.utils import closest_value_index

    arr = [float(v) for v in case["array"]]
    value = case["value"]
    form = case["form"]
    if form == "int" and any(v != v for v in arr):
        form = "array"  # integers hold no NaN
    if form == "int":
        arr = [float(round(v)) for v in arr]
    elif form == "f4":
        arr = [float(np.float32(v)) for v in arr]
        value = float(np.float32(value))
    data = wrap(arr, form)
    growing = bool(case["growing"])
    args = {} if case["growing"] is None else {"growing": growing}
    frozen = Frozen(a=data)
    got = closest_value_index(value, data, **args)
    frozen.check("closest_value_index")
    first = None
    for i, v in enumerate(arr):
        if (v >= value) if growing else (v <= value):
            first = i
            break
    rec.label("growing" if growing else "falling", "none" if first is None else "found")
    if first is None:
        need(got is None, "index %r, but no value reaches %r in %s", got, value, arr)
        return
    need(got is not None, "no index for %r in %s", value, arr)
    kind = np.float32 if form == "f4" else float
    dist = [abs(kind(arr[i]) - kind(value)) for i in range(first + 1)]
    rec.label("NaN before the crossing" if any(d != d for d in dist) else "no NaN")
    dist = [math.inf if d != d else d for d in dist]  # an undefined value is never the closest
    want = dist.index(min(dist))
    rec.nontrivial(first > 0)
    if want != first:
        rec.label("before the crossing")
    slack = 1e-15 + 1e-6 * (form == "f4")
    near = [i for i, d in enumerate(dist) if d <= min(dist) + slack * max(1.0, abs(value))]
    need(got == want or (got in near and dist[got] != dist[want]), "index %r of %r in %s, expected %r", got, value, arr, want)
    need(arr[:][int(got)] == arr[want] or got in near, "index")


# -- get_interpolated_values -------------------------------------------------------


@st.composite
def interp_cases(draw, top=12):
    kind = draw(st.sampled_from([k for k in petro.KINDS]))
    lo = {"cubic": 4, 3: 4, "quadratic": 3, 2: 3}.get(kind, 2)
    n = draw(st.integers(lo, top))
    even = draw(st.booleans())
    if even:
        h = draw(st.sampled_from([1.0, 0.5, 2.0]))
        x = [i * h for i in range(n)]
    else:
        x = [float(v) for v in np.cumsum(draw(st.lists(rnd(0.1, 5), min_size=n, max_size=n))) + draw(rnd(-5, 5))]
    per = draw(st.integers(1, 30))
    return {
        "kind": kind, "x": x, "even": even,
        "y": draw(st.lists(st.one_of(st.integers(-5, 5).map(float), fl(-100, 100)), min_size=n, max_size=n)),
        "num": draw(st.one_of(st.none(), st.integers(2, 60), st.just((n - 1) * per + 1), st.sampled_from([n - 1, n, n + 1]))),
        "shuffle": draw(st.integers(0, 3)) == 0,
        "seed": draw(seeds),
        "form": draw(st.sampled_from(["array", "list", "column", "strided"])),
    }


def check_interp(case, rec):
    from petrofit.utils import get_interpolated_values

    x, y = np.array(case["x"]), np.array(case["y"])
    kind = case["kind"]
    if case["shuffle"]:
        perm = np.random.RandomState(case["seed"] % 1000).permutation(len(x))
    else:
        perm = np.arange(len(x))
    xa, ya = wrap(x[perm], case["form"]), wrap(y[perm], case["form"])
    kw = {} if case["num"] is None else {"num": case["num"]}
    if kind != "cubic" or case["seed"] % 2:
        kw["kind"] = kind
    frozen = Frozen(x=xa, y=ya)
    gx, gy = get_interpolated_values(xa, ya, **kw)
    frozen.check("get_interpolated_values")
    rec.label(str(kind))
    if kind is None:
        same(gx, x[perm], "x without interpolation")
        same(gy, y[perm], "y without interpolation")
        return
    num = max(5000 if case["num"] is None else case["num"], len(x))
    grid = x[0] + (x[-1] - x[0]) * np.arange(num) / max(1, num - 1)
    close(gx, grid, 1e-12, 1e-12 * max(1, np.abs(x).max()), "sampled x")
    need(gx[0] == x[0] and gx[-1] == x[-1], "the range is %r to %r, expected %r to %r", gx[0], gx[-1], x[0], x[-1])
    need(np.shape(gy) == (num,), "%s values, expected %d", np.shape(gy), num)
    scale = np.abs(y).max() + 1e-12
    _, want = petro.samples(x, y, kind, num)
    step = kind in ("nearest", "nearest-up", "zero", "previous", "next", 0)
    # next to a data point or a midpoint a step may fall on either side
    if step:
        marks = np.concatenate([x, (x[1:] + x[:-1]) / 2])
        safe = np.array([np.abs(marks - g).min() > 1e-9 * (1 + np.abs(x).max()) for g in gx])
    else:
        safe = np.ones(num, bool)
    close(np.asarray(gy)[safe], np.asarray(want)[safe], 1e-9, 1e-9 * scale, "interpolated y (%s)" % kind)
    # by hand
    k = np.clip(np.searchsorted(x, gx, side="right") - 1, 0, len(x) - 2)
    if kind in ("linear", "slinear", 1):
        w = (gx - x[k]) / (x[k + 1] - x[k])
        close(gy, y[k] * (1 - w) + y[k + 1] * w, 1e-9, 1e-9 * scale, "linear interpolation")
    elif kind in ("previous", "zero", "next", "nearest", "nearest-up"):
        left = (gx - x[k]) < (x[k + 1] - gx)
        pick = {"previous": k, "zero": k, "next": k + 1}.get(kind, np.where(left, k, k + 1))
        close(np.asarray(gy)[safe], y[pick][safe], 1e-9, 1e-9 * scale, "%s interpolation" % kind)
    # data are reproduced where a sample falls on them
    if not step:
        for xi, yi in zip(x, y):
            j = int(np.abs(gx - xi).argmin())
            if abs(gx[j] - xi) <= 1e-13 * max(1.0, abs(xi)):
                close(gy[j], yi, 1e-7, 1e-7 * scale, "y at the data point %r" % float(xi))
    rec.nontrivial(len(x) > 2)
    if num == len(x):
        rec.label("as many samples as data")


# -- make_radius_list ----------------------------------------------------------------

radius_cases = st.fixed_dictionaries(
    {
        "max": st.one_of(st.integers(1, 500), rnd(0.5, 300), logfl(0.01, 1e5)),
        "n": st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(1, 60), st.integers(60, 3000)),
        "log": st.sampled_from([None, False, True]),
        "np": st.booleans(),
    }
)


def check_radius(case, rec):
    from petrofit.utils import make_radius_list

    m, n = case["max"], case["n"]
    if case["log"] and n < 2:
        return
    args = (np.asarray(m)[()], int(n)) if case["np"] else (m, n)
    out = make_radius_list(*args) if case["log"] is None else make_radius_list(*args, log=case["log"])
    need(isinstance(out, np.ndarray) and out.shape == (n,), "radius list %r", out)
    if case["log"]:
        want = [float(m) ** (i / (n - 1)) for i in range(n)]
    else:
        want = [float(m) * (i + 1) / n for i in range(n)]
    close(out, want, 1e-10, what="radius list (max=%r, n=%r, log=%r)" % (m, n, case["log"]))
    rec.nontrivial(n > 1)
    rec.label("log" if case["log"] else "linear")


# -- natural_sort ----------------------------------------------------------------------

piece = st.one_of(
    st.integers(0, 120).map(str), st.sampled_from(["a", "A", "b", "B", "_", " ", ".", "-", "img", "IMG", "Z", "007", "00", "9" * 20, "é"])
)
sort_cases = st.lists(
    st.one_of(st.lists(piece, min_size=0, max_size=4).map("".join), st.text("aAbB01 9", max_size=6)), max_size=9
)


def key(s):
    """Alternating text and number, text first."""
    out, cur, digits = [], "", False
    for ch in s:
        if (ch in "0123456789") != digits:
            out.append(cur)
            cur, digits = "", not digits
        cur += ch
    out.append(cur)
    return [int(t) if i % 2 else t.lower() for i, t in enumerate(out)] + ([""] if len(out) % 2 == 0 else [])


def check_sort(case, rec):
    from petrofit.utils import natural_sort

    given = list(case)
    got = natural_sort(given)
    need(given == list(case), "natural_sort changed its input")
    need(isinstance(got, list) and got is not given, "natural_sort returned %r", type(got))
    want = [case[i] for i in sorted(range(len(case)), key=lambda i: (key(case[i]), i))]
    need(got == want, "sorted %s, expected %s", got, want)
    need(natural_sort(tuple(case)) == want, "sorting a tuple")
    rec.nontrivial(want != sorted(case) and len(case) > 1)


# -- cutout_subtract ----------------------------------------------------------------------


@st.composite
def cutout_cases(draw, top=12):
    nx, ny = draw(st.integers(1, top)), draw(st.integers(1, top))
    side = st.one_of(st.integers(1, 5), st.integers(1, top + 2))
    kx, ky = draw(side), draw(side)
    along = lambda n: st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(-6, n + 6))
    return {
        "size": [nx, ny], "cut": [kx, ky],
        "at": [draw(along(nx)), draw(along(ny))],
        "dtype": draw(st.sampled_from(["f8", "f8", "f4", "int", "int-from", ">f8"])),
        "seed": draw(seeds), "np": draw(st.booleans()), "order": draw(st.booleans()),
    }


def check_cutout(case, rec):
    from petrofit.utils import cutout_subtract

    nx, ny = case["size"]
    kx, ky = case["cut"]
    x, y = case["at"]
    rng = np.random.RandomState(case["seed"] % 2**31)
    img = np.round(rng.uniform(-50, 50, (ny, nx)), 1)
    cut = np.round(rng.uniform(1, 9, (ky, kx)), 1)
    d = case["dtype"]
    if d == "int":
        img, cut = np.round(img).astype(int), np.round(cut).astype(int)
    elif d == "int-from":
        cut = np.round(cut).astype(int)
    else:
        img, cut = img.astype(d), cut.astype(d)
    if case["order"]:
        img, cut = np.asfortranarray(img), cut[:, ::-1].copy()[:, ::-1]
    frozen = Frozen(image=img, target=cut)
    at = (np.int64(x), np.int64(y)) if case["np"] else (x, y)
    got = cutout_subtract(img, cut, *at)
    frozen.check("cutout_subtract")
    need(got is not img and not np.shares_memory(got, img), "cutout_subtract did not return a copy")
    want = np.array(img, float)
    hit = 0
    for j in range(ky):
        for i in range(kx):
            jj, ii = y - ky // 2 + j, x - kx // 2 + i
            if 0 <= jj < ny and 0 <= ii < nx:
                want[jj, ii] -= cut[j, i]
                hit += 1
    close(got, want, 1e-6 if d == "f4" else 1e-12, 1e-5 if d == "f4" else 1e-12, "image minus cutout")
    need(got.dtype == img.dtype, "type %s, image has %s", got.dtype, img.dtype)
    rec.nontrivial(0 < hit < kx * ky)
    rec.label("outside" if hit == 0 else "crossing" if hit < kx * ky else "inside")


# -- match_catalogs -------------------------------------------------------------------------


@st.composite
def match_cases(draw, top=6):
    n, k = draw(st.integers(1, top)), draw(st.integers(1, top + 2))
    ra = st.one_of(fl(0, 360), st.sampled_from([0.0, 359.99, 0.01, 180.0]))
    dec = st.one_of(fl(-90, 90), st.sampled_from([89.9, -89.9, 0.0]))
    centre = draw(st.one_of(st.none(), st.tuples(ra, fl(-89, 89))))
    if centre:
        ra = fl(-0.5, 0.5).map(lambda v: (centre[0] + v) % 360)
        dec = fl(-0.5, 0.5).map(lambda v: centre[1] + v)
    two = lambda m: [draw(st.lists(ra, min_size=m, max_size=m)), draw(st.lists(dec, min_size=m, max_size=m))]
    return {"one": two(n), "two": two(k), "unit": draw(st.sampled_from([None, "deg", "rad", "hour"])), "form": draw(st.sampled_from(["array", "list", "column"]))}


def check_match(case, rec):
    from petrofit.utils import match_catalogs

    (r1, d1), (r2, d2) = np.array(case["one"]), np.array(case["two"])
    unit = case["unit"]
    kw, fr, fd = {}, 1.0, 1.0
    if unit == "deg":
        kw["unit"] = "deg"
    elif unit == "rad":
        kw["unit"] = "rad"
        fr = fd = math.pi / 180
    elif unit == "hour":
        kw["unit"] = ("hourangle", "deg")
        fr = 1 / 15.0
    args = [wrap(v, case["form"]) for v in (r1 * fr, d1 * fd, r2 * fr, d2 * fd)]
    frozen = Frozen(**dict(zip("abcd", args)))
    out = match_catalogs(*args, **kw)
    frozen.check("match_catalogs")
    idx, sep = np.asarray(out[0]), out[1].to_value("deg")
    need(idx.shape == r1.shape, "matches %s", idx)

    def unit_vec(r, d):
        r, d = np.deg2rad(r), np.deg2rad(d)
        return np.stack([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)], axis=-1)

    a, b = unit_vec(r1, d1)[:, None, :], unit_vec(r2, d2)[None, :, :]
    dist = 2 * np.rad2deg(np.arcsin(np.clip(np.linalg.norm(a - b, axis=-1) / 2, 0, 1)))
    for i in range(len(r1)):
        j = int(idx[i])
        need(0 <= j < len(r2), "match %r of %d", j, len(r2))
        close(sep[i], dist[i, j], 1e-6, 1e-7, "separation of the match")
        need(dist[i, j] <= dist[i].min() + 1e-6 + 1e-6 * dist[i].min(), "row %d matches %d at %r deg, %d is at %r", i, j, dist[i, j], dist[i].argmin(), dist[i].min())
    rec.nontrivial(len(r2) > 1)
    rec.label(str(unit))


@st.composite
def long_index(draw):
    """An array of hundreds of values, from a seed."""
    n = draw(st.integers(100, 6000))
    return {
        "long": [n, draw(seeds)], "order": draw(st.sampled_from(["any", "up", "down", "down"])),
        "array": [], "value": draw(rnd(-1.2, 1.2)), "growing": draw(st.sampled_from([None, False, True, True])),
        "form": draw(st.sampled_from(["array", "column", "big_endian", "strided", "f4"])),
    }


def check_long_index(case, rec):
    n, seed = case["long"]
    arr = np.random.RandomState(seed % 2**31).uniform(-1, 1, n)
    if case["order"] != "any":
        arr = np.sort(arr)[:: 1 if case["order"] == "up" else -1]
    check_index(dict(case, array=arr.tolist()), rec)


@st.composite
def long_interp(draw):
    return dict(draw(interp_cases(4)), long=draw(st.one_of(st.integers(60, 800), st.integers(4990, 5600))))


def check_long_interp(case, rec):
    n = case["long"]
    rng = np.random.RandomState(case["seed"] % 2**31)
    x = np.arange(n) * 0.5 if case["even"] else np.cumsum(np.round(rng.uniform(0.2, 3, n), 3))
    y = np.round(rng.uniform(-5, 5, n), 3)
    check_interp(dict(case, x=x.tolist(), y=y.tolist()), rec)


def large_cutout():
    return cutout_cases(90)


def large_match():
    return match_cases(80)


SUBS = [
    Sub("long_index", long_index, check_long_index, 200, 3000, "the first crossing is not the first value"),
    Sub("long_interp", long_interp, check_long_interp, 16, 300, "more than two points, interpolated"),
    Sub("large_cutout", large_cutout, check_cutout, 40, 600, "the cutout crosses an edge of the image"),
    Sub("large_match", large_match, check_match, 20, 300, "more than one candidate"),
    Sub("closest_index", index_cases, check_index, 6000, 80000, "the first crossing is not the first value"),
    Sub("interpolation", interp_cases, check_interp, 3000, 40000, "more than two points, interpolated"),
    Sub("radius_list", lambda: radius_cases, check_radius, 1500, 15000, "more than one radius"),
    Sub("natural_sort", lambda: sort_cases, check_sort, 5000, 60000, "the order differs from plain sorting"),
    Sub("cutout", cutout_cases, check_cutout, 4000, 50000, "the cutout crosses an edge of the image"),
    Sub("match", match_cases, check_match, 800, 8000, "more than one candidate"),
]
