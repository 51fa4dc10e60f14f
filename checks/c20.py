"""C20: lookups in a correction grid."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt import sersic as S
from pbt.core import Sub
from pbt.util import Frozen, close, fl, need, raises, rnd, same

ASSUMPTIONS = [
    "The measured quantities themselves (r_petrosian, r_50, C2080) are checked by C02 and C03; here they are read from Petrosian objects.",
    "Grids have at least two rows and some spread in every looked-up column; rows within rounding of equally near are both accepted.",
    "Objects whose measured radii are undefined (NaN) are only required to be refused when range enforcement is on.",
]
SPREAD = ["p02", "u_r_50", "u_c2080"]


@st.composite
def profiles(draw):
    return {
        "n": draw(rnd(0.5, 4)), "re": draw(rnd(2, 30)), "amp": draw(rnd(0.1, 50)),
        "elong": draw(rnd(1, 4)), "steps": draw(st.integers(20, 60)), "reach": draw(rnd(9, 20)),
        "err": draw(st.booleans()),
    }


def make_profile(s, **kw):
    from petrofit.petrosian import Petrosian

    r = np.linspace(s["re"] * s["reach"] / s["steps"], s["re"] * s["reach"], s["steps"])
    flux = S.enclosed(r, s["amp"], s["re"], s["n"]) / s["elong"]
    if s["err"]:
        kw["flux_err"] = 0.002 * flux[-1] * np.ones_like(r)
    return Petrosian(r, np.pi * r**2 / s["elong"], flux, **kw)


factor = st.one_of(st.sampled_from([1.0, 1.0, 0.9, 1.1, 0.99, 1.01]), rnd(0.3, 2.5))


@st.composite
def cases(draw, low=2, top=9):
    k = draw(st.integers(low, top))
    eps_frac = draw(st.sampled_from([0.99, 0.99, 0.8, 0.5]))
    default = {0.99: 2.0, 0.8: 1.0, 0.5: 0.4}[eps_frac]
    near = st.lists(st.tuples(factor, factor, factor), min_size=k, max_size=k)
    return {
        "profile": draw(profiles()),
        "rows": draw(near),
        "wide": draw(st.booleans()),
        "order": draw(st.integers(0, 10**6)),
        "eta": draw(st.sampled_from([0.2, 0.2, 0.3, 0.4, 0.5])),
        "eps": draw(st.one_of(st.just(default), st.just(default), rnd(0.7, 1.2).map(lambda f: f * default))),
        "eps_frac": eps_frac,
        "total": draw(st.sampled_from([0.99, 0.9])),
        "kind": draw(st.sampled_from(["cubic", "cubic", "linear", "quadratic", None])),
        "num": draw(st.sampled_from([5000, 500, 1000])),
        "enforce": draw(st.sampled_from([None, True, True, False, False])),
        "bad": draw(st.sampled_from([None] * 6 + ["eta", "fraction"])),
        "bad_value": draw(st.sampled_from([0.25, 0.1, 0.6, 0.21, 1.0])),
        "dtype": draw(st.sampled_from(["f8", "f8", "f4", "int"])),
        "nan": draw(st.integers(0, 15)) == 0,
    }


def measured(p):
    from petrofit.petrosian import Petrosian

    q = Petrosian(p.r_list, p.area_list, p.flux_list, eta=0.2)
    return [float(q.r_petrosian), float(p.r_50), float(p.c2080)]


def make_grid(case, at):
    """Rows at the given factors of the measured values, plus results which
    differ from row to row."""
    from astropy.table import Table

    rng = np.random.RandomState(case["order"])
    rows = [tuple(f) for f in case["rows"]]
    if case["wide"]:
        rows += [(0.2, 0.2, 0.2), (3.0, 3.0, 3.0)]
    rows = [rows[i] for i in rng.permutation(len(rows))]
    xyz = np.array(rows) * np.array(at)
    k = len(rows)
    if case["dtype"] == "int":
        xyz = np.ceil(xyz * 4).astype(int)
    elif case["dtype"] == "f4":
        xyz = xyz.astype(np.float32)
    t = Table()
    t["n"] = np.round(rng.uniform(0.3, 8, k), 3)
    t["r_eff"] = rng.randint(1, 4, k)
    for c, name in enumerate(SPREAD):
        t[name] = xyz[:, c]
    for name in ("p03", "p04", "p05", "c_r_50", "c_r_80", "c_r_99", "c_epsilon", "c_epsilon_50", "c_epsilon_80", "u_r_80", "u_r_99"):
        t[name] = np.round(rng.uniform(1, 90, k), 4)
    return t


def nearest(t, x):
    """Indices of the rows which may count as nearest."""
    d = 0.0
    for name, v in zip(SPREAD, x):
        col = np.array(t[name], dtype=float)
        d = d + ((col - v) / col.std()) ** 2
    return np.flatnonzero(d <= d.min() * (1 + 1e-5) + 1e-9)


def settings_of(p):
    return [p.eta, p.epsilon_fraction, p.total_flux_fraction, p.interp_kind, p.interp_num]


def arrays_of(p):
    return [p.r_list, p.area_list, p.flux_list, p.flux_err, p.area_err, p.petrosian_list, p.petrosian_err]


def check(case, rec):
    from petrofit.petrosian import Petrosian, PetrosianCorrection

    kw = dict(
        eta=case["eta"], epsilon=case["eps"], epsilon_fraction=case["eps_frac"],
        total_flux_fraction=case["total"], interp_kind=case["kind"], interp_num=case["num"],
    )
    p = make_profile(case["profile"], **kw)
    at = measured(p)
    base = at if np.all(np.isfinite(at)) else [10.0, 5.0, 3.0]
    t = make_grid(case, base)
    if any(np.array(t[c], float).std() <= 1e-6 * np.abs(np.array(t[c], float)).max() for c in SPREAD):
        return
    if case["nan"]:
        p.epsilon = 1e3  # r_epsilon beyond the data: radii are undefined
        at = measured(p)
    if case["bad"] == "eta":
        p.eta = case["bad_value"]
        at = measured(p)
    elif case["bad"] == "fraction":
        p.epsilon_fraction = case["bad_value"]
        at = measured(p)
    frozen_t = Frozen(grid=t)
    before = (settings_of(p), float(p.epsilon), [None if a is None else np.array(a) for a in arrays_of(p)])
    enforce = case["enforce"]
    pc = PetrosianCorrection(t) if enforce is None else PetrosianCorrection(t, enforce_range=enforce)
    inside, edge = True, False
    for name, v in zip(SPREAD, at):
        col = np.array(t[name], dtype=float)
        inside = inside and bool(col.min() <= v <= col.max())
        edge = edge or v in (col.min(), col.max())
    finite = bool(np.all(np.isfinite(at)))
    calls = [pc.estimate_epsilon, pc.correct]
    if enforce is not False and not inside:
        rec.label("outside, refused" if finite else "undefined, refused")
        rec.nontrivial(finite)
        for f in calls + [pc.estimate_n]:
            raises(lambda: f(p), "%s of a measurement outside the grid" % f.__name__)
    elif not finite:
        rec.label("undefined")
        return
    elif case["bad"]:
        rec.label("bad " + case["bad"])
        for f in calls:
            raises(lambda: f(p), "%s with %s=%r" % (f.__name__, case["bad"], case["bad_value"]))
    else:
        rec.label("inside" if inside else "outside, nearest", *(["edge"] if edge else []))
        rec.nontrivial(len(t) > 2)
        rows = nearest(t, at)
        if len(rows) > 1:
            rec.label("tie")
        col = {0.5: "c_r_50", 0.8: "c_r_80", 0.99: "c_r_99"}[case["eps_frac"]]
        eta_col = "p0%d" % round(case["eta"] * 10)
        rec.label(col, eta_col)
        eps = float(pc.estimate_epsilon(p))
        want = [float(t[col][i]) / float(t[eta_col][i]) for i in rows]
        need(any(abs(eps - w) <= 1e-6 * w for w in want), "epsilon %r, expected %s (row %s)", eps, want[:3], rows[:3])
        n = float(pc.estimate_n(p))
        need(any(n == float(t["n"][i]) for i in rows), "n %r, expected %s", n, [float(t["n"][i]) for i in rows[:3]])
        c = pc.correct(p)
        need(type(c) is Petrosian and c is not p, "corrected object is %r", c)
        close(c.epsilon, eps, 1e-12, what="epsilon of the corrected object")
        need(settings_of(c) == before[0], "corrected object has settings %s, given %s", settings_of(c), before[0])
        for a, b in zip(arrays_of(c), before[2]):
            need((a is None) == (b is None), "arrays of the corrected object")
            if a is not None:
                same(a, b, "array of the corrected object")
        # its results are those of a new object with that epsilon
        fresh = make_profile(case["profile"], **dict(kw, epsilon=eps))
        for name in ("r_petrosian", "r_total_flux", "r_half_light", "c2080", "total_flux", "r_half_light_err"):
            close(getattr(c, name), getattr(fresh, name), 1e-12, what="%s of the corrected object" % name)
        # a corrected object can be read again: same answer from the same input
        close(float(pc.estimate_epsilon(p)), eps, 0, what="epsilon when asked again")
    need(settings_of(p) == before[0] and float(p.epsilon) == before[1], "settings of the object given changed")
    for a, b in zip(arrays_of(p), before[2]):
        if a is not None:
            same(a, b, "array of the object given")
    frozen_t.check("correction")
    same(np.array(pc.grid["n"]), np.array(t["n"]), "grid")


# -- several objects, one correction ----


@st.composite
def turn_cases(draw):
    base = draw(profiles())
    things = [base]
    for _ in range(draw(st.integers(1, 4))):
        s = dict(draw(st.sampled_from(things)))
        how = draw(st.sampled_from(["n", "re", "amp", "both", "new"]))
        if how in ("n", "both"):
            s["n"] = draw(rnd(0.5, 4))
        if how in ("re", "both"):
            s["re"] = round(s["re"] * draw(rnd(0.9, 1.1)), 4)
        if how == "amp":
            s["amp"] = draw(rnd(0.1, 50))
        if how == "new":
            s = draw(profiles())
        things.append(s)
    k = draw(st.integers(2, 6))
    ask = st.fixed_dictionaries({
        "who": st.integers(0, 4), "eta": st.sampled_from([0.2, 0.2, 0.3, 0.4, 0.5]), "eps_frac": st.sampled_from([0.99, 0.99, 0.8, 0.5]),
        "what": st.sampled_from(["estimate_n", "estimate_epsilon", "correct", "plot"]),
    })
    return {
        "things": things,
        # like: which object the row resembles
        "rows": draw(st.lists(st.tuples(st.integers(0, 4), factor, factor, factor), min_size=k, max_size=k)),
        "seed": draw(st.integers(0, 10**6)),
        "enforce": draw(st.booleans()),
        # how many of the objects have a row of their own
        "known": draw(st.integers(1, 5)),
        "asks": draw(st.lists(ask, min_size=2, max_size=8)),
    }


def check_turns(case, rec):
    import matplotlib.pyplot as plt
    from astropy.table import Table

    from petrofit.petrosian import PetrosianCorrection

    objects = [make_profile(s) for s in case["things"]]
    default = {0.99: 2.0, 0.8: 1.0, 0.5: 0.4}
    at = [measured(p) for p in objects]
    if not np.all(np.isfinite(at)):
        return
    rng = np.random.RandomState(case["seed"])
    # the rows resemble the objects
    rows = [np.array(at[i % len(at)]) * f for i, *f in case["rows"]] + [np.array(a) for a in at[: case["known"]]]
    rows = np.array(rows)[rng.permutation(len(rows))]
    if np.any(rows.std(axis=0) <= 1e-6 * np.abs(rows).max(axis=0)):
        return
    t = Table()
    t["n"] = np.round(rng.uniform(0.3, 8, len(rows)), 3)
    for c, name in enumerate(SPREAD):
        t[name] = rows[:, c]
    for name in ("p03", "p04", "p05", "c_r_50", "c_r_80", "c_r_99"):
        t[name] = np.round(rng.uniform(1, 90, len(rows)), 4)
    pc = PetrosianCorrection(t, enforce_range=case["enforce"])
    found = set()
    refused = 0
    for ask in case["asks"]:
        p = objects[ask["who"] % len(objects)]
        p.eta, p.epsilon_fraction = ask["eta"], ask["eps_frac"]
        p.epsilon = default[ask["eps_frac"]]
        x = measured(p)
        if not np.all(np.isfinite(x)):
            continue
        what = ask["what"]
        if case["enforce"] and any(not t[c].min() <= v <= t[c].max() for c, v in zip(SPREAD, x)):
            if what != "plot":
                raises(lambda: getattr(pc, what)(p), "%s of a measurement outside the grid, after other objects" % what)
            refused += 1
            continue
        near = nearest(t, x)
        found.add(int(near[0]))
        if what == "plot":
            pc.plot_correction(p)
            plt.close("all")
        elif what == "estimate_n":
            n = float(pc.estimate_n(p))
            need(any(n == float(t["n"][i]) for i in near), "n %r after other objects, expected %s", n, [float(t["n"][i]) for i in near[:3]])
        else:
            got = float(pc.estimate_epsilon(p) if what == "estimate_epsilon" else pc.correct(p).epsilon)
            col = {0.5: "c_r_50", 0.8: "c_r_80", 0.99: "c_r_99"}[ask["eps_frac"]]
            want = [float(t[col][i]) / float(t["p0%d" % round(ask["eta"] * 10)][i]) for i in near]
            need(any(abs(got - w) <= 1e-6 * w for w in want), "epsilon %r after other objects, expected %s", got, want[:3])
    rec.nontrivial(len(found) > 1 or (found and refused))
    if found and refused:
        rec.label("some refused")


# -- grid listing, filtering, files -------------------------------------------


@st.composite
def grid_cases(draw):
    k = draw(st.integers(1, 8))
    return {
        "n": draw(st.lists(st.sampled_from([0.5, 1.0, 1.5, 2.25, 4.0]), min_size=k, max_size=k)),
        "re": draw(st.lists(st.one_of(st.integers(1, 5), rnd(1, 5)), min_size=k, max_size=k)),
        "x": draw(st.lists(fl(1, 100), min_size=k, max_size=k)),
        "key": draw(st.sampled_from(["n", "r_eff", "p02", "note"])),
        "value": draw(st.integers(0, 9)),
        "format": draw(st.sampled_from(["csv", "ecsv", "ascii.ecsv", "ascii.csv"])),
        "exists": draw(st.booleans()),
        "int": draw(st.booleans()),
    }


def check_grid(case, rec):
    from astropy.table import Table

    from petrofit.petrosian import PetrosianCorrection

    k = len(case["n"])
    t = Table()
    t["n"] = case["n"]
    t["r_eff"] = [int(v) for v in case["re"]] if case["int"] else [float(v) for v in case["re"]]
    t["p02"] = case["x"]
    t["u_r_50"] = np.array(case["x"]) * 0.4
    t["u_c2080"] = np.linspace(1, 5, k)
    t["note"] = [float(i % 3) for i in range(k)]
    frozen = Frozen(grid=t)
    pc = PetrosianCorrection(t)
    need(pc.enforce_range is True, "range enforcement is not the default")
    need(list(pc.grid_keys) == ["n", "r_eff", "p02", "u_r_50", "u_c2080", "note"], "grid_keys %s", pc.grid_keys)
    key = case["key"]
    values = [float(v) for v in t[key]]
    same(np.asarray(pc.unique_grid_values(key), float), np.array(sorted(set(values))), "unique values of %s" % key)
    value = values[case["value"] % k] if case["value"] < 8 else 77.5
    got = pc.filter_grid(key, value)
    idx = [i for i, v in enumerate(values) if v == value]
    need(isinstance(got, Table) and list(got.colnames) == list(t.colnames), "filtered grid %r", got)
    for c in t.colnames:
        same(np.array(got[c]), np.array(t[c])[idx], "column %s of the filtered grid" % c)
    rec.nontrivial(0 < len(idx) < k)
    rec.label(case["format"], "match" if idx else "no match")
    tmp = tempfile.mkdtemp(prefix="c20-")
    try:
        fmt = case["format"]
        name = os.path.join(tmp, "g." + (fmt if "." not in fmt else "dat"))
        arg = {} if "." not in fmt else {"file_format": fmt}
        if case["exists"]:
            with open(name, "w") as f:
                f.write("old\n1\n")
            raises(lambda: pc.write(name, **arg), "writing over an existing file")
            need(open(name).read() == "old\n1\n", "an existing file was overwritten")
        else:
            pc.write(name, **arg)
            back = PetrosianCorrection.read(name, **arg)
            need(type(back) is PetrosianCorrection and back.enforce_range is True, "read returned %r", back)
            need(list(back.grid_keys) == list(t.colnames), "columns read back %s", back.grid_keys)
            for c in t.colnames:
                same(np.array(back.grid[c], float), np.array(t[c], float), "column %s read back" % c)
            raises(lambda: PetrosianCorrection(name), "a file name as grid", TypeError)
    finally:
        shutil.rmtree(tmp)
    for bad in ([1, 2], None, np.ones(3), {"p02": [1.0]}):
        raises(lambda: PetrosianCorrection(bad), "%r as grid" % (bad,), TypeError)
    frozen.check("grid listing")


def large_cases():
    return cases(30, 150)


SUBS = [
    Sub("large", large_cases, check, 30, 400, "more than two rows, or a refused measurement"),
    Sub("lookup", cases, check, 1600, 24000, "more than two rows, or a refused measurement"),
    Sub("turns", turn_cases, check_turns, 400, 5000, "different rows are nearest to the objects asked about, or some are refused"),
    Sub("grid", grid_cases, check_grid, 400, 4000, "the filter keeps some but not all rows"),
]
