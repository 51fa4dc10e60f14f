"""C04: results of a Petrosian object depend on its current settings only."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import petro
from pbt.core import Sub
from pbt.util import Frozen, fl, need, same

ASSUMPTIONS = ["Results of equal computations are bit-for-bit equal."]

RESULTS = [
    "r_petrosian", "r_petrosian_err", "r_epsilon", "r_epsilon_in_range",
    "r_total_flux", "r_total_flux_err", "total_flux", "r_half_light",
    "r_half_light_err", "half_flux", "r_50", "c2080", "c5090",
    "total_flux_err", "half_flux_err",
]
SETTINGS = ["eta", "epsilon", "epsilon_fraction", "total_flux_fraction"]

values = {
    "eta": st.one_of(st.sampled_from([0.2, 0.3, 0.4, 0.5]), fl(0.05, 0.9)),
    "epsilon": st.one_of(st.sampled_from([2.0, 1.0, 0.5]), fl(0.2, 4)),
    "epsilon_fraction": st.sampled_from([0.99, 0.8, 0.5, 0.9]),
    "total_flux_fraction": st.sampled_from([0.99, 0.9, 0.8, 0.5]),
    "interp_kind": st.sampled_from(["cubic", "linear", "nearest", None]),
    "interp_num": st.sampled_from([100, 37, 300]),
}


@st.composite
def cases(draw, long=False):
    r = draw(petro.long_radii(11, 400) if long else petro.radii(lo=5, hi=10))
    n = len(r)
    flux = draw(petro.growth_curves(n, noisy=False))
    objs = st.integers(0, 3)
    n_ops = draw(st.integers(3, 9))
    ops = []
    for _ in range(n_ops):
        kind = draw(
            st.sampled_from(
                ["set", "set", "set", "set", "read", "copy", "deepcopy", "correct",
                 "plot", "plot_cog", "imshow", "ci", "fraction", "new", "estimate"]
            )
        )
        op = {"op": kind, "i": draw(objs)}
        if kind == "set":
            op["name"] = draw(st.sampled_from(sorted(values)))
            op["value"] = draw(values[op["name"]])
        elif kind == "read":
            op["name"] = draw(st.sampled_from(RESULTS))
        elif kind in ("ci", "fraction"):
            op["f"] = draw(st.sampled_from([0.2, 0.5, 0.8, 0.95]))
        elif kind == "new":
            op["args"] = {k: draw(values[k]) for k in SETTINGS}
            op["scribble"] = draw(st.booleans())
            op["variant"] = draw(st.integers(0, 3))
            op["keep"] = draw(st.integers(0, 2)) > 0
        elif kind in ("plot", "plot_cog"):
            op["plot_r"] = draw(st.booleans())
        ops.append(op)
    return {
        "r": r,
        "flux": flux,
        "elong": draw(st.sampled_from([1.0, 2.0])),
        "err": draw(st.one_of(st.none(), fl(0.01, 1))),
        "area_err": draw(st.one_of(st.none(), fl(0.01, 1))),
        "ops": ops,
        "grid_seed": draw(st.integers(0, 20)),
    }


def make_grid_table(seed, r, with_p):
    """Small synthetic correction grid around a measured profile."""
    from astropy.table import Table

    rng = np.random.RandomState(seed)
    m = 6
    x0 = with_p if np.isfinite(with_p) and with_p > 0 else 5.0
    cols = {
        "n": rng.uniform(0.5, 4, m), "r_eff": rng.uniform(2, 20, m),
        "p02": x0 * rng.uniform(0.3, 2, m), "p03": x0 * rng.uniform(0.3, 1, m),
        "p04": x0 * rng.uniform(0.3, 0.9, m), "p05": x0 * rng.uniform(0.3, 0.8, m),
        "u_r_50": x0 * rng.uniform(0.1, 1, m), "u_c2080": rng.uniform(2, 5, m),
        "c_r_50": x0 * rng.uniform(0.2, 1, m), "c_r_80": x0 * rng.uniform(0.5, 2, m),
        "c_r_99": x0 * rng.uniform(1, 4, m),
    }
    return Table(cols)


def snapshot(p):
    return {name: getattr(p, name) for name in RESULTS}


def compare(p, state, data, what):
    from petrofit.petrosian import Petrosian

    fresh = Petrosian(*data["pos"], **data["kw"], **state)
    for k in SETTINGS + ["interp_kind", "interp_num"]:
        got = getattr(p, k)
        need(got is state[k] or got == state[k], "%s: setting %s is %r, last set to %r", what, k, got, state[k])
    want = snapshot(fresh)
    for name in RESULTS:
        same(getattr(p, name), want[name], "%s: %s" % (what, name))
    same(p.concentration_index(0.3, 0.6), fresh.concentration_index(0.3, 0.6), what + ": concentration_index")
    same(p.fraction_flux_to_r(0.7), fresh.fraction_flux_to_r(0.7), what + ": fraction_flux_to_r")
    for name in ("petrosian_list", "petrosian_err", "r_list", "area_list", "flux_list", "flux_err", "area_err"):
        a, b = getattr(p, name), getattr(fresh, name)
        need((a is None) == (b is None), "%s: %s", what, name)
        if a is not None:
            same(a, b, "%s: %s" % (what, name))


def check_history(case, rec):
    from matplotlib import pyplot as plt
    from petrofit.petrosian import Petrosian, PetrosianCorrection

    r = np.array(case["r"])
    n = len(r)
    area = np.pi * r**2 / case["elong"]
    flux = np.array(case["flux"])
    kw = {
        "flux_err": None if case["err"] is None else case["err"] * np.sqrt(1 + np.arange(n)),
        "area_err": None if case["area_err"] is None else np.full(n, case["area_err"]),
    }
    data = {"pos": (r, area, flux), "kw": kw}
    frozen = Frozen(r=r, area=area, flux=flux, **{k: v for k, v in kw.items() if v is not None})
    state0 = dict(eta=0.2, epsilon=2.0, epsilon_fraction=0.99, total_flux_fraction=0.99,
                  interp_kind="cubic", interp_num=100)
    # the references below hold their own copies of the data
    data = {
        "pos": tuple(a.copy() for a in (r, area, flux)),
        "kw": {k: None if v is None else v.copy() for k, v in kw.items()},
    }
    live = [(Petrosian(r, area, flux, **kw, **state0), dict(state0), data)]
    grid = PetrosianCorrection(make_grid_table(case["grid_seed"], r, float(live[0][0].r_petrosian)), enforce_range=False)
    sets = 0
    for op in case["ops"]:
        p, state, data = live[op["i"] % len(live)]
        kind = op["op"]
        what = "after %s" % kind
        if kind == "set":
            setattr(p, op["name"], op["value"])
            state[op["name"]] = op["value"]
            sets += 1
            what += " " + op["name"]
        elif kind == "read":
            getattr(p, op["name"])
        elif kind in ("copy", "deepcopy"):
            q = getattr(copy, kind)(p)
            live.append((q, dict(state), data))
            compare(q, state, data, "the new copy")
        elif kind == "new":
            st2 = dict(state0, **op["args"])
            own = [a.copy() for a in (r, area, flux)]
            errs = {k: None if v is None else v.copy() for k, v in kw.items()}
            if op["variant"] == 1:
                # another galaxy of equal length, radii and total flux
                own[2] = own[2][-1] * (own[0] / own[0][-1]) ** 0.6
            elif op["variant"] == 2:
                own[0], own[1] = own[0] * 2, own[1] * 4
            elif op["variant"] == 3:
                own = [a[:-1].copy() for a in own]
                errs = {k: None if v is None else v[:-1].copy() for k, v in errs.items()}
            data2 = {
                "pos": tuple(a.copy() for a in own), "kw": {k: None if v is None else v.copy() for k, v in errs.items()},
            }
            q = Petrosian(*own, **errs, **st2)
            if op["keep"]:
                live.append((q, st2, data2))
            else:
                # measured and forgotten
                compare(q, st2, data2, "a new object")
            if op["scribble"]:
                # what happens to the caller's arrays afterwards is not the object's affair
                for a in own + [v for v in errs.values() if v is not None]:
                    a[:] = a[::-1] * 3 + 1
        elif kind in ("correct", "estimate"):
            ok = state["eta"] in (0.2, 0.3, 0.4, 0.5) and state["epsilon_fraction"] in (0.5, 0.8, 0.99)
            usable = all(np.isfinite(v) for v in (p.r_50, p.c2080))
            if ok and usable:
                if kind == "correct":
                    q = grid.correct(p)
                    st2 = dict(state, epsilon=grid.estimate_epsilon(p))
                    live.append((q, st2, data))
                    compare(q, st2, data, "the corrected object")
                    rec.label("corrected")
                else:
                    grid.estimate_n(p)
        elif kind in ("plot", "plot_cog"):
            getattr(p, kind)(plot_r=op["plot_r"])
            plt.close("all")
        elif kind == "imshow":
            p.imshow()
            plt.close("all")
        elif kind == "ci":
            p.concentration_index(op["f"], 0.9)
        elif kind == "fraction":
            p.fraction_flux_to_r(op["f"]), p.fraction_flux_to_r_err(op["f"])
        rec.label(kind)
        compare(p, state, data, what)
        frozen.check(what)
    for k, (p, state, data) in enumerate(live):
        compare(p, state, data, "object %d at the end" % k)
    rec.nontrivial(sets >= 1 and len(case["ops"]) >= 3)


SUBS = [
    Sub("long", lambda: cases(True), check_history, 24, 400,
        "at least three operations, one of them a change of a setting"),
    Sub("history", cases, check_history, 480, 8000,
        "at least three operations, one of them a change of a setting"),
]
