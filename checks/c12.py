"""C12: histories of operations on PSF-convolved models."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import psfref
from pbt.core import Sub
from pbt.imgmodels import build, model_specs
from pbt.util import Frozen, close, need, origins, raises, rnd, same, seeds
from checks.c11 import make_psf

ASSUMPTIONS = [
    "psf_oversample is removed before the PSF is: a PSF resolution without a PSF is not a documented state.",
    "tied constraints are not part of the guarantee (only parameters, fixed flags and bounds are mirrored).",
]

XNAME = {"sersic": "x_0", "gauss": "x_mean", "compound": "x_0_0"}
YNAME = {"sersic": "y_0", "gauss": "y_mean", "compound": "y_0_0"}
AMP = {"sersic": "amplitude", "gauss": "amplitude", "compound": "amplitude_0"}

# (value, accepted by type and shape, factor)
def over_values():
    k = st.integers(1, 6)
    xy = st.one_of(st.integers(-2, 14), st.sampled_from(["@x", "@y"]))
    return st.one_of(
        st.none(),
        k,
        st.tuples(xy, xy, st.integers(1, 8), k).map(list),
        st.sampled_from([0, -2, 1.5, "abc", [1, 2, 3], [1, 2, 3, 4, 5], [4, 4, 3.0, 2], [4, 4, 3, 2.0], [4, 4, 3, 0], [4, 4, 3, -1]]),
    )


@st.composite
def op(draw):
    kind = draw(
        st.sampled_from(
            ["eval"] * 5
            + ["param", "param", "params", "psf", "oversample", "oversample", "psf_oversample", "cache", "clear", "copy", "switch"]
            + ["fixed", "bounds", "model", "spoil", "badwrap", "spoilimage", "other"]
        )
    )
    o = {"op": kind}
    if kind == "eval":
        # one of the few images of this history, so that grids are met again
        o["view"] = draw(st.integers(0, 7))
        o["how"] = draw(st.sampled_from(["grid", "image", "pixels"]))
        o["pick"] = draw(st.lists(st.integers(0, 143), min_size=1, max_size=8))
    elif kind == "param":
        o["which"] = draw(st.sampled_from(["x", "y", "amp", "psf_pa"]))
        o["value"] = draw(rnd(0, 12))
        o["via"] = draw(st.sampled_from(["attr", "value"]))
    elif kind == "params":
        o["scale"] = draw(rnd(0.5, 1.5))
        o["pa"] = draw(st.sampled_from([0.0, 90.0, 30.0]))
    elif kind == "psf":
        shape = [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
        o["psf"] = draw(
            st.one_of(
                st.none(),
                st.fixed_dictionaries(
                    {"shape": st.just(shape), "kind": st.sampled_from(["random", "gauss"]), "seed": seeds,
                     "norm": st.just(1.0), "dtype": st.just("float64"), "fortran": st.just(False)}
                ),
            )
        )
    elif kind == "oversample":
        o["value"] = draw(over_values())
    elif kind == "psf_oversample":
        o["value"] = draw(st.one_of(st.none(), st.integers(1, 4), st.sampled_from([0, -1, 1.5, "2", [2]])))
    elif kind == "cache":
        o["value"] = draw(st.sampled_from([True, False, True, False, "yes", 2, None]))
    elif kind == "copy":
        o["via"] = draw(st.sampled_from(["copy", "deepcopy"]))
    elif kind == "other":
        # another wrapped model is used in between
        o["view"] = draw(st.integers(0, 7))
        o["factor"] = draw(st.sampled_from([None, 1, 2, 3]))
    elif kind == "switch":
        o["to"] = draw(st.integers(0, 3))
    elif kind == "fixed":
        o["which"] = draw(st.sampled_from(["x", "y", "amp", "psf_pa"]))
        o["value"] = draw(st.booleans())
        o["via"] = draw(st.sampled_from(["attr", "dict"]))
    elif kind == "bounds":
        o["which"] = draw(st.sampled_from(["x", "y", "amp", "psf_pa"]))
        o["value"] = draw(st.sampled_from([[None, None], [0, None], [-3, 40.5], [None, 7]]))
        o["via"] = draw(st.sampled_from(["attr", "dict"]))
    elif kind == "spoil":
        o["what"] = draw(st.sampled_from(["source", "submodel"]))
    return o


@st.composite
def views(draw, top=12):
    """Images which are equal, overlap or differ in one edge only."""
    n = draw(st.integers(2, top))
    x0, y0 = draw(st.one_of(st.just((0, 0)), st.tuples(st.integers(-6, 6), st.integers(-6, 6)), origins))
    out = [[x0, y0, n, n if draw(st.integers(0, 2)) else draw(st.integers(2, top))]]
    for _ in range(draw(st.integers(0, 3))):
        x0, y0, nx, ny = draw(st.sampled_from(out))
        k = draw(st.integers(1, 5))
        how = draw(st.sampled_from(["left", "right", "top", "bottom", "shift", "shift_y", "turn", "square", "nudge"]))
        if how == "left" and nx - k >= 2:
            x0, nx = x0 + k, nx - k
        elif how == "right":
            nx += k
        elif how == "top":
            ny += k
        elif how == "bottom" and ny - k >= 2:
            y0, ny = y0 + k, ny - k
        elif how == "shift":
            x0 += k
        elif how == "shift_y":
            y0 -= k
        elif how == "nudge":
            # a fraction of a pixel to the side
            x0, y0 = x0 + draw(st.sampled_from([0.25, 0.5, -(2.0**-9)])), y0 + draw(st.sampled_from([0, 0, 0.5]))
        elif how == "turn":
            x0, y0, nx, ny = y0, x0, ny, nx
        else:
            nx = ny = max(nx, ny)
        out.append([x0, y0, nx, ny])
    return out


@st.composite
def cases(draw, top=12):
    spec = draw(model_specs())
    spec["kind"] = draw(st.sampled_from(["sersic", "gauss", "compound"]))
    spec["x0"], spec["y0"] = draw(rnd(0, 10)), draw(rnd(0, 10))
    ops = draw(st.lists(op(), min_size=3, max_size=18))
    if draw(st.booleans()):
        # a full set of optics first
        p = draw(st.integers(1, 4))
        k = p * draw(st.integers(1, 2))
        shape = [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
        psf = {"shape": shape, "kind": "random", "seed": draw(seeds), "norm": 1.0, "dtype": "float64", "fortran": False}
        window = [draw(st.integers(0, 9)), "@y", draw(st.integers(1, 8)), k]
        ops = [
            {"op": "psf", "psf": psf},
            {"op": "oversample", "value": draw(st.sampled_from([k, k, window]))},
            {"op": "psf_oversample", "value": p},
        ] + ops
    if draw(st.integers(0, 2)) == 0:
        # two models take turns
        a, b = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        plain = {"op": "eval", "how": "grid", "pick": [0]}
        if draw(st.booleans()):
            turn = [dict(plain, view=a), {"op": "other", "view": b, "factor": draw(st.sampled_from([None, 1, 2, 3]))}]
        else:
            turn = [{"op": "copy", "via": draw(st.sampled_from(["copy", "deepcopy"]))}, dict(plain, view=a),
                    {"op": "switch", "to": 0}, dict(plain, view=b), {"op": "switch", "to": 0}]
        at = draw(st.integers(0, len(ops)))
        ops = ops[:at] + turn + [dict(plain, view=a)] + ops[at:]
    images = draw(views(top))
    far = images[0][:2] if max(abs(v) for v in images[0][:2]) > 60 else (0, 0)
    # the source and the windows are where the images are
    spec["x0"], spec["y0"] = spec["x0"] + far[0], spec["y0"] + far[1]
    for o in ops:
        v = o.get("value")
        if o["op"] == "param" and o["which"] in "xy":
            o["value"] = v + far["xy".index(o["which"])]
        elif o["op"] == "oversample" and isinstance(v, list) and len(v) == 4:
            o["value"] = [i + f if isinstance(i, int) else i for i, f in zip(v, far)] + v[2:]
    return {
        "model": spec,
        "fixed": draw(st.lists(st.sampled_from(["x", "y", "amp"]), max_size=2, unique=True)),
        "bounds": draw(st.lists(st.sampled_from(["x", "y", "amp"]), max_size=2, unique=True)),
        "views": images,
        "ops": ops,
    }


def valid_over(v):
    if v is None or (isinstance(v, int) and v > 0):
        return True
    return (
        isinstance(v, list) and len(v) == 4 and all(type(i) is int for i in v[2:]) and v[3] > 0
    )


def factor_of(v):
    return 1 if v is None else v[3] if isinstance(v, list) else v


class Shadow:
    """What the wrapper is supposed to be."""

    def __init__(self, names, values, fixed, bounds):
        self.names, self.values = list(names), dict(zip(names, values))
        self.fixed, self.bounds = dict(fixed), dict(bounds)
        self.over, self.pover, self.psf = None, None, None

    def clone(self):
        return copy.deepcopy(self)


def norm_bounds(b):
    return {k: tuple(None if v is None else float(v) for v in t) for k, t in dict(b).items()}


def check(case, rec):
    from petrofit.modeling.fitting import model_to_image
    from petrofit.modeling.models import PSFConvolvedModel2D

    kind = case["model"]["kind"]
    source, _ = build(case["model"], 0.00137)
    pname = {"x": XNAME[kind], "y": YNAME[kind], "amp": AMP[kind], "psf_pa": "psf_pa"}
    for w in case["fixed"]:
        getattr(source, pname[w]).fixed = True
    for w in case["bounds"]:
        getattr(source, pname[w]).bounds = (-50.0, 99.0)
    given = (np.array(source.parameters), dict(source.fixed), norm_bounds(source.bounds))
    m = PSFConvolvedModel2D(source)
    sh = Shadow(
        list(source.param_names) + ["psf_pa"],
        list(source.parameters) + [0.0],
        dict(source.fixed, psf_pa=False),
        dict(norm_bounds(source.bounds), psf_pa=(None, None)),
    )
    family = [(m, sh)]
    state = {"spoiled": False, "evals": 0, "changes": 0}

    def real_over(v):
        if not isinstance(v, list):
            return v
        return tuple(pname[i[1]] if isinstance(i, str) and i.startswith("@") else i for i in v)

    def formula(sh):
        v = sh.values
        fresh = source_class(v)
        return lambda x, y: fresh.evaluate(x, y, *[v[n] for n in sh.names[:-1]])

    pristine = build(case["model"], 0.00137)[0]

    def source_class(v):
        return pristine

    def verify(m, sh, what):
        need(tuple(m.param_names) == tuple(sh.names), "%s: parameter names %r", what, m.param_names)
        close(m.parameters, [sh.values[n] for n in sh.names], 0, 0, what + ": parameters")
        need(dict(m.fixed) == sh.fixed, "%s: fixed flags %r, expected %r", what, dict(m.fixed), sh.fixed)
        need(norm_bounds(m.bounds) == sh.bounds, "%s: bounds %r, expected %r", what, dict(m.bounds), sh.bounds)
        over = m.oversample
        want = real_over(sh.over)
        need(
            (tuple(over) if isinstance(over, (list, tuple)) else over) == want,
            "%s: oversample is %r, expected %r", what, over, want,
        )
        need(m.psf_oversample == sh.pover, "%s: psf_oversample is %r, expected %r", what, m.psf_oversample, sh.pover)
        if sh.psf is None:
            need(m.psf is None, "%s: a PSF appeared", what)
        else:
            same(m.psf, sh.psf, what + ": psf")

    def evaluate(m, o):
        nx, ny = o["size"]
        x0, y0 = o["origin"]
        jj, ii = np.mgrid[0:ny, 0:nx]
        if o["how"] == "image":
            return np.asarray(model_to_image(m, (nx, ny), center=(x0 + nx // 2, y0 + ny // 2))), jj, ii
        if o["how"] == "pixels":
            # the corners fix the extent of the image
            k = np.array(sorted({p % (nx * ny) for p in o["pick"]} | {0, nx * ny - 1}))
            jj, ii = jj.ravel()[k], ii.ravel()[k]
        return np.asarray(m(ii + x0, jj + y0)), jj, ii

    def tie(sh):
        if not isinstance(sh.over, list):
            return False
        vals = [sh.values[pname[i[1]]] if isinstance(i, str) else i for i in sh.over[:2]]
        return any(abs(v - np.floor(v) - 0.5) < 1e-3 for v in vals)

    for o in case["ops"]:
        m, sh = family[-1]
        k = o["op"]
        if k == "eval":
            if tie(sh):
                continue
            view = case["views"][o["view"] % len(case["views"])]
            o = dict(o, origin=view[:2], size=view[2:])
            got, jj, ii = evaluate(m, o)
            keep = np.array(got)
            fresh_sub = build(case["model"], 0.00137)[0]
            fresh_sub.parameters = [sh.values[n] for n in sh.names[:-1]]
            fresh = PSFConvolvedModel2D(
                fresh_sub, psf=None if sh.psf is None else sh.psf.copy(),
                oversample=real_over(sh.over), psf_oversample=sh.pover,
            )
            fresh.psf_pa = sh.values["psf_pa"]
            want, _, _ = evaluate(fresh, o)
            tol = 1e-10 * (1 + np.max(np.abs(want)))
            close(got, want, 1e-9, tol, "image after a history of operations, against a new model")
            nx, ny = o["size"]
            if nx == ny and all(float(v).is_integer() for v in o["origin"]):
                f = formula(sh)
                window = None
                p, fac = sh.pover or 1, factor_of(sh.over)
                if isinstance(sh.over, list):
                    c = [sh.values[pname[i[1]]] if isinstance(i, str) else i for i in sh.over[:2]]
                    size = sh.over[2]
                    window = (np.round(c[0]) - size // 2, np.round(c[1]) - size // 2, size)
                ref = psfref.image_of(f, *o["origin"], nx, ny, fac, p, window, sh.psf, sh.values["psf_pa"])
                scale = 1e-9 * (1 + np.max(np.abs(ref)) + 7 * np.abs(f(*map(float, o["origin"]))))
                close(got, ref[jj, ii], 1e-8, scale + 1e-9 * 60, "image after a history of operations, against direct sums")
            again, _, _ = evaluate(m, o)
            close(again, keep, 1e-12, 1e-13, "second evaluation")
            state["evals"] += 1
        elif k == "spoilimage":
            # a caller may do what it likes with an image it got
            jj, ii = np.mgrid[0:5, 0:5]
            img = m(ii, jj) if not tie(sh) else np.zeros((5, 5))
            img += 1e6
        elif k == "param":
            name = pname[o["which"]]
            if o["via"] == "attr":
                setattr(m, name, o["value"])
            else:
                getattr(m, name).value = o["value"]
            sh.values[name] = o["value"]
            state["changes"] += 1
        elif k == "params":
            new = [sh.values[n] for n in sh.names]
            i = sh.names.index(pname["amp"])
            new[i] *= o["scale"]
            new[-1] = o["pa"]
            m.parameters = np.array(new)
            sh.values = dict(zip(sh.names, new))
            state["changes"] += 1
        elif k == "psf":
            if o["psf"] is None and sh.pover is not None:
                continue
            psf = None if o["psf"] is None else make_psf(o["psf"])
            m.psf = psf
            sh.psf = None if psf is None else psf.copy()
            state["changes"] += 1
        elif k == "oversample":
            v = o["value"]
            ok = valid_over(v) and factor_of(v) % (sh.pover or 1) == 0
            if ok:
                m.oversample = real_over(v) if isinstance(v, list) else v
                sh.over = v
                state["changes"] += 1
            else:
                rv = list(real_over(v)) if isinstance(v, list) else v
                raises(lambda: setattr(m, "oversample", rv), "oversample=%r with psf_oversample=%r" % (rv, sh.pover))
        elif k == "psf_oversample":
            v = o["value"]
            ok = v is None or (
                type(v) is int and v > 0 and sh.psf is not None and factor_of(sh.over) % v == 0
            )
            if ok:
                m.psf_oversample = v
                sh.pover = v
                state["changes"] += 1
            else:
                raises(lambda: setattr(m, "psf_oversample", v), "psf_oversample=%r with oversample=%r" % (v, sh.over))
        elif k == "cache":
            if o["value"] in (True, False) and isinstance(o["value"], bool):
                m.cache_grid = o["value"]
                need(m.cache_grid is o["value"], "cache_grid is %r after setting it to %r", m.cache_grid, o["value"])
            else:
                raises(lambda: setattr(m, "cache_grid", o["value"]), "cache_grid=%r" % (o["value"],))
        elif k == "clear":
            m.clear_cached_grid()
        elif k == "copy":
            c = m.copy() if o["via"] == "copy" else copy.deepcopy(m)
            family.append((c, sh.clone()))
            rec.label("copied")
        elif k == "other":
            view = case["views"][o["view"] % len(case["views"])]
            stranger = PSFConvolvedModel2D(build(case["model"], 0.5)[0], oversample=o["factor"])
            evaluate(stranger, {"how": "grid", "origin": view[:2], "size": view[2:]})
            rec.label("other")
        elif k == "switch":
            family.append(family.pop(o["to"] % len(family)))
        elif k == "fixed":
            name = pname[o["which"]]
            if o["via"] == "attr":
                getattr(m, name).fixed = o["value"]
            else:
                m.fixed[name] = o["value"]
            sh.fixed[name] = o["value"]
        elif k == "bounds":
            name = pname[o["which"]]
            if o["via"] == "attr":
                getattr(m, name).bounds = tuple(o["value"])
            else:
                m.bounds[name] = tuple(o["value"])
            sh.bounds[name] = tuple(None if v is None else float(v) for v in o["value"])
        elif k == "model":
            sub = m.model
            need(tuple(sub.param_names) == tuple(sh.names[:-1]), "sub-model parameters %r", sub.param_names)
            close(sub.parameters, [sh.values[n] for n in sh.names[:-1]], 0, 0, "parameters of .model")
            need(dict(sub.fixed) == {n: sh.fixed[n] for n in sh.names[:-1]}, "fixed flags of .model: %r", dict(sub.fixed))
            need(
                norm_bounds(sub.bounds) == {n: sh.bounds[n] for n in sh.names[:-1]},
                "bounds of .model: %r", dict(sub.bounds),
            )
            rec.label("model")
        elif k == "spoil":
            # what happens to the sub-model handed out does not reach the wrapper
            if o["what"] == "submodel":
                sub = m.model
                sub.parameters = np.array(sub.parameters) + 1.0
                sub.fixed[sh.names[0]] = not sub.fixed[sh.names[0]]
                sub.bounds[sh.names[0]] = (-1.0, 1.0)
        elif k == "badwrap":
            raises(lambda: PSFConvolvedModel2D(m), "a wrapped wrapper")
            from astropy.modeling.models import Gaussian1D

            raises(lambda: PSFConvolvedModel2D(Gaussian1D()), "a 1D model")
        for i, (w, s) in enumerate(family):
            verify(w, s, "after %s" % k)
        same(source.parameters, given[0], "parameters of the wrapped model")
        need(dict(source.fixed) == given[1], "fixed flags of the wrapped model changed")
        need(norm_bounds(source.bounds) == given[2], "bounds of the wrapped model changed")
    rec.nontrivial(state["evals"] >= 2 and state["changes"] >= 1)


@st.composite
def init_cases(draw):
    return {
        "over": draw(over_values()),
        "pover": draw(st.one_of(st.none(), st.integers(1, 4), st.sampled_from([0, -1, 1.5, "2"]))),
        "psf": draw(st.booleans()),
        "spec": dict(draw(model_specs()), kind="gauss"),
        "name": draw(st.sampled_from([None, "abc"])),
        "fixed": draw(st.one_of(st.none(), st.booleans())),
        "bounds": draw(st.booleans()),
    }


def check_init(case, rec):
    from petrofit.modeling.models import PSFConvolvedModel2D

    source, _ = build(case["spec"])
    v, p = case["over"], case["pover"]
    v = tuple({"@x": "x_mean", "@y": "y_mean"}.get(i, i) if isinstance(i, str) else i for i in v) if isinstance(v, list) else v
    psf = np.ones((3, 3)) / 9 if case["psf"] else None
    ok = valid_over(case["over"]) and (
        p is None or (type(p) is int and p > 0 and case["psf"] and factor_of(case["over"]) % p == 0)
    )
    kw = {}
    if case["fixed"] is not None:
        kw["fixed"] = {"amplitude": case["fixed"]}
        source.x_mean.fixed = True
    source.y_mean.bounds = (-4.0, 30.0)
    if case["bounds"]:
        kw["bounds"] = {"amplitude": (0.5, None)}
    make = lambda: PSFConvolvedModel2D(source, psf=psf, oversample=v, psf_oversample=p, name=case["name"], **kw)
    if not ok:
        raises(make, "oversample=%r, psf_oversample=%r, psf %s" % (v, p, case["psf"]))
        return
    m = make()
    need(m.name == case["name"] and m.oversample == v and m.psf_oversample == p, "attributes of the wrapper")
    want = dict(source.fixed, psf_pa=False)
    if case["fixed"] is not None:
        want = dict.fromkeys(want, False)
        want["amplitude"] = case["fixed"]
    need(dict(m.fixed) == want, "fixed flags %r, expected %r", dict(m.fixed), want)
    want = dict(norm_bounds(source.bounds), psf_pa=(None, None))
    if case["bounds"]:
        # bounds given to the wrapper replace those of the model
        got = norm_bounds(m.bounds)
        need(got["amplitude"] == (0.5, None), "bounds of the amplitude %r, given as (0.5, None)", got["amplitude"])
        need(got["y_mean"] == (None, None), "bounds %r of a parameter without given ones", got["y_mean"])
    else:
        need(norm_bounds(m.bounds) == want, "bounds %r, expected %r", dict(m.bounds), want)
    rec.nontrivial(p is not None)


def large_cases():
    return cases(90)


SUBS = [
    Sub("large", large_cases, check, 30, 500, "at least two evaluations and one change of state"),
    Sub("history", cases, check, 2400, 36000, "at least two evaluations and one change of state"),
    Sub("init", init_cases, check_init, 1600, 12000, "accepted with a PSF oversampling"),
]
