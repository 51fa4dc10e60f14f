"""C16: segment masks."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.util import Frozen, need, noise, raises, rnd, same, seeds

ASSUMPTIONS = [
    "Images hold floating point numbers when the fill value is NaN (integers cannot hold it).",
    "A catalogue entry is a single-row SourceCatalog.",
]

labels_st = st.lists(st.integers(1, 12), min_size=1, max_size=5, unique=True)
many_labels = st.lists(st.one_of(st.integers(1, 60), st.integers(1, 40000)), min_size=1, max_size=30, unique=True)


@st.composite
def scene(draw, top=14):
    nx, ny = draw(st.integers(2, top)), draw(st.integers(2, top))
    labels = draw(labels_st if top < 20 else many_labels)
    dtype = draw(st.sampled_from(["int32", "int64", "uint8"] if top < 20 else ["int32", "int64", "uint16"]))
    if top < 20 and dtype != "uint8":
        # numbers around the limits of the smaller integer types
        shift = draw(st.sampled_from([0] * 7 + [120, 250, 32760, 65530]))
        labels = [v + shift for v in labels]
    return {
        "size": [nx, ny],
        "labels": labels,
        "seed": draw(seeds),
        "layout": draw(st.sampled_from(["blocks", "random", "full"])),
        "dtype": dtype,
    }


def make_segm(s):
    """(SegmentationImage, label array)"""
    from photutils.segmentation import SegmentationImage

    nx, ny = s["size"]
    rng = np.random.RandomState(s["seed"] % 2**31)
    labels = s["labels"]
    if s["layout"] == "random":
        a = rng.choice([0] + labels, size=(ny, nx))
    elif s["layout"] == "full":
        a = rng.choice(labels, size=(ny, nx))
    else:
        a = np.zeros((ny, nx), int)
        for lab in labels:
            j, i = rng.randint(ny), rng.randint(nx)
            a[j : j + rng.randint(1, 6), i : i + rng.randint(1, 6)] = lab
    if not a.any():
        a[0, 0] = labels[0]
    a = a.astype(s["dtype"])
    return SegmentationImage(a.copy()), a


one_source = lambda top: st.tuples(st.integers(0, top), st.sampled_from(["int", "int64", "int32", "uint8", "cat"]))


@st.composite
def cases(draw, top=14, most=4):
    single = draw(st.booleans())
    return {
        "scene": draw(scene(top)),
        "single": single,
        "sources": draw(st.lists(one_source(12 if top < 20 else 40), min_size=1, max_size=1 if single else most)),
        "mask_background": draw(st.one_of(st.none(), st.booleans())),
        "image": draw(st.sampled_from(["array", "array", "float32", "int", "fortran", "ccd", "ccd", "cutout", "nan", "masked"])),
        "fill": draw(st.one_of(st.none(), st.sampled_from([0, -1.5, 7, "nan", "inf"]), st.floats(-1e3, 1e3), st.sampled_from([0.1, 1e-300, -1e200]))),
        "repeat": draw(st.integers(1, 3)),
        "swap": draw(st.booleans()),
        "empty": draw(st.integers(0, 11)) == 0,
    }


def check(case, rec):
    from astropy.nddata import CCDData, Cutout2D
    from photutils.segmentation import SourceCatalog

    from petrofit.segmentation import masked_segm_image, segm_mask

    segm, lab = make_segm(case["scene"])
    ny, nx = lab.shape
    data = noise(case["scene"]["seed"], (ny, nx)) + 2
    cat = SourceCatalog(data, segm)
    present = list(segm.labels)
    args, chosen = [], set()
    for k, form in case["sources"]:
        if form == "cat":
            row = k % len(present)
            args.append(cat[row])
            chosen.add(int(present[row]))
            rec.label("catalogue entry")
        else:
            # mostly labels which exist, sometimes one which does not
            label = int(present[k % len(present)]) if k not in (12, 40) else int(max(present)) + 1
            if k == 11 and not case["mask_background"]:
                label = 0  # the background alone
                rec.label("background")
            form = form if label < 256 else "int32"
            args.append({"int": int, "int64": np.int64, "int32": np.int32, "uint8": np.uint8}[form](label))
            chosen.add(label)
    if case["empty"] and not case["single"] and not case["mask_background"]:
        args, chosen = [], set()
        rec.label("no source")
    source = args[0] if case["single"] else args
    n_args = len(args)
    kw = {} if case["mask_background"] is None else {"mask_background": case["mask_background"]}
    want = np.isin(lab, sorted(chosen))
    if not case["mask_background"]:
        want = want | (lab == 0)

    kind = case["image"]
    fill = case["fill"]
    fill = {"nan": np.nan, "inf": np.inf}.get(fill, fill) if isinstance(fill, str) else fill
    if kind == "int":
        image = np.round(data * 100).astype(int)
        if fill is None or not abs(fill) < 1e9 or fill != int(fill):
            fill = -9
    elif kind == "float32":
        image = data.astype(np.float32)
    elif kind == "fortran":
        image = np.asfortranarray(data)
    elif kind == "ccd":
        image = CCDData(data.copy(), unit="adu", mask=lab > 5, meta={"KEY": 5})
    elif kind == "cutout":
        big = np.full((ny + 4, nx + 6), 5.0)
        big[2 : 2 + ny, 3 : 3 + nx] = data
        image = Cutout2D(big, (3 + (nx - 1) / 2, 2 + (ny - 1) / 2), (ny, nx))
    elif kind == "nan":
        image = data.copy()
        image[0, 0] = np.nan
    elif kind == "masked":
        image = np.ma.array(data, mask=lab > 5)
    else:
        image = data.copy()
    plain = np.array(image.data if kind in ("ccd", "cutout") else image, copy=True)
    frozen = Frozen(image=image, segm=segm)

    def both():
        mask = segm_mask(source, segm, **kw)
        need(np.asarray(mask).dtype == bool, "mask of type %s", np.asarray(mask).dtype)
        same(mask, want, "mask")
        mkw = dict(kw)
        if fill is not None:
            mkw["fill"] = fill
        out = masked_segm_image(source, image, segm, **mkw)
        need(type(out) is type(image), "masked image is a %s, the image a %s", type(out).__name__, type(image).__name__)
        got = out.data if kind in ("ccd", "cutout") else out
        expected = np.where(want, plain, np.array(np.nan if fill is None else fill).astype(plain.dtype))
        if kind == "masked":
            keep = want & ~np.ma.getmaskarray(image)
            same(np.asarray(got.data)[keep], plain[keep], "kept pixels")
            same(np.asarray(got.filled(np.nan) if fill is None else got.data)[~want & (lab <= 5)],
                 expected[~want & (lab <= 5)], "masked pixels")
        else:
            same(np.asarray(got), expected, "masked image")
            need(np.asarray(got).dtype == plain.dtype, "masked image has data type %s", np.asarray(got).dtype)
        src = image.data if kind in ("ccd", "cutout") else image
        need(not np.shares_memory(np.asarray(got), np.asarray(src)), "the masked image shares data with the image")
        if kind == "ccd":
            need(out.unit == image.unit and out.meta.get("KEY") == 5, "unit or metadata of the CCDData were lost")
            same(out.mask, image.mask, "mask of the CCDData")
        # whatever happens to the results, the next call starts from scratch
        mask[...] = ~mask
        np.asarray(got)[...] = 3
        frozen.check("masking")
        if not case["single"]:
            need(len(source) == n_args and all(a is b for a, b in zip(source, args)), "the list of sources was changed")

    # (the list handed over is also the one compared with)
    if not case["single"]:
        source = list(args)
    for _ in range(case["repeat"]):
        both()
    rec.nontrivial(len(chosen) >= 2 and not want.all() and case["repeat"] > 1)
    rec.label(kind, "background masked" if case["mask_background"] else "background kept")


@st.composite
def bad_cases(draw):
    return {
        "scene": draw(scene()),
        "bad": draw(st.sampled_from(["1", 1.5, None, {"label": 1}])),
        "background": draw(st.booleans()),
        "which": draw(st.sampled_from(["mask", "image"])),
    }


def check_bad(case, rec):
    from petrofit.segmentation import masked_segm_image, segm_mask

    segm, lab = make_segm(case["scene"])
    image = np.ones(lab.shape)
    if case["which"] == "mask":
        raises(lambda: segm_mask(case["bad"], segm, case["background"]), "source %r" % (case["bad"],))
    else:
        raises(lambda: masked_segm_image(case["bad"], image, segm, None, case["background"]), "source %r" % (case["bad"],))
    same(image, np.ones(lab.shape), "image")
    rec.nontrivial()


def large_cases():
    return cases(110, 25)


SUBS = [
    Sub("large", large_cases, check, 100, 1500, "several sources, repeated calls, something is masked"),
    Sub("masks", cases, check, 5000, 60000, "several sources, repeated calls, something is masked"),
    Sub("bad_source", bad_cases, check_bad, 400, 2000, "all"),
]
