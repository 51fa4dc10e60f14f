#!/usr/bin/env python3
"""Mutation testing of the checks: single-site mutants of petrofit in scratch copies.

    mutants.py OUT.jsonl [--only FUNCTION-OR-FILE] [--jobs N] [--seed S] [--limit N]

Every mutant is run against the checks of the function it touches, until one
reports a violation.  Survivors are then run against the stable tests; what
also survives these is either equivalent or a gap in the checks.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

MAP = {
    "petrosian/core.py": {
        "calculate_petrosian": ["C01"],
        "calculate_petrosian_r": ["C02"],
        "fraction_to_r": ["C03"],
        "calculate_concentration_index": ["C03"],
        "_plot_radii": ["C25"],
        "plot": ["C25"],
        "plot_cog": ["C25"],
        "imshow": ["C25"],
        "r_half_light_arcsec": ["C22"],
        "r_total_flux_arcsec": ["C22"],
        "*": ["C03", "C04", "C02", "C01"],
    },
    "petrosian/correction.py": {
        "_generate_petrosian_correction": ["C19"],
        "generate_petrosian_sersic_correction": ["C19"],
        "_plot_grid": ["C25"],
        "plot_correction": ["C25"],
        "*": ["C20"],
    },
    "modeling/models.py": {
        "Ie_to_I0": ["C07"],
        "I0_to_Ie": ["C07"],
        "get_default_sersic_bounds": ["C08"],
        "get_default_gen_sersic_bounds": ["C08"],
        "make_grid": ["C09"],
        "GenSersic2D": ["C08"],
        "_gammaincinv": ["C08"],
        "Nuker2D": ["C08"],
        "CoreSersic2D": ["C08"],
        "sersic_enclosed": ["C07"],
        "sersic_enclosed_inv": ["C07"],
        "sersic_enclosed_model": ["C07"],
        "petrosian_profile": ["C07"],
        "petrosian_model": ["C07"],
        "PetroApprox": ["C26"],
        "*": ["C12", "C11", "C10"],
    },
    "modeling/fitting.py": {
        "fit_model": ["C13", "C14"],
        "fit_background": ["C14"],
        "fit_gaussian2d": ["C24"],
        "measure_fwhm": ["C24", "C25"],
        "plot_fit": ["C25"],
        "print_model_params": ["C13", "C25"],
        "*": ["C09"],
    },
    "photometry.py": {
        "plot_apertures": ["C25"],
        "radial_photometry": ["C15", "C25"],
        "*": ["C21"],
    },
    "segmentation.py": {
        "plot_segments": ["C25"],
        "plot_segment_residual": ["C25"],
        "get_amplitude_at_r": ["C24"],
        "segm_mask": ["C16"],
        "masked_segm_image": ["C16"],
        "source_photometry": ["C17", "C25", "C27"],
        "*": ["C18"],
    },
    "utils.py": {
        "natural_sort": ["C23"],
        "make_radius_list": ["C23"],
        "match_catalogs": ["C23"],
        "get_interpolated_values": ["C23", "C02"],
        "closest_value_index": ["C23", "C02"],
        "cutout_subtract": ["C23"],
        "plot_target": ["C25"],
        "mpl_tick_frame": ["C25"],
        "*": ["C22"],
    },
}

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|"}
UNWRAP = {"copy", "deepcopy", "array", "abs", "round", "float", "int", "list", "tuple", "asarray", "ceil", "sqrt", "astype", "where", "invert", "sorted", "reversed", "max", "min", "floor"}


def mutants_of(path, rel):
    text = open(path).read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    tree = ast.parse(text)
    out = []

    def add(func, a, b, new, what, line):
        out.append({"file": rel, "func": func, "line": line, "a": a, "b": b, "new": new, "text": lines[line - 1].strip(), "what": "%s -> %s" % (raw[a:b].decode()[:60].replace("\n", " "), new[:60])})

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def visit(node, func, in_fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            name = node.name
            inner = func if func in MAP[rel] else name
            body = node.body
            for d in getattr(node, "args", ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])).defaults:
                visit(d, inner, True)
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    continue
                visit(s, inner, in_fn or isinstance(node, ast.FunctionDef) or isinstance(node, ast.ClassDef))
            return
        if not in_fn:
            for c in ast.iter_child_nodes(node):
                if isinstance(node, ast.Module):
                    visit(c, func, False)
            return
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and len(node.ops) >= 1:
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                if type(op) in CMP:
                    a, b = pos(left)[1], pos(right)[0]
                    mid = raw[a:b].decode()
                    if "(" not in mid and ")" not in mid:
                        add(func, a, b, " %s " % CMP[type(op)], "cmp", line)
                left = right
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a, b = pos(node.left)[1], pos(node.right)[0]
            mid = raw[a:b].decode()
            if "(" not in mid and ")" not in mid and "\n" not in mid:
                add(func, a, b, " %s " % BIN[type(node.op)], "bin", line)
        elif isinstance(node, ast.BoolOp):
            for x, y in zip(node.values, node.values[1:]):
                a, b = pos(x)[1], pos(y)[0]
                mid = raw[a:b].decode()
                new = mid.replace("and", "or") if isinstance(node.op, ast.And) else mid.replace("or", "and")
                if new != mid:
                    add(func, a, b, new, "bool", line)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            a, b = pos(node)
            add(func, a, b, "(" + seg(node.operand) + ")", "unary", line)
        elif isinstance(node, ast.Constant):
            a, b = pos(node)
            v = node.value
            if isinstance(v, bool):
                add(func, a, b, str(not v), "const", line)
            elif isinstance(v, int):
                add(func, a, b, "(%d)" % (v + 1), "const", line)
                if v > 0:
                    add(func, a, b, "(%d)" % (v - 1), "const", line)
            elif isinstance(v, float):
                add(func, a, b, "(%r)" % (v * 1.05 if v else 0.1), "const", line)
            elif v is None:
                pass
        elif isinstance(node, ast.Call):
            a, b = pos(node)
            fn = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
            if fn in UNWRAP and node.args:
                add(func, a, b, "(" + seg(node.args[0]) + ")", "unwrap", line)
            elif fn in UNWRAP and isinstance(node.func, ast.Attribute):
                add(func, a, b, "(" + seg(node.func.value) + ")", "unwrap", line)
            for i, k in enumerate(node.keywords):
                if k.arg is None:
                    continue
                ka, kb = pos(k)
                rest = raw[kb:b]
                j = 0
                while rest[j : j + 1].isspace():
                    j += 1
                if rest[j : j + 1] == b",":
                    add(func, ka, kb + j + 1, "", "dropkw", line)
                else:
                    add(func, ka, kb, "", "dropkw", line)
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            a, b = pos(node.test)
            add(func, a, b, "True", "if", line)
            add(func, a, b, "False", "if", line)
        if isinstance(node, ast.stmt) and isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Delete)):
            a, b = pos(node)
            add(func, a, b, "pass", "delstmt", line)
        for c in ast.iter_child_nodes(node):
            visit(c, func, True)

    visit(tree, "", False)
    good = []
    for m in out:
        new = raw[: m["a"]] + m["new"].encode() + raw[m["b"] :]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        good.append(m)
    return good


def run(m):
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree(os.path.join(REPO, "petrofit"), os.path.join(repo, "petrofit"), ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(repo, "petrofit", m["file"])
        raw = open(p, "rb").read()
        open(p, "wb").write(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :])
        table = MAP[m["file"]]
        checks = table.get(m["func"], table["*"])
        env = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS="1", VERIF_SHRINK_SECONDS="0", VERIF_SEED=str(ARGS.seed), VERIF_SCALE=ARGS.scale, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_EVIDENCE=os.path.join(tmp, "evidence"), VERIF_REPLAYS=os.path.join(tmp, "replays"))
        m["status"] = "survived"
        for c in checks:
            try:
                r = subprocess.run(["python3", "run.py", "check", c, "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=700)
                rc, text = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                m["status"], m["by"], m["why"] = "timeout", c, ""
                break
            if rc == 1:
                m["status"], m["by"], m["why"] = "caught", c, text[:150]
                break
            if rc != 0:
                m["status"], m["by"], m["why"] = "error", c, text[-300:]
                break
        if m["status"] != "caught" and not ARGS.notests:
            e = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
            xml, res = os.path.join(tmp, "j.xml"), os.path.join(tmp, "r.json")
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--randomly-seed=1", "--randomly-dont-reorganize", "-o", "junit_family=xunit2", "--junitxml=" + xml, "petrofit"], cwd=repo, env=e, capture_output=True, timeout=900)
            subprocess.run([PY, "/opt/vp/results.py", res, "junit:" + xml], cwd=repo, capture_output=True)
            try:
                m["tests"] = len(STABLE & set(json.load(open(res))["passed"]))
            except Exception:  # noqa: BLE001
                m["tests"] = -1
    except Exception as exc:  # noqa: BLE001
        m["status"], m["why"] = "broken", str(exc)[:200]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return m


ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--only", default="")
ap.add_argument("--scale", default="1")
ap.add_argument("--noplots", action="store_true", help="leave out lines which only draw")
ap.add_argument("--notests", action="store_true")
ap.add_argument("--from", dest="source", default="", help="run the survivors of this file again")
ap.add_argument("--skip", default="")
ap.add_argument("--jobs", type=int, default=8)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--limit", type=int, default=0)
ap.add_argument("--list", action="store_true")
ARGS = ap.parse_args()

todo = []
for rel in MAP:
    for m in mutants_of(os.path.join(REPO, "petrofit", rel), rel):
        if ARGS.only and not any(o in (m["func"], m["file"]) for o in ARGS.only.split(",")):
            continue
        if m["func"] in ARGS.skip.split(","):
            continue
        if ARGS.noplots and any(w in m["text"] for w in ("plt.", "ax.", "ax1.", "ax2.", "ax3.", "axs", "linewidth", "label", "figsize")):
            continue
        todo.append(m)
random.Random(7).shuffle(todo)
if ARGS.source:
    key = lambda m: (m["file"], m["a"], m["b"], m["new"])
    again = {key(m) for m in map(json.loads, open(ARGS.source)) if m["status"] != "caught"}
    todo = [m for m in todo if key(m) in again]
if ARGS.limit:
    todo = todo[: ARGS.limit]
print(len(todo), "mutants", flush=True)
if ARGS.list:
    from collections import Counter

    for k, v in sorted(Counter((m["file"], m["func"]) for m in todo).items()):
        print(v, k)
    raise SystemExit
with concurrent.futures.ThreadPoolExecutor(ARGS.jobs) as pool, open(ARGS.out, "a") as fh:
    for f in concurrent.futures.as_completed([pool.submit(run, m) for m in todo]):
        m = f.result()
        fh.write(json.dumps(m) + "\n")
        fh.flush()
