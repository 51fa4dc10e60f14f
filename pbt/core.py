"""Search driver: Hypothesis generation, shrinking, replay files, evidence.

A *sub-check* is a strategy producing a plain JSON case (the whole input,
history or configuration as one value) and an oracle ``check(case, rec)`` which
raises :class:`Violation` when the property is broken.  A case is data only, so
that a shrunk failing case *is* the replay file.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot as _boot
from .boot import HarnessError, VERIF

NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
# Wall-clock guards.  They only ever end a search early (which is recorded in
# the evidence), they never turn into a verdict.
SOFT_BUDGET = {"quick": 240.0, "thorough": 3 * 3600.0}
HARD_BUDGET = {"quick": 780.0, "thorough": 4 * 3600.0}
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_SECONDS", "25"))
SHRINK_CALLS = 400
# Times the number of cases given with each sub-check for the quick tier.
QUICK_FACTOR = 2.5
# For mutation testing only.
SCALE = float(os.environ.get("VERIF_SCALE", "1"))


class Violation(AssertionError):
    """The property under test does not hold for this case."""


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy  # zero-argument callable -> SearchStrategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule

    def count(self, tier):
        n = max(self.thorough, self.quick * QUICK_FACTOR) if tier == "thorough" else self.quick * QUICK_FACTOR
        return max(1, int(n * SCALE))


class Recorder:
    """What one execution of a check tells the evidence."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


def digest(obj):
    text = json.dumps(obj, sort_keys=True)
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def load_check(prop):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module("checks.%s" % prop.lower())


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
        io.StringIO()
    ):
        yield


def run_case(sub, case):
    """Run one case. Returns (recorder, None | violation text)."""
    import warnings

    rec = Recorder()
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                sub.check(case, rec)
            finally:
                plt = sys.modules.get("matplotlib.pyplot")
                if plt is not None and plt.get_fignums():
                    plt.close("all")
    except Violation as exc:
        return rec, str(exc) or "violation"
    except (MemoryError, KeyboardInterrupt, HarnessError):
        raise
    except Exception as exc:  # noqa: BLE001
        # The oracles run without error on the code as it stands: an exception
        # here means that the code under test raised, or handed back something
        # that cannot be used as the documented result.
        tail = traceback.format_exception(type(exc), exc, exc.__traceback__)
        return rec, "unexpected %s: %s\n%s" % (
            type(exc).__name__,
            exc,
            "".join(tail[-4:]),
        )
    return rec, None


# --------------------------------------------------------------------------
# worker


def run_sub(sub, tier, seed, shard, nshards, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    total = sub.count(tier)
    n = total // nshards + (1 if shard < total % nshards else 0)
    out = {
        "evaluations": 0,
        "nontrivial": [],
        "samples": [],
        "labels": {},
        "violation": None,
        "truncated": 0,
        "requested": n,
    }
    if n == 0:
        return out
    state = {"fail": None, "first": None, "calls": 0, "simplest": shard > 0}
    hashes = set()

    def body(case):
        if state["simplest"]:
            # Hypothesis begins with the simplest case: the first shard runs it
            state["simplest"] = False
            return
        key = digest(case)
        if state["first"] is not None:
            state["calls"] += 1
            spent = time.monotonic() - state["first"] > SHRINK_SECONDS
            if spent or state["calls"] > SHRINK_CALLS:
                # Shrink budget used up: only the best case keeps failing.
                if key == state["fail"][0]:
                    raise Violation(state["fail"][2])
                return
        elif time.monotonic() > deadline:
            out["truncated"] += 1
            return
        rec, bad = run_case(sub, case)
        if state["first"] is None:
            out["evaluations"] += 1
            for lab in rec.labels:
                out["labels"][lab] = out["labels"].get(lab, 0) + 1
            if rec.is_nontrivial and key not in hashes:
                hashes.add(key)
                if len(out["samples"]) < 2:
                    out["samples"].append(case)
        if bad is not None:
            if state["first"] is None:
                state["first"] = time.monotonic()
            state["fail"] = (key, case, bad)
            raise Violation(bad)

    shard_seed = int(
        hashlib.sha1(("%s/%s/%d" % (seed, sub.name, shard)).encode()).hexdigest()[:12],
        16,
    )
    test = given(sub.strategy())(body)
    test = hypothesis.seed(shard_seed)(test)
    test = settings(
        max_examples=n + (shard > 0),
        deadline=None,
        database=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    try:
        with quiet():
            test()
    except Violation:
        pass
    except hypothesis.errors.HypothesisException as exc:
        if state["fail"] is None:
            raise HarnessError("%s: %s" % (type(exc).__name__, exc))
    except BaseExceptionGroup:
        if state["fail"] is None:
            raise
    if state["fail"] is not None:
        out["violation"] = {"case": state["fail"][1], "message": state["fail"][2]}
    out["nontrivial"] = sorted(hashes)
    return out


def worker_main(prop, tier, seed, shard, nshards, out_path):
    pf = _boot.boot()
    assert pf is not None
    module = load_check(prop)
    start = time.monotonic()
    deadline = start + SOFT_BUDGET[tier]
    result = {"subs": {}, "error": None, "times": {}}
    try:
        for k, sub in enumerate(module.SUBS):
            t0 = time.monotonic()
            # On a slow machine no sub-check may use up the time of the
            # ones after it: each leaves them a third of what is left.
            share = 1.0 if k + 1 == len(module.SUBS) else 2.0 / 3.0
            result["subs"][sub.name] = run_sub(
                sub,
                tier,
                seed,
                shard,
                nshards,
                t0 + share * max(deadline - t0, 0.0),
            )
            result["times"][sub.name] = round(time.monotonic() - t0, 2)
            if result["subs"][sub.name]["violation"]:
                break
    except BaseException as exc:  # noqa: BLE001
        result["error"] = "%s: %s\n%s" % (
            type(exc).__name__,
            exc,
            traceback.format_exc(),
        )
    tmp = out_path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(result, fh)
    os.replace(tmp, out_path)


# --------------------------------------------------------------------------
# main


def replay_path(prop, sub_name, case):
    folder = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    return os.path.join(folder, "%s-%s-%s.json" % (prop, sub_name, digest(case)))


def report_violation(prop, sub_name, violation):
    path = replay_path(prop, sub_name, violation["case"])
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop,
                "sub": sub_name,
                "case": violation["case"],
                "message": violation["message"],
            },
            fh,
            indent=1,
            sort_keys=True,
        )
    print("sub-check %s: %s" % (sub_name, violation["message"][:2000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)["findings"]


def check_known(prop, module):
    """Print one line per listed finding that still fails."""
    lines = []
    for entry in load_known():
        if entry["property"] != prop or entry["status"] != "known":
            continue
        fn = getattr(module, "KNOWN", {}).get(entry["id"])
        if fn is None:
            raise HarnessError("no reproducer for finding %s" % entry["id"])
        with quiet():
            try:
                fails = fn(entry["input"])
            except Exception:  # noqa: BLE001
                fails = True
        if fails:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, entry["what_fails"]))
    return lines


def kill_group(proc):
    """End a worker which still runs, and the processes it started."""
    if proc.poll() is not None:
        return
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    proc.wait()


def check_main(prop, tier, seed):
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    try:
        for shard in range(NWORKERS):
            out = os.path.join(scratch, "w%d.json" % shard)
            log = open(os.path.join(scratch, "w%d.log" % shard), "w")
            proc = subprocess.Popen(
                [
                    sys.executable,
                    os.path.join(VERIF, "run.py"),
                    "worker",
                    prop,
                    tier,
                    str(seed),
                    str(shard),
                    str(NWORKERS),
                    out,
                ],
                env=dict(_boot.child_env(), TMPDIR=scratch),
                stdin=subprocess.DEVNULL,
                stdout=log,
                stderr=subprocess.STDOUT,
                cwd=VERIF,
                process_group=0,
            )
            procs.append((proc, out, log))
        return _collect(prop, tier, seed, t0, procs)
    finally:
        for proc, _, log in procs:
            kill_group(proc)
            log.close()
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def _collect(prop, tier, seed, t0, procs):
    pending = dict(enumerate(procs))
    results = {}
    found = None
    errors = []
    while pending:
        for shard in list(pending):
            proc, out, log = pending[shard]
            if proc.poll() is None:
                continue
            del pending[shard]
            if not os.path.exists(out):
                with open(log.name) as fh:
                    errors.append(
                        "worker %d ended with status %s\n%s"
                        % (shard, proc.returncode, fh.read()[-3000:])
                    )
                continue
            with open(out) as fh:
                results[shard] = json.load(fh)
            if results[shard]["error"]:
                errors.append(results[shard]["error"])
            for name, data in results[shard]["subs"].items():
                if data["violation"] and found is None:
                    found = (name, data["violation"])
        if found is not None:
            # One shrunk reproduction is enough.
            for shard, (proc, _, _) in pending.items():
                kill_group(proc)
            break
        if time.monotonic() - t0 > HARD_BUDGET[tier]:
            errors.append("hard wall-clock limit reached: inconclusive")
            break
        time.sleep(0.05)

    with quiet():
        _boot.boot()
        module = load_check(prop)
    known = [] if found else check_known(prop, module)
    write_evidence(prop, tier, seed, module, results, found, errors, known, t0)
    for line in known:
        print(line)
    if found is not None:
        report_violation(prop, *found)
        return 1
    if errors:
        print("ERROR of the check (no verdict):", file=sys.stderr)
        for err in errors[:2]:
            print(err, file=sys.stderr)
        return 2
    print("property %s held (%s tier, %.1f s)" % (prop, tier, time.monotonic() - t0))
    return 0


def write_evidence(prop, tier, seed, module, results, found, errors, known, t0):
    subs = {}
    evaluations = 0
    distinct = 0
    samples = []
    for sub in module.SUBS:
        ev, trunc, labels, hashes = 0, 0, {}, set()
        sub_samples = []
        secs = 0.0
        for shard in sorted(results):
            data = results[shard]["subs"].get(sub.name)
            secs = max(secs, results[shard]["times"].get(sub.name, 0.0))
            if data is None:
                continue
            ev += data["evaluations"]
            trunc += data["truncated"]
            hashes.update(data["nontrivial"])
            for k, v in data["labels"].items():
                labels[k] = labels.get(k, 0) + v
            sub_samples.extend(data["samples"])
        evaluations += ev
        distinct += len(hashes)
        for s in sub_samples[1:2] or sub_samples[:1]:
            samples.append({"sub_check": sub.name, "case": s})
        subs[sub.name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": sub.rule,
            "classes": dict(sorted(labels.items())),
            "not_run_for_time": trunc,
            "slowest_worker_s": secs,
        }
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": "Hypothesis-generated cases, one JSON value each; "
        + " | ".join("%s: %s" % (s.name, s.rule) for s in module.SUBS),
        "samples": samples,
        "sub_checks": subs,
        "exhaustive": False,
    }
    if known:
        coverage["known_findings_still_failing"] = known
    if errors:
        coverage["errors"] = [e[-500:] for e in errors]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 0 if found is None else 1,
    }
    folder = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s.json" % prop)
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(path + ".tmp", path)


def replay_main(path):
    _boot.boot()
    with open(path) as fh:
        data = json.load(fh)
    module = load_check(data["property"])
    sub = {s.name: s for s in module.SUBS}[data["sub"]]
    _, bad = run_case(sub, data["case"])
    if bad is None:
        print("replay of %s: the property holds for this case" % path)
        return 0
    print(bad[:4000])
    print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1
