#!/usr/bin/env python3
"""Try planted bugs in scratch copies of /repo.

    seedtest.py ID... [--nocheck] [--notests]

For each seeded/ID: the patch applies to a copy of /repo's HEAD, touches only
lines of the original repository, the stable tests pass, demo.sh passes on the
clean copy and fails on the patched one, and the property's quick check reports
the violation.  Everything happens in a scratch folder which is removed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def original_lines(patch):
    """Files and removed line numbers; complain about lines of fix commits."""
    notes = []
    path, ln = None, 0
    base = FIRST
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", path], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if not blame[ln - 1].lstrip("^").startswith(base[: len(blame[ln - 1].split()[0].lstrip("^"))]):
                notes.append("%s:%d is not an original line" % (path, ln))
            ln += 1
        elif line.startswith(" "):
            ln += 1
    return notes


# The pinned commit: the last one before the first fix.
LOG = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
FIRST = [l.split()[0] for l in LOG if not l.split(" ", 1)[1].startswith("fix:")][0]


def one(sid, nocheck, notests):
    folder = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-%s-" % sid)
    out = []
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("docs", "__pycache__"))
        demo_dir = os.path.join(tmp, "demo")
        shutil.copytree(folder, demo_dir, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = {"PYTHONPATH": repo}
        rc, text = sh(["bash", os.path.join(demo_dir, "demo.sh")], repo, env, 300)
        out.append("demo clean %s" % rc)
        if rc != 0:
            out.append("BAD: " + text[-800:])
        rc, text = sh(["git", "apply", os.path.join(folder, "patch.diff")], repo)
        if rc != 0:
            return out + ["BAD: patch " + text]
        out += ["BAD: " + n for n in original_lines(open(os.path.join(folder, "patch.diff")).read())]
        rc, text = sh(["bash", os.path.join(demo_dir, "demo.sh")], repo, env, 300)
        out.append("demo patched %s" % rc)
        if rc == 0:
            out.append("BAD: demo passes with the patch")
        else:
            out.append("   " + " | ".join(text.strip().splitlines()[-1:])[:200])
        if not notests:
            xml = os.path.join(tmp, "j.xml")
            sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=300", "--randomly-seed=1", "--randomly-dont-reorganize", "-o", "junit_family=xunit2", "--junitxml=" + xml], repo, env)
            res = os.path.join(tmp, "r.json")
            sh([PY, "/opt/vp/results.py", res, "junit:" + xml], repo)
            got = set(json.load(open(res))["passed"])
            out.append("tests %d of %d" % (len(got & STABLE), len(STABLE)))
            if STABLE - got:
                out.append("BAD: fails %s" % sorted(STABLE - got))
        if not nocheck:
            rc, text = sh(["python3", "run.py", "check", meta["property"], "quick"], HERE, {"VERIF_REPO": repo, "VERIF_SEED": "1"}, 900)
            hit = rc == 1 and "VIOLATION property=%s " % meta["property"] in text
            out.append("check %s %s" % (meta["property"], "CAUGHT" if hit else "MISSED rc=%s" % rc))
            out.append("   " + text.strip().splitlines()[0][:200] if text.strip() else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for sid in ids:
        print("==", sid, flush=True)
        for line in one(sid, "--nocheck" in sys.argv, "--notests" in sys.argv):
            print("  ", line, flush=True)


main()
