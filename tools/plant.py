#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from a bug description and confirm it.

    plant.py DESCRIPTIONS.py [id ...]

DESCRIPTIONS.py defines BUGS, a list of dictionaries with id, property, file, edits [(old, new), ...] (or
files {file: edits}), needs, breaks, demo (Python, exits nonzero when the property is broken). A bug is kept only if the
demo passes on the unchanged tree and fails with the change, and the stable tests pass with it.
"""
import json, os, re, shutil, subprocess, sys, runpy, tempfile

SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exits 0 when the property holds for this demonstration, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
"""


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    work = tempfile.mkdtemp(prefix="plant")
    try:
        shutil.copytree(repo + "/tests", work + "/tests", symlinks=True)
        shutil.copy(repo + "/pyproject.toml", work)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo,
                   LANG="C.UTF-8", LC_ALL="C.UTF-8")
        r = sh(PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "--rootdir", work, "--timeout=300",
               "--continue-on-collection-errors", "-m", "not vcr", "-o", "junit_family=xunit2",
               "--junitxml=" + work + "/junit.xml", "tests", cwd=work, env=env)
        out = work + "/out.json"
        sh("/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + work + "/junit.xml")
        passed = set(json.load(open(out))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        return sorted(stable - passed)
    finally:
        shutil.rmtree(work)


def one(bug):
    bid = bug["id"]
    d = os.path.join(SEEDED, bid)
    files = bug.get("files") or {bug["file"]: bug["edits"]}
    scratch = tempfile.mkdtemp(prefix="plantrepo")
    repo = scratch + "/repo"
    try:
        sh("git", "clone", "-q", "/repo", repo)
        for name, edits in files.items():
            p = os.path.join(repo, name)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    return "edit matches %d times: %r" % (s.count(old), old[:80])
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh("git", "-C", repo, "diff").stdout
        for name in files:
            diff0 = sh("git", "-C", repo, "diff", "-U0", "--", name).stdout
            base = sh("git", "-C", repo, "rev-list", "--max-parents=0", "HEAD").stdout.strip()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff0, re.M):
                n, k = int(m.group(1)), int(m.group(2) or 1)
                if k and base not in sh("git", "-C", repo, "blame", "-l", "--root", "-L%d,+%d" % (n, k), "HEAD", "--", name).stdout:
                    return "changes lines of our own at %s:%d" % (name, n)
        tmp = scratch + "/seed"
        os.makedirs(tmp)
        open(tmp + "/patch.diff", "w").write(diff)
        open(tmp + "/demo.py", "w").write(bug["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        r = sh("bash", tmp + "/demo.sh", cwd="/repo")
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + r.stdout[-600:]
        r = sh("bash", tmp + "/demo.sh", cwd=repo)
        if r.returncode == 0:
            return "demo passes with the change"
        why = r.stdout.strip().splitlines()[-1:] or [""]
        missing = tests(repo)
        if missing:
            return "tests notice: %s" % missing[:3]
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree(tmp, d)
        return "kept (%s)" % why[0][:160]
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)):
            print(b["id"], b["property"], r, flush=True)
