#!/usr/bin/env python3
"""Development tool: validate planted changes in scratch copies of /repo, write them to /verif/seeded, run the property's check on them.

usage: plant.py SPEC.py [ID ...]      SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo)]
       plant.py --check [ID ...]      re-run the checks on stored changes
No check reads this file or /verif/seeded."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get("PLANT_V", "/verif")
PY = "/opt/venv/bin/python"
ENVV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", WANDB_MODE="offline", MPLCONFIGDIR="/opt/vp/cache", OMP_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 if the property holds, 1 otherwise.
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 WANDB_MODE=offline
export PYTHONPATH="$PWD:$D"
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd, timeout=400, env=ENVV):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def tests_ok(root):
    x = os.path.join(root, ".junit.xml")
    sh([PY, "-m", "pytest", "-q", "--tb=no", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], root)
    import xml.etree.ElementTree as ET

    bad, good = set(), set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        n = tc.get("classname") + "::" + tc.get("name")
        (bad if any(c.tag in ("failure", "error") for c in tc) else good).add(n)
    os.remove(x)
    return good


BASE_GOOD = None
BASE = "c0bda4d"


def foreign(patch):
    """Lines removed by a patch against /repo's HEAD which the original repository does not have (lines of our own fixes)."""
    out, f, n = [], None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = subprocess.run(["git", "blame", "-s", "--abbrev=12", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
            mine = set(subprocess.check_output(["git", "rev-list", "--abbrev-commit", "--abbrev=12", BASE + "..HEAD"], cwd="/repo", text=True).split())
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if blame[n - 1].split()[0].lstrip("^")[:12] in mine:
                out.append(f"{f}:{n}: {l[1:].strip()}")
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def one(b):
    root = tempfile.mkdtemp(prefix="plant_")
    rep = os.path.join(root, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", rep])
        d = os.path.join(root, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        if "fast_pytorch_kmeans" in b.get("needs_stub", ""):
            shutil.copy(os.path.join(V, "tools", "kmeans_stub.py"), os.path.join(d, "fast_pytorch_kmeans.py"))
        clean = sh(["bash", os.path.join(d, "demo.sh")], rep, 280)
        if clean.returncode != 0:
            return b["id"], "BAD demo fails on the clean tree: " + (clean.stdout + clean.stderr)[-600:]
        for f, old, new in b["edits"]:
            p = os.path.join(rep, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"BAD edit matches {s.count(old)} times: {old[:70]!r}"
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], rep).stdout
        if foreign(patch) or "\n-" not in patch.replace("\n---", ""):
            return b["id"], f"BAD changes lines of our own commits: {foreign(patch)[:2]}"
        dirty = sh(["bash", os.path.join(d, "demo.sh")], rep, 280)
        if dirty.returncode == 0:
            return b["id"], "BAD demo passes with the change"
        if "demo:" not in dirty.stdout + dirty.stderr and "AssertionError" not in dirty.stderr:
            print(b["id"], "note: demo failed with", dirty.stderr[-300:])
        good = tests_ok(rep)
        lost = BASE_GOOD - good
        if lost:
            return b["id"], f"BAD tests fail: {sorted(lost)[:3]}"
        out = os.path.join(V, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        for f in os.listdir(d):
            shutil.copy(os.path.join(d, f), os.path.join(out, f))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return b["id"], check(b["id"], rep, b["prop"])
    except Exception as e:
        return b["id"], f"BAD {type(e).__name__}: {e}"
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check(i, rep, prop):
    env = dict(os.environ, VERIF_REPO=rep, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", VERIF_EVIDENCE=os.path.join(rep, ".ev"))
    v = os.environ.get("PLANT_CHECKS", V)  # a copy whose checks are used, so that /verif can be edited meanwhile
    r = sh([os.path.join(v, "check.py"), prop], v, 900, env)
    line = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
    if r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in line):
        return "caught: " + line[0][:230]
    return f"MISSED (exit {r.returncode}): " + " | ".join(line)[-300:] + r.stderr[-200:]


def stored(i):
    root = tempfile.mkdtemp(prefix="plant_")
    rep = os.path.join(root, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", rep])
        d = os.path.join(V, "seeded", i)
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], rep)
        if r.returncode:
            return i, "BAD patch does not apply"
        return i, check(i, rep, json.load(open(os.path.join(d, "meta.json")))["property"])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    global BASE_GOOD
    args = sys.argv[1:]
    if args[0] == "--blame":
        for i in sorted(os.listdir(os.path.join(V, "seeded"))):
            pt = open(os.path.join(V, "seeded", i, "patch.diff")).read()
            k = sum(1 for l in pt.splitlines() if l.startswith("-") and not l.startswith("---"))
            if foreign(pt) or not k:
                print(i, k, "removed lines, foreign:", foreign(pt))
        return
    if args[0] == "--check":
        ids = args[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
        with ThreadPoolExecutor(2) as ex:
            for i, m in ex.map(stored, ids):
                print(i, m, flush=True)
        return
    ns = {}
    exec(open(args[0]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
    root = tempfile.mkdtemp(prefix="plant_base_")
    subprocess.check_call(["git", "clone", "-q", "/repo", os.path.join(root, "repo")])
    BASE_GOOD = tests_ok(os.path.join(root, "repo"))
    shutil.rmtree(root)
    print("baseline passes", len(BASE_GOOD))
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(one, bugs):
            print(i, m, flush=True)


main()
