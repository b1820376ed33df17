#!/usr/bin/env python3
"""Validates planted changes (development tool; no check uses it).

  seedtest.py [--all-checks] [--no-check] [ID ...]
For each seeded/<ID>: patch applies to /repo HEAD in a scratch copy, the stable tests pass, demo.sh is 0 on the clean copy and
nonzero with the patch, and the property's check (and with --all-checks every check) is run on the copy.  Prints one line each and
writes /tmp/seedtest.json."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set()
BL = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def check(prop, tree, tmp):
    rc, out = sh([PY, "-m", "nnjmon.run", prop, "--tier", "quick"], HERE, {"NNJMON_REPO": tree, "NNJMON_EVIDENCE": os.path.join(tmp, "ev"), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    hit = rc == 1 and ("VIOLATION property=%s " % prop) in out
    return "caught" if hit else ("quiet" if rc == 0 else "rc%d" % rc)


def one(sid, allc, noc):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    r = {"id": sid, "property": meta["property"]}
    try:
        tree = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", os.environ.get("SEED_BASE", "/repo"), tree], check=True)
        demo = os.path.join(tmp, "demo"); shutil.copytree(d, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        r["demo_clean"], o0 = sh(["bash", os.path.join(demo, "demo.sh")], tree)
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], tree)
        r["apply"] = rc
        r["demo_patched"], o1 = sh(["bash", os.path.join(demo, "demo.sh")], tree)
        r["demo_tail"] = o1.strip().split("\n")[-1][:150]
        if r["demo_clean"]:
            r["demo_clean_tail"] = o0.strip().split("\n")[-1][:200]
        rc, o = sh([PY, "-m", "pytest", "-n", "4", "-p", "vp_seed", "-p", "no:cacheprovider", "-o", "python_files=*.py", "tests"], tree,
                   {"PYTHONPATH": "/opt/vp/pytest_plugins:" + tree, "VP_SEED": "2"})
        r["tests"] = ([l for l in o.split("\n") if " passed" in l or " failed" in l] or ["?"])[-1].strip("= ")[:60]
        r["tests_rc"] = rc
        if not noc:
            props = ["C%02d" % i for i in range(1, 26)] if allc else [meta["property"]]
            r["checks"] = {p: check(p, tree, tmp) for p in props}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    good = r["tests_rc"] == 0 and r["demo_clean"] == 0 and r["demo_patched"] != 0 and r["apply"] == 0
    print(sid, "valid" if good else "INVALID", r["tests"], r.get("checks", {}), r["demo_tail"] if good else r, flush=True)
    return r


def main():
    a = sys.argv[1:]
    allc, noc = "--all-checks" in a, "--no-check" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        res = list(ex.map(lambda s: one(s, allc, noc), ids))
    json.dump(res, open("/tmp/seedtest.json", "w"), indent=1)


if __name__ == "__main__":
    main()
